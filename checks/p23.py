"""P23: the untyped JSON value represents every document faithfully."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import sercheck
from sercheck import Streams


def check(r):
    with Server() as sv:
        P = Prog(sv)
        T = Targets(P)
        vt = value_target(T)
        report(r, T)
        for kind, n in (("seq", "Array"), ("map", "Object")):
            T = container(P, "value")
            tg = Target(T, "value")
            tg.variant = variant(P, vt, n)
            r.count("history_states", drive_seq(T, tg) if kind == "seq" else drive_map(T, tg))
            report(r, T)
        # stand-alone containers and numbers
        T = Targets(P)
        scalar_target(T, "number")
        report(r, T)
        T = container(P, "array")
        drive_seq(T, Target(T, "array"))
        report(r, T)
        T = container(P, "object")
        drive_map(T, Target(T, "object"))
        report(r, T)
        T = Streams(P)
        sercheck.value_source(T)
        report(r, T)
        for n, f in (("number", sercheck.scalar_source), ("array", sercheck.slice_source), ("object", sercheck.map_source)):
            T = Streams(P)
            f(T, n)
            report(r, T)
    finish(r, 3000)
    r.cov["explanation"] = ("every callback and every builder history of Value, Array, Object and Number, with symbolic payloads and "
                            "nested values as tokens, stores the corresponding variant with the delivered payload; serializing each "
                            "variant gives the fragment of that kind and payload, container streams entry by entry")
    r.assumptions.append("BTreeMap insertion and iteration of the standard library behave as documented")


if __name__ == "__main__":
    sys.exit(common.run("P23", check))
