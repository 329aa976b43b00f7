"""P19: Option, Box, reference and Cow are transparent (all histories of the wrapper, the wrapped type opaque)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import sercheck
from sercheck import Streams


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n in ("option", "boxed", "zoption"):
            T = Targets(P)
            transparent_de(T, n)
            report(r, T)
            r.count("targets")
        for n in ("reference", "boxed", "option", "cow", "zreference", "zboxed", "zoption", "zcow"):
            T = Streams(P)
            sercheck.transparent_source(T, n)
            report(r, T)
            r.count("sources")
    finish(r, 700)
    r.cov["explanation"] = ("Box and Option targets around an opaque type whose every callback may succeed, fail or panic: each call, "
                            "argument, result and drop must be passed on exactly once, and a success must store the wrapped type's "
                            "value; serialization of references, boxes, Cow and Option must return the wrapped value's own fragment")
    r.assumptions.append(LAX)


if __name__ == "__main__":
    sys.exit(common.run("P19", check))
