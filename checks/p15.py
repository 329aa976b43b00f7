"""P15: serialization never fails or panics."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from printcheck import *


def check(r):
    keep = lambda k: k in ("panic", "oob", "ub")
    with Server() as sv:
        P = Prog(sv)
        for n in sercheck.SCALARS:
            T = sercheck.Streams(P)
            sercheck.scalar_source(T, n)
            report(r, T, keep)
        for n, f in (("array", sercheck.slice_source), ("object", sercheck.map_source)):
            T = sercheck.Streams(P)
            f(T, n)
            report(r, T, keep)
        T = sercheck.Streams(P)
        sercheck.value_source(T)
        report(r, T, keep)
        printer(r, sv, keep)
    finish(r)
    r.cov["explanation"] = r.cov.pop("rule") + \
        "Every reachable panic, unwrap, unreachable marker, bounds check, character boundary check and arithmetic overflow in the " \
        "printer and in the library's sources must be infeasible"


if __name__ == "__main__":
    sys.exit(common.run("P15", check))
