"""P14: scalars serialize to their exact JSON literal."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from printcheck import *


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n in sercheck.SCALARS:
            T = sercheck.Streams(P)
            sercheck.scalar_source(T, n)
            report(r, T)
            r.count("scalar_types")
        printer(r, sv, lambda k: k == "text:scalar")
    finish(r)
    r.cov["explanation"] = r.cov.pop("rule") + \
        "begin() of every scalar type of the library gives a fragment of the same symbolic value; the printer writes for each scalar " \
        "fragment the number formatted from exactly that value, true, false or null, and null for non-finite floats only"


if __name__ == "__main__":
    sys.exit(common.run("P14", check))
