"""P18: scalar targets accept only their own kind of JSON value."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n in SCALARS:
            T = Targets(P)
            scalar_target(T, n)
            report(r, T)
            r.count("targets")
    finish(r, 150)
    r.cov["explanation"] = ("every (scalar target, callback) pair is interpreted with symbolic arguments: own kinds store exactly "
                            "the delivered payload, every other kind returns an error and leaves the slot empty")


if __name__ == "__main__":
    sys.exit(common.run("P18", check))
