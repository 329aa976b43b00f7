"""P17: integer targets accept exactly their range, with exact value (interval abstract interpretation of every callback)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n in RANGES:
            T = Targets(P)
            integer_target(T, n)
            report(r, T)
            r.count("targets")
    finish(r, 100)
    r.cov["explanation"] = ("for each of the ten integer types every callback is interpreted with its argument ranging over the "
                            "whole of its type; the sets of accepted and refused integers are compared with the target's range, "
                            "and the stored value must be the delivered one in every accepting case")
    r.assumptions.append("64-bit target, as built here (isize/usize are 64 bits wide)")


if __name__ == "__main__":
    sys.exit(common.run("P17", check))
