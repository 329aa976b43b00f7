"""P20: sequence targets keep every element once and in order (all histories of one builder, elements opaque)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *


TARGETS = {"vec": None, "array": None, "value": None, "pair": 2, "arr0": 0, "arr1": 1, "arr2": 2, "arr3": 3, "arr5": 5, "arr40": 40, "zvec": None, "zpair": 2}


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n, length in TARGETS.items():
            T = container(P, n)
            r.count("history_states", drive_seq(T, Target(T, n), length))
            # memory errors of fixed-size arrays are a separate property
            report(r, T, (lambda k: k not in MEM) if n.startswith("arr") and n != "array" else None)
            r.count("targets")
    finish(r, 1000)
    r.cov["explanation"] = ("for each sequence target every history of its builder (any number of elements, stored, refused or "
                            "panicking at any point, dropped early, slot empty or already holding a value) is interpreted "
                            "abstractly with elements as tokens; a successful finish must leave exactly elements 0..n-1 in order")
    r.assumptions.append(LAX)


if __name__ == "__main__":
    sys.exit(common.run("P20", check))
