"""P21: fixed-size arrays never expose, leak or double-drop elements (typestate of every element slot, all histories)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *


TARGETS = {"arr0": 0, "arr1": 1, "arr2": 2, "arr3": 3, "arr5": 5, "arr9": 9, "arr17": 17, "arr40": 40}


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n, length in TARGETS.items():
            T = container(P, n)
            T.drop_panics = length < 40
            r.count("history_states", drive_seq(T, Target(T, n), length))
            report(r, T, lambda k: k in MEM or k == "panic")
            r.count("targets")
    finish(r, 1000)
    r.cov["explanation"] = ("every history of the fixed-size array builder (element stored or not, refused, panicking in begin, in a "
                            "callback or in an element's drop; builder dropped at any point; slot empty or already filled) is "
                            "interpreted with one typestate per element slot: reading or dropping an unwritten slot, dropping "
                            "twice and never dropping are alarms")
    r.assumptions.append("array lengths 0, 1, 2, 3, 5, 9, 17 and 40 stand for every length (40 without panics in element drops); after a panicking element drop only double drops are alarms, leaks are not")


if __name__ == "__main__":
    sys.exit(common.run("P21", check))
