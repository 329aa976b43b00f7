"""P26: derived struct serialization emits every field once in order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import sercheck
from sercheck import Streams
import shapes


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n, names in shapes.SE_STRUCTS.items():
            T = Streams(P)
            sercheck.struct_source(T, n, names)
            report(r, T)
            r.count("structs")
    finish(r, 200)
    r.cov["explanation"] = ("the derive's expansion for fourteen struct shapes: the fragment is a map whose entry k is, for every k, the "
                            "k-th declared field under its (renamed) name, and which ends after the last field; the names are those "
                            "the deserialization check of the same shapes uses")
    r.assumptions.append("the witness shapes stand for every derived struct; field names are distinct after renaming")


if __name__ == "__main__":
    sys.exit(common.run("P26", check))
