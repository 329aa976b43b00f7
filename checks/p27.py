"""P27: derived enums map variants and names one to one."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import sercheck
from sercheck import Streams
import shapes


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n, names in shapes.ENUMS.items():
            T = Targets(P)
            enum_target(T, n, names)
            report(r, T)
            T = Streams(P)
            sercheck.enum_source(T, n, names)
            report(r, T)
            r.count("enums")
    finish(r, 150)
    r.cov["explanation"] = ("the derives' expansions for six enums (one to 300 variants, renamed, swapped, escaped, empty name, "
                            "explicit discriminants): each name, an arbitrary other string and every other kind delivered; each "
                            "variant serialized; names and variants must correspond one to one")
    r.assumptions.append("the witness shapes stand for every derived enum; variant names are distinct after renaming")


if __name__ == "__main__":
    sys.exit(common.run("P27", check))
