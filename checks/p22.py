"""P22: map targets store each key with its own value (all histories of one builder, keys and values opaque)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *


TARGETS = ("btree", "zbtree", "hash", "object", "value")


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n in TARGETS:
            T = container(P, n)
            tg = Target(T, n, P.entry("de_begin_hash") if n == "hash" else None)
            r.count("history_states", drive_map(T, tg))
            report(r, T)
            r.count("targets")
    finish(r, 3000)
    r.cov["explanation"] = ("for each map target every history of its builder (any number of entries, any key text, key type refusing "
                            "or panicking, value refused or panicking, dropped early, slot empty or filled) is interpreted with "
                            "keys and values as tokens; a successful finish must have inserted exactly (key k, value k) in order, "
                            "which for a map means the last value of each key")
    r.assumptions.append("BTreeMap::insert and HashMap::insert of the standard library behave as documented")
    r.assumptions.append(LAX)


if __name__ == "__main__":
    sys.exit(common.run("P22", check))
