"""P28: container serialization streams each element once in order."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import sercheck
from sercheck import Streams


def check(r):
    with Server() as sv:
        P = Prog(sv)
        jobs = [("pair", sercheck.fields_source, ()), ("zpair", sercheck.fields_source, ())]
        jobs += [(n, sercheck.slice_source, ()) for n in ("slice", "arr0", "arr3", "arr300", "vec", "array")]
        jobs += [("btree", sercheck.map_source, ()), ("zbtree", sercheck.map_source, ()), ("object", sercheck.map_source, ()),
                 ("hash", sercheck.map_source, (P.entry("se_begin_hash"),))]
        for n, f, a in jobs:
            T = Streams(P)
            f(T, n, *a)
            report(r, T)
            r.count("containers")
    finish(r, 400)
    r.floor("containers", 9)
    r.cov["explanation"] = ("for each container of symbolic length the stream is driven to its end as an inductive loop: entry k is the "
                            "container's element k (address and type), map keys are the string conversion of the same entry's key, "
                            "and the stream ends exactly after the last entry; the stream may also be dropped at any point")
    r.assumptions.append("BTreeMap and HashMap iteration of the standard library behave as documented")


if __name__ == "__main__":
    sys.exit(common.run("P28", check))
