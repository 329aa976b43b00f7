"""P25: derived struct deserialization routes keys to their fields."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import shapes

DEFAULTS = ["unit", "boolean", "string", "number", "value", "array", "object", "t_f32", "t_f64", "pair", "vec", "arr0", "arr1", "arr3",
            "btree", "boxed", "d0", "d1", "dopt", "dwide", "e1", "e3"] + ["t_" + n for n in RANGES]


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for n, names in shapes.DE_STRUCTS.items():
            T = Targets(P)
            sched = shapes.schedule(len(names)) if len(names) > 5 else None
            r.count("history_states", drive_struct(T, Target(T, n), names, shapes.OPTIONAL.get(n, ()), sched))
            report(r, T)
            r.count("structs")
        for n in DEFAULTS + ["option"]:
            T = Targets(P)
            defaults(T, n, n == "option")
            report(r, T)
            r.count("default_types")
    finish(r, 20000)
    r.cov["explanation"] = ("the derive's expansion for thirteen struct shapes (empty to 300 fields, renamed, swapped, escaped, raw, generic, "
                            "optional): every history of keys, known, repeated and unknown, with the field types opaque; a success "
                            "must hold for every field the last value stored under its key or the type's default, a failure must "
                            "have a required field missing; default() of every library type is absent except for Option")
    r.assumptions.append("the witness shapes stand for every derived struct; the 16-field one is explored along 67 key orders instead of all; field names are distinct after renaming")


if __name__ == "__main__":
    sys.exit(common.run("P25", check))
