"""P24: unknown data is skipped without side effects."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
import shapes


def check(r):
    with Server() as sv:
        P = Prog(sv)
        T = Targets(P)
        st = T.fresh_state()
        n = 0
        for s, v, u in T.call(st, P.entry("ignore"), [], "ignore()"):
            n += 1
            seen = set()
            if T.check(s, not u, "panic", "ignore() panics"):
                check_ignoring(T, s, v, "the ignoring target", seen)
                r.count("ignoring_visitor_types", len(seen))
        T.check(st, n > 0, "content", "ignore() has no outcome")
        report(r, T)
        # what derived structs hand out for unknown keys
        for n in ("d1", "d3", "dopt"):
            T = Targets(P)
            drive_struct(T, Target(T, n), shapes.DE_STRUCTS[n], shapes.OPTIONAL.get(n, ()))
            report(r, T, lambda k: False)
            for (kind, what), text in T.finds.items():
                if "unknown key" in what or "a key is refused" in what:
                    r.violation("%s: %s" % (kind, what), text)
            r.count("structs")
    finish(r, 500)
    r.floor("ignoring_visitor_types", 1)
    r.cov["explanation"] = ("induction over the document: every callback on the ignoring visitor succeeds, changes no memory, and "
                            "everything it hands out is again an ignoring visitor of a zero-sized type; derived structs hand out "
                            "exactly such visitors for unknown keys, in every state of the builder")


if __name__ == "__main__":
    sys.exit(common.run("P24", check))
