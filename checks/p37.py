"""P37: JSON trees behave as the collections they are: copies, collecting, iteration, number text."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import report, finish
from harness import Server
from prog import Prog
from copycheck import *


def check(r):
    with Server() as sv:
        P = Prog(sv)

        def go(f, *a):
            T = Trees(P)
            f(T, *a)
            report(r, T)
            r.count("operations")
        go(clone_scalars)
        for n in ("array", "object"):
            go(clone_container, "clone_" + n, "copying an " + n)
            go(clone_from_container, "clone_from_" + n, "copying onto an " + n)
            go(collect, "collect_" + n, "collecting into an " + n)
            go(empty, "new_" + n, "a new " + n)
            go(empty, "default_" + n, "the default " + n)
            for m in ("", "mut_"):
                go(deref, "deref_" + m + n, "dereferencing an " + n)
                go(iterate, "iter_" + m + n, "iterating over a borrowed " + n)
        go(empty, "default_value", "the default value")
        go(show)
    finish(r, 60)
    r.floor("operations", 21)
    r.cov["explanation"] = ("every collection operation of the JSON tree types is interpreted over containers with any number of arbitrary "
                            "elements, known by their place; the result must hold exactly a copy of each, in order, in memory of its own, and the "
                            "original must be as before; an unknown iterator may yield any number of items before it ends, repeated keys included")
    r.assumptions.append("Vec, BTreeMap and String copy, collect and iterate as documented; itoa and ryu print the number they are given")


if __name__ == "__main__":
    sys.exit(common.run("P37", check))
