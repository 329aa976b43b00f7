"""P11: dropping a JSON tree uses bounded stack and releases every node."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
from trees import Trees, NEST


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for fn, what in (("drop_value", "dropping a value"), ("drop_array", "dropping an array"), ("drop_object", "dropping an object")):
            T = Trees(P)
            T.drop_tree(fn, what)
            report(r, T)
            r.count("nodes_taken_out", T.nodes)
            r.count("loop_states", len(T.ai.acc))
        for fn, nx, what in (("array_into_iter", "array_next", "iterating over an array"), ("object_into_iter", "object_next", "iterating over an object")):
            T = Trees(P)
            T.consume(fn, nx, what)
            report(r, T)
            r.count("nodes_taken_out", T.nodes)
            r.count("loop_states", T.states)
    finish(r, 50)
    r.floor("nodes_taken_out", 50)
    r.cov["explanation"] = ("drop glue, Drop implementations and the owning iterators are interpreted over trees whose nodes are arbitrary: a collection of "
                            "nodes is a summary of any number of arbitrary nodes, and a node taken out of it is of any kind, containers holding "
                            "a summary again. Every call chain of every tree is then met, so a function on the stack for the %dth time is unbounded "
                            "recursion; heap memory nobody can reach any more is a leak" % (NEST + 1))
    r.assumptions.append("Vec, BTreeMap and their iterators release what they still hold when dropped; at most 2^50 children per container")


if __name__ == "__main__":
    sys.exit(common.run("P11", check))
