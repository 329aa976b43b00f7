"""P29: owning wrappers free or move their contents exactly once (typestate of every owned value and heap cell)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from decheck import *
from parsecheck import parser


def check(r):
    with Server() as sv:
        P = Prog(sv)
        for f, what in (("array_into_iter", "converting an array into an iterator"), ("object_into_iter", "converting an object into an iterator")):
            T = container(P, "value")
            into_iter(T, f, what)
            report(r, T)
            r.count("conversions")
        # boxed builders and the cell they borrow from
        for n in ("boxed", "option"):
            T = Targets(P)
            T.drop_panics = True
            transparent_de(T, n)
            report(r, T, lambda k: k in MEM)
            r.count("builders")
        # emptied containers left behind by the builders
        for n, f in (("array", drive_seq), ("object", drive_map)):
            T = container(P, n)
            T.drop_panics = True
            f(T, Target(T, n))
            report(r, T, lambda k: k in MEM)
            r.count("builders")
        # the heap cells the parser keeps open builders in
        parser(r, sv, MEM + ("stale",))
    finish(r, 1000)
    r.cov["explanation"] = ("one typestate per owned value and heap cell: conversion into an iterator moves the same contents without "
                            "freeing or copying; boxed builders may fail, panic or be dropped at any point, with the wrapped builder "
                            "touching its borrowed cell in its own drop, so a cell freed first is a use after free")


if __name__ == "__main__":
    sys.exit(common.run("P29", check))
