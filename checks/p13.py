"""P13: serialized strings escape exactly what JSON requires."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from printcheck import *


def check(r):
    with Server() as sv:
        printer(r, sv, lambda k: k == "text:string")
    finish(r)
    r.cov["explanation"] = r.cov.pop("rule") + \
        "A string of unknown text is owed as quote, each byte in order copied or replaced by an escape of that byte, quote; a byte that " \
        "must be escaped only counts as written if one of its escapes was written, for every byte value"


if __name__ == "__main__":
    sys.exit(common.run("P13", check))
