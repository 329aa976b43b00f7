"""P16: serialization never uses a stream after it is gone."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from printcheck import *


def check(r):
    with Server() as sv:
        printer(r, sv, lambda k: k == "stale" or k in MEM)
    finish(r)
    r.cov["explanation"] = r.cov.pop("rule") + \
        "What a stream hands out lives until that stream is advanced or dropped, a stream obtained from it must go first; every use of " \
        "a value, key or stream after its end, and every stream left behind on a panic, is an alarm"


if __name__ == "__main__":
    sys.exit(common.run("P16", check))
