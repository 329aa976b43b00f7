"""P09: nested builders are dropped before what they borrow from."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("a builder is used or dropped only while it is the innermost one alive, on every exit including callback panics")

if __name__ == "__main__":
    sys.exit(check('P09', ('stale', 'uaf', 'uninit', 'memory', 'leak'), RULE)())
