"""P04: integer literals are delivered exactly or as floats."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("nonnegative() and negative() are given exactly the integer written, and only literals that are integers and fit")

if __name__ == "__main__":
    sys.exit(check('P04', ('int',), RULE)())
