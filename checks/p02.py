"""P02: string values and keys are decoded exactly."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("the text given to string() and key() must be, piece by piece, what the reference decoder made of the same bytes")

if __name__ == "__main__":
    sys.exit(check('P02', ('string',), RULE)())
