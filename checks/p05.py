"""P05: float literals give finite values with right sign and scale."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("float() is given sign, digits and power of ten of the literal, scaled by exact table entries, and never an infinity")

if __name__ == "__main__":
    sys.exit(check('P05', ('float',), RULE)())
