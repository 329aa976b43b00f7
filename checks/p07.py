"""P07: parsing never panics or reads out of bounds."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("every panic, overflow check, bounds check and raw access reached by the analysis must be infeasible")

if __name__ == "__main__":
    sys.exit(check('P07', ('panic', 'oob', 'ub', 'overflow'), RULE)())
