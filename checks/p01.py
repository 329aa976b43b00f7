"""P01: from_str accepts exactly the JSON grammar."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("every run ending in Ok must have consumed exactly one JSON text; every run ending in Err without a callback having "
        "failed must have met a byte or an end of text at which no JSON text goes on, or a number too large for a double")

if __name__ == "__main__":
    sys.exit(check('P01', ('accept', 'reject'), RULE)())
