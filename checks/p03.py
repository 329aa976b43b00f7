"""P03: strings handed to callbacks are valid UTF-8."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("every string given to a callback consists of characters encoded as a whole and of stretches of the text that begin and "
        "end at character boundaries, also in texts that are not JSON")

if __name__ == "__main__":
    sys.exit(check('P03', ('utf8', 'ub', 'boundary'), RULE)())
