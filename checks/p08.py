"""P08: callbacks follow the document and errors stop parsing."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("every callback must be the one the reference automaton has due, on the place handed out for it; none after a failure; "
        "success only with nothing left due and no builder open")

if __name__ == "__main__":
    sys.exit(check('P08', ('order',), RULE)())
