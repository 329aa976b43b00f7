"""P06: parsing terminates."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from parsecheck import check

RULE = ("every cycle of the graph of loop states strictly decreases unread text, open builders or an integer of the loop, and "
        "increases none of what orders it")

if __name__ == "__main__":
    sys.exit(check('P06', ('loop',), RULE, loops=True)())
