"""P12: serialized output is structurally well-formed JSON of exactly the fragments produced."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from printcheck import *


def check(r):
    with Server() as sv:
        printer(r, sv, lambda k: k in ("text:structure", "order"))
    finish(r)
    r.cov["explanation"] = r.cov.pop("rule") + \
        "The text written is matched against the text owed by the fragments, piece by piece; a bracket, comma, colon or value out of " \
        "place, a value begun twice, skipped or out of turn, and a result returned early are alarms"


if __name__ == "__main__":
    sys.exit(common.run("P12", check))
