"""Running the printer analysis for a check."""
import common
from harness import Server
from prog import Prog
from printer import Printer
from decheck import Anchor, MEM, report
from normal import canon_name
import sercheck

EXPL = ("json::to_string is interpreted over its compiled form, with the values being serialized played by an environment that answers "
        "every begin() with every kind of fragment, yields any number of elements and entries (borrowed or owned keys) from every "
        "stream and may panic anywhere; strings are symbolic and any nesting depth is covered by a summary of the open streams. ")


def printer(r, sv, keep):
    P = Prog(sv)
    T = Printer(P)
    r.count("loop_states", T.drive())
    r.count("outcomes", T.outcomes)
    r.count("environment_choices", T.events)
    n = len(r.violations)
    T.calls = 1
    report(r, T, keep)
    if len(r.violations) == n and (T.outcomes < 2 or T.obl < 500):
        raise Anchor("the printer analysis reached %d outcomes and %d obligations only" % (T.outcomes, T.obl))
    r.cov["rule"] = EXPL
    r.assumptions.append("values handed to the printer follow the documented protocol; text below 2^61 bytes; String, Vec and "
                         "Box behave as documented; itoa and ryu print the number they are given")


def finish(r):
    fs = r.cov.pop("_fns", [])
    r.cov["functions_analysed"] = len(fs)
    r.cov["functions"] = fs
