"""Running the parser analysis for a check."""
import common
from harness import Server
from prog import Prog
from parser import Parser
from decheck import Anchor, report
from normal import canon_name

EXPL = ("json::from_str is interpreted over its compiled form with a symbolic text of any length up to 1 GiB; a reference automaton "
        "for RFC 8259 consumes the same bytes in step and says which callback is due with what data; the target is played by an "
        "environment whose callbacks may each succeed, fail or panic; loops by joins, the stack of open builders by a summary. ")


def parser(r, sv, kinds, panics=True, loops=False):
    P = Prog(sv)
    T = Parser(P)
    T.user_panics = panics
    r.count("loop_states", T.drive())
    if loops:
        T.stuck()
        r.count("loop_edges", T.loop_edges)
    for k, n in T.outcomes.items():
        r.count("runs_ending_" + k, n)
    r.count("environment_choices", T.events)
    n = len(r.violations)
    report(r, T, lambda k: k in kinds)
    if len(r.violations) == n and not T.finds and (not T.outcomes["ok"] or T.outcomes["err"] < 10 or T.obl < 2000):
        raise Anchor("the parser analysis reached %s and %d obligations only" % (T.outcomes, T.obl))
    fs = r.cov.pop("_fns", [])
    r.cov["functions_analysed"] = len(fs)
    r.cov["functions"] = fs
    r.cov["joins"] = T.ai.joins
    r.assumptions.append("texts up to 1 GiB; callbacks obey their types and either return or panic; Vec, Box, str and char behave as "
                         "documented; powers of ten in lookup tables are compared with their index, not their rounding")


def check(pid, kinds, rule, panics=True, loops=False):
    def f(r):
        with Server() as sv:
            parser(r, sv, kinds, panics, loops)
        r.cov["explanation"] = EXPL
        r.cov["rule"] = rule
    return lambda: common.run(pid, f)
