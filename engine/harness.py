"""Drives the abstract interpreter like an arbitrary client of one API would."""
import sys, heapq
from build import Server
from prog import Prog
from ai import *
import models
from common import Anchor


class Client(Env):
    """collects results of calls into the analysed code"""

    def __init__(self, P):
        self.P = P
        self.results = []
        self.ai = AI(P, self, models.M)
        self.calls = 0
        self.finds = {}
        self.obl = 0

    def done(self, ai, st, val, unwinding):
        self.results.append((st, val, unwinding))

    def fresh_state(self):
        st = State()
        st.frames, st.heap, st.num, st.gh, st.unwinding, st.trace = [], {}, Store(), {}, False, None
        return st

    def call(self, st, inst, args, text=None):
        """all outcomes of inst(args) from st: list of (state, value, unwinding)"""
        ai = self.ai
        self.calls += 1
        st = st.copy()
        st.unwinding = False
        if text:
            ai.note(st, text)
        saved, self.results = self.results, []
        ai.acc = {}
        old = self.root(st, args)
        before = len(self.finds) + len(ai.alarms)
        start = st.copy()
        try:
            ai.push(st, inst, args, None, 0, "continue")
            ai.explore([st])
        except Unsupported as e:
            ai.alarm(st, "unsupported", str(e))
        r, self.results = self.results, saved
        if not r and len(self.finds) + len(ai.alarms) == before and not start.gh.get("lax"):
            self.no_outcome(start, inst)
        return self.unroot(r, old)

    def no_outcome(self, st, inst):
        """the call can neither return nor unwind"""
        if not self.finds and not self.ai.alarms:
            self.bad(st, "content", "%s never returns" % (self.ai.P.inst(inst)["name"],))

    def root(self, st, ptrs):
        """what the arguments point at is the caller's: it outlives the callee's last use of it"""
        old = st.gh.get("~args")
        os = old[2] if old else ()
        os += tuple([("o", p[1]) for p in ptrs if isinstance(p, tuple) and p and p[0] == "p" and p[1][0] not in ("in", "ga", "gs", "zst")])
        if os:
            st.gh["~args"] = ("a", 0, os)
        return old

    def unroot(self, r, old):
        for s, _, _ in r:
            if old is None:
                s.gh.pop("~args", None)
            else:
                s.gh["~args"] = old
        return r

    def drop(self, ai, st, ty, ptr):
        return False

    def drop_ptr(self, st, ptr, ty):
        """all outcomes of dropping *ptr"""
        ai = self.ai
        st = st.copy()
        st.unwinding = False
        saved, self.results = self.results, []
        ai.acc = {}
        old = self.root(st, [ptr])
        try:
            ai.push_native(st, "drop", ("drops", ((ptr, ty),), False, None), None, None, "continue")
            ai.explore([st])
        except Unsupported as e:
            ai.alarm(st, "unsupported", str(e))
        r, self.results = self.results, saved
        return self.unroot(r, old)

    # ---- findings -------------------------------------------------------------------------------
    def bad(self, st, kind, what):
        k = (kind, what)
        if k not in self.finds:
            self.finds[k] = "%s: %s\n  after: %s" % (kind, what, "; ".join(self.ai.trace(st)))

    def check(self, st, cond, kind, what):
        self.obl += 1
        if not cond:
            self.bad(st, kind, what)
        return bool(cond)

    # ---- harness loops -----------------------------------------------------------------------------
    def fixpoint(self, inits, step):
        """explore harness-level loop states to a fixpoint: step(state) -> successor states at the loop head"""
        ai = self.ai
        acc = {}
        pending = []

        def arrive(st):
            self.fold(st)
            saved, ai.acc, savedp = ai.acc, acc, getattr(ai, "pending", None)
            ai.pending = pending
            try:
                ai.arrive(st)
            except Split as e:
                for alt in e.alts:
                    c = st.copy()
                    try:
                        ai.assume_all(c, alt)
                    except Infeasible:
                        continue
                    arrive(c)
            finally:
                ai.acc = saved
                ai.pending = savedp
        for s in inits:
            arrive(s)
        n = 0
        while pending:
            key = heapq.heappop(pending)[-1]
            e = acc[key]
            e["queued"] = False
            n += 1
            if n > 3000:
                raise Unsupported("no fixpoint in the client loop")
            for s in step(e["state"].copy()):
                arrive(s)
        return len(acc)

    def fold(self, st):
        pass
