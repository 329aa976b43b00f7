"""Dropping JSON trees of any shape and depth.

A tree node is known only once the code looks at it: a collection of nodes is a summary ("any number of arbitrary nodes"),
and taking a node out of it gives every kind of node, containers again holding a summary.  Nodes put into a collection are
folded back into its summary.  So every call that can happen while some tree is dropped happens in the exploration, and a
function met again and again on the call stack means stack use that grows with the depth of the tree."""
from harness import *
from normal import canon_name
from prog import Prog
from models import is_pre, drop_items
import sercheck

COLL = ("std::vec::Vec", "std::vec::IntoIter", "std::vec::Drain", "std::collections::VecDeque")
MAPS = ("std::collections::BTreeMap", "std::collections::HashMap", "std::collections::btree_map::IntoIter",
        "std::collections::hash_map::IntoIter", "std::collections::btree::map::BTreeMap")
NEST = 3


def plain(v):
    """owns no heap memory"""
    return v[0] == "t" or v[0] == "a" and all(not isinstance(x, tuple) or plain(x) for x in v[2])


class Trees(Client):
    def __init__(self, P):
        super().__init__(P)
        self.ai.widen_after = 2
        self.nodes = 0
        self.deep = 0
        self.ai.nest_limit = NEST

    def panic(self, ai, st, what):
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def recursion(self, ai, st, inst):
        cyc = []
        for f in reversed(st.frames):
            if f.inst is not None:
                cyc.append(canon_name(self.P.inst(f.inst)["name"]))
                if f.inst == inst:
                    break
        me = canon_name(self.P.inst(inst)["name"])
        own = sorted(n for n in set(cyc) if n.startswith(("miniserde", "<miniserde")) or "miniserde::json" in n)
        self.bad(st, "recursion", "%s is entered again for a nested tree: %s" %
                 (own[0] if own else me, " -> ".join([me] + cyc[::-1][1:] + [me])))
        raise Dead()

    # ---- arbitrary values ---------------------------------------------------------------------------
    def any(self, st, ty, depth=0):
        """alternatives (state -> value) for an arbitrary value of this type"""
        ai, P = self.ai, self.P
        d = P.ty(ty)
        k = d["k"]
        if P.q("drop", ty) is None or depth > 6:
            if depth > 6:
                raise Unsupported("arbitrary value of " + d["name"])
            return [lambda s: self.token()]
        if k == "adt":
            n = canon_name(d["def"])
            a = [x for x in d["args"] if isinstance(x, int)]
            if n in COLL:
                return [lambda s, e=a[0]: self.coll(s, e)]
            if n in MAPS:
                return [lambda s, e=("kv", a[0], a[1]): self.coll(s, e)]
            if n == "std::string::String":
                def text(s):
                    ai.uid += 1
                    return ("a", 0, (("o", ai.new_obj(s, ("txt", (("P", "sl", ("any", ai.uid), 0, s.num.fresh(0, 1 << 50)),)), None, "h")),))
                return [text]
            if n.startswith("std::") and n.split("::")[-1] not in ("Option", "Result", "ManuallyDrop", "Wrapping"):
                raise Unsupported("arbitrary value of " + d["name"])
            out = []
            for i, v in enumerate(d["variants"]):
                for c in self.product(st, ai.fields(ty, i), depth):
                    out.append(lambda s, i=i, c=c: ("a", i, c(s)))
            return out
        if k == "tuple":
            return [lambda s, c=c: ("a", 0, c(s)) for c in self.product(st, d["elems"], depth)]
        raise Unsupported("arbitrary value of " + d["name"])

    def product(self, st, tys, depth):
        out = [lambda s: ()]
        for t in tys:
            out = [lambda s, p=p, a=a: p(s) + (a(s),) for p in out for a in self.any(st, t, depth + 1)]
            if len(out) > 64:
                raise Unsupported("too many kinds of node")
        return out

    def token(self):
        self.ai.uid += 1
        return ("t", self.ai.uid, ("K", "leaf"))

    def coll(self, s, ety):
        return ("o", self.ai.new_obj(s, ("seq", (("pre", ("K", "T", ety), s.num.fresh(0, 1 << 50)),), ety), None, "h"))

    def element(self, st, ety, cls="T"):
        if isinstance(ety, tuple):
            out = [lambda s, c=c: ("a", 0, c(s)) for c in self.product(st, ety[1:], 0)]
        else:
            out = self.any(st, ety)
        if cls == "plain":
            t = st.copy()
            out = [c for c in out if plain(c(t))]
        return out

    # ---- taking nodes out of summaries ------------------------------------------------------------------
    def take(self, st, o, v, j, val):
        n = v[1][j][2]
        e = st.num.evalc(eq(n, 0))
        if e is None:
            raise Split([eq(n, 0)], [le(1, n)])
        self.nodes += 1
        pre = v[1][j]
        rest = v[1][:j] + ((pre[0], pre[1], st.num.norm(sub(n, 1))),) + v[1][j + 1:]

        def out(s, c):
            s.heap[o] = ("seq", rest) + v[2:]
            return val(c(s))
        return Fork(*[lambda s, c=c: out(s, c) for c in self.element(st, v[2], pre[1][1])])

    def pop_pre(self, ai, st, o, v):
        return self.take(st, o, v, len(v[1]) - 1, some)

    def shift_pre(self, ai, st, o, v):
        return self.take(st, o, v, 0, some)

    def unfold(self, ai, st, v, j, k, ln):
        objs = [o for o, w in st.heap.items() if w is v]
        if len(objs) != 1:
            raise Unsupported("element of a summarised sequence")
        o = objs[0]
        pre = v[1][j]
        self.nodes += 1

        def put(c):
            def g(s):
                mid = ((pre[0], pre[1], s.num.norm(k)), c(s), (pre[0], pre[1], s.num.norm(sub(sub(ln, k), 1))))
                s.heap[o] = ("seq", v[1][:j] + mid + v[1][j + 1:]) + v[2:]
            return [g]
        raise Split(*[put(c) for c in self.element(st, v[2], pre[1][1])])

    def drop_pre(self, ai, st, item):
        # drop any number of arbitrary nodes one after the other: each leaves nothing behind, so one stands for all
        n, ety = item[2], item[1][2]
        e = st.num.evalc(eq(n, 0))
        if e is None:
            raise Split([eq(n, 0)], [le(1, n)])
        if e or item[1][1] == "plain":
            return None
        self.nodes += 1

        def out(s, c):
            o = ai.new_obj(s, ("seq", (c(s),), ety), None, "h")
            items, fin = drop_items(ai, s, o, s.heap[o])
            ai.push_native(s, "drop", ("drops", tuple(items), False, fin), None, None, "continue")
        return Fork(*[lambda s, c=c: out(s, c) for c in self.element(st, ety)])

    # ---- putting nodes into summaries -------------------------------------------------------------------
    def owned(self, s, v, seen):
        """heap cells owned by a value, or None when part of it has been moved out or is more than plain contents"""
        if v == UNINIT:
            return False
        if isinstance(v, tuple) and v:
            if v[0] == "a":
                return all(self.owned(s, x, seen) for x in v[2])
            if v[0] == "o":
                if v[1] not in s.heap:
                    return False
                seen.append(v[1])
                w = s.heap[v[1]]
                return w[0] == "txt" or w[0] == "seq" and all(is_pre(i) or self.owned(s, i, seen) for i in w[1])
            return v[0] in ("t", "x") or v[0] == "pre"
        return True

    def prejoin(self, ai, st):
        for o in [o for o, w in st.heap.items() if isinstance(w, tuple) and w and w[0] == "seq" and o[0] == "h"]:
            if o not in st.heap:
                continue
            w = st.heap[o]
            if w[2] is None:
                continue
            # nodes without contents in front, then any nodes
            head, n, cells, ok = 0, None, [], True
            for it in w[1]:
                if is_pre(it):
                    if st.num.evalc(eq(it[2], 0)) is True:
                        continue
                    if n is None and it[1][1] == "plain":
                        head = add(head, it[2])
                    else:
                        n = add(n or 0, it[2])
                    continue
                cs = []
                ok = ok and self.owned(st, it, cs)
                if not ok:
                    break
                cells += cs
                if n is None and plain(it):
                    head = add(head, 1)
                else:
                    n = add(n or 0, 1)
            if not ok:
                continue
            for c in cells:
                st.heap.pop(c, None)
            out = [("pre", ("K", c, w[2]), st.num.norm(x)) for c, x in (("plain", head), ("T", n or 0))]
            out = [x for x in out if not (x[2] == 0)]
            st.heap[o] = ("seq", tuple(out), w[2])

    def garbage(self, ai, st, objs):
        for o in st.heap:
            if o[0] == "h" and o not in objs:
                self.bad(st, "leak", "part of the tree is never released in %s" % ai.owner(st))
                raise Infeasible()

    # ---- runs ----------------------------------------------------------------------------------------------
    def settled(self, outs, what):
        n = 0
        for s, v, u in outs:
            n += 1
            self.check(s, not u, "panic", what + ": panics")
            left = [o for o in s.heap if o[0] == "h"]
            self.check(s, not left, "leak", what + ": part of the tree is never released")
        if not n and not self.finds and not self.ai.alarms:
            raise Anchor(what + " has no outcome")

    def drop_tree(self, fn, what):
        b = self.P.body(self.P.entry(fn))
        for c in self.any(self.fresh_state(), b.locals[1]):
            st = self.fresh_state()
            self.settled(self.call(st, self.P.entry(fn), [c(st)], what), what)

    def consume(self, fn, nxt, what):
        """turn into an iterator, take any number of elements, then drop what is left"""
        P, ai = self.P, self.ai
        f, g = P.entry(fn), P.entry(nxt)
        b = P.body(f)
        cty, ity, oty = b.locals[1], b.locals[0], P.body(g).locals[0]
        inits = []
        for c in self.any(self.fresh_state(), cty):
            st = self.fresh_state()
            for s, v, u in self.call(st, f, [c(st)], what):
                if self.check(s, not u, "panic", what + ": panics"):
                    s.gh["it"] = ("p", ai.new_obj(s, v, ity, "s"), (), None)
                    inits.append(s)

        def step(st):
            outs = []
            h = st.gh["it"]
            for s, v, u in self.drop_ptr(st, h, ity):
                self.settled([(s, v, u)], "dropping the rest after " + what)
            for s, v, u in self.call(st, g, [h], "next()"):
                if not self.check(s, not u, "panic", what + ": panics"):
                    continue
                e = ai.new_obj(s, v, oty, "s")
                s.gh["item"] = ("p", e, (), None)
                for s2, v2, u2 in self.drop_ptr(s, ("p", e, (), None), oty):
                    s2.heap.pop(s2.gh.pop("item")[1])
                    self.check(s2, not u2, "panic", what + ": panics")
                    if v != NONE:
                        outs.append(s2)
            return outs
        if not inits and not self.finds and not ai.alarms:
            raise Anchor(what + " has no outcome")
        self.states = self.fixpoint(inits, step)
