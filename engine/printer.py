"""The JSON printer under every finite stream of fragments a caller's values may produce.

The environment plays the values being serialized: begin() answers with any fragment, streams yield any number of
entries, every call may panic.  In step with the calls it spells out the text the printer owes (E); the printer's
String is compared with E piece by piece.  Strings are symbolic: E owes `esc(s, lo, len)`, "bytes lo..lo+len of s, each
either copied or replaced by a valid escape", and a byte is known only once the printer has looked at it."""
from harness import *
from models import text_of, norm_pieces, handle
from normal import canon_name
from prog import Prog

MUST = iset((0, 0x1F), (0x22, 0x22), (0x5C, 0x5C))
CLEAN = iminus(((0, 255),), MUST)
SHORT = {8: b"\\b", 9: b"\\t", 10: b"\\n", 12: b"\\f", 13: b"\\r", 34: b'\\"', 92: b"\\\\"}


def ttag(v):
    return v[0] if isinstance(v, tuple) and v else None


def escapes(x):
    out = [b"\\u%04x" % x, b"\\u%04X" % x]
    if x in SHORT:
        out.append(SHORT[x])
    return out


class Printer(Client):
    user_panics = True

    def __init__(self, P):
        super().__init__(P)
        self.fragty = P.body(P.entry("x_begin")).locals[0]
        self.vidx = {v["name"]: i for i, v in enumerate(P.ty(self.fragty)["variants"])}
        self.scalars = [self.vidx[n] for n in ("Null", "Bool", "U64", "I64", "F64")]
        self.ai.widen_after = 2
        self.shapes, self.stackty = frozenset(), None
        self.outcomes = 0
        self.events = 0

    # ---- findings -----------------------------------------------------------------------------------
    def panic(self, ai, st, what):
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def owe(self, st, *ps):
        st.gh["E"] = norm_pieces(self.ai, st, st.gh["E"] + ps)

    # ---- the values being serialized --------------------------------------------------------------------
    def model(self, path, inst, inf):
        if path == "<witness::STok as miniserde::Serialize>::begin":
            return lambda ai, st, a, c: self.begin(ai, st, a[0])
        return None

    def virtual(self, ai, st, meta, dty, path, idx, args):
        kind = meta[1][1] if meta[0] == "env" else None
        name = path.split("::")[-1]
        if kind == "val" and name == "begin":
            return self.begin(ai, st, args[0])
        if kind in ("seq", "map") and name == "next":
            return self.next(ai, st, args[0], kind)
        raise Unsupported("virtual call %s on %s" % (name, meta))

    def _panic(self, s):
        self.ai.note(s, "user code panics")
        raise Unwind()

    def outs(self, *fs):
        self.events += 1
        return Fork(*fs, *([self._panic] if self.user_panics else []))

    def frag(self, name, *v):
        return ("a", self.vidx[name], tuple(v))

    def begin(self, ai, st, ptr):
        p = ai.unwrap_ptr(ptr)
        ai.load(st, p[1])
        self.obl += 1
        if st.gh["hole"] != ("o", p[1]):
            self.bad(st, "order", "a value is serialized twice or out of turn in %s" % ai.owner(st))
            raise Dead()
        st.gh["hole"] = None

        def lit(name, text, *v):
            def f(s):
                ai.note(s, "begin() gives " + text)
                self.owe(s, ("P", "lit", text.encode()))
                return self.frag(name, *v)
            return f

        def num(name, lo, hi):
            def f(s):
                ai.note(s, "begin() gives an integer")
                n = s.num.fresh(lo, hi)
                self.owe(s, ("P", "int", n, s.num.fresh(1, 40)))
                return self.frag(name, n)
            return f

        def flt(cls):
            def f(s):
                ai.note(s, "begin() gives a %s float" % cls)
                x = ("x", "source", ("K", cls))
                if cls == "finite":
                    self.owe(s, ("P", "flt", x, s.num.fresh(1, 40)))
                else:
                    self.owe(s, ("P", "lit", b"null"))
                return self.frag("F64", x)
            return f

        def stream(kind):
            def f(s):
                ai.note(s, "begin() gives a " + kind)
                self.owe(s, ("P", "lit", b"[" if kind == "seq" else b"{"))
                b = self.new_stream(s, kind)
                s.gh["nest"] = s.gh["nest"] + (("E", ("o", b), ("K", kind), ("K", "fresh"), ()),)
                return self.frag("Seq" if kind == "seq" else "Map",
                                 models.box_value(ai, ("p", b, (), ("env", ("K", kind)))))
            return f

        def text(own):
            def f(s):
                ai.note(s, "begin() gives a string")
                return self.frag("Str", self.cow(s, own))
            return f
        return self.outs(lit("Null", "null"), lit("Bool", "true", True), lit("Bool", "false", False), num("U64", 0, (1 << 64) - 1),
                         num("I64", -(1 << 63), (1 << 63) - 1), flt("finite"), flt("nan"), flt("inf"), text(False), text(True),
                         stream("seq"), stream("map"))

    def new_stream(self, s, kind):
        return self.ai.new_obj(s, ("t", 0, ("K", "stream"), ("K", kind)), None, "h")

    def cow(self, s, own):
        """a Cow<str> of unknown text; E owes its quoted form; it lives as long as the innermost stream stands still"""
        ai = self.ai
        n = s.num.fresh(0, 1 << 61)
        r = ai.new_obj(s, UNINIT, None, "h")
        s.heap[r] = ("reg", ("o", r), n)
        self.owe(s, ("P", "lit", b'"'), ("P", "esc", ("o", r), 0, n), ("P", "lit", b'"'))
        if own:
            o = ai.new_obj(s, ("txt", norm_pieces(ai, s, (("P", "sl", ("o", r), 0, n),))), None, "h")
            return ("a", 1, (("a", 0, (("o", o),)),))
        self.attach(s, r)
        return ("a", 0, (("p", r, (("i", 0),), n),))

    def attach(self, s, obj):
        nest = s.gh["nest"]
        if nest and nest[-1][0] == "E":
            e = nest[-1]
            s.gh["nest"] = nest[:-1] + (e[:4] + (e[4] + (("o", obj),),),)

    def kill(self, s, objs):
        for o in objs:
            s.heap.pop(o[1], None)

    def find(self, st, obj):
        for i, e in enumerate(st.gh["nest"]):
            if e[0] == "E" and e[1] == ("o", obj):
                return i
        return None

    def cut(self, st, i):
        """everything obtained from streams after the i-th is now dangling"""
        for e in st.gh["nest"][i + 1:]:
            if e[0] == "E":
                self.kill(st, e[4])
                st.heap.pop(e[1][1], None)
        st.gh["nest"] = st.gh["nest"][:i + 1]

    def next(self, ai, st, ptr, kind):
        p = ai.unwrap_ptr(ptr)
        ai.load(st, p[1])
        i = self.find(st, p[1])
        self.obl += 3
        if i is None:
            raise Unsupported("stream outside the nest")
        if i != len(st.gh["nest"]) - 1:
            self.bad(st, "stale", "a stream is advanced while something obtained from it is still in use in %s" % ai.owner(st))
            self.cut(st, i)
        e = st.gh["nest"][-1]
        if e[3] == ("K", "ended"):
            self.bad(st, "order", "a stream is polled after its end in %s" % ai.owner(st))
            return NONE
        if st.gh["hole"] is not None:
            self.bad(st, "order", "an element or value is skipped in %s" % ai.owner(st))
            st.gh["hole"] = None        # go on: what was handed out is dangling from here on
        self.settle(ai, st)
        self.kill(st, e[4])
        e = e[:4] + ((),)
        started = e[3] == ("K", "going")
        st.gh["nest"] = st.gh["nest"][:-1] + (e[:3] + (("K", "going"), ()),)

        def end(s):
            ai.note(s, "the %s ends" % kind)
            s.gh["nest"] = s.gh["nest"][:-1] + (e[:3] + (("K", "ended"), ()),)
            self.owe(s, ("P", "lit", b"]" if kind == "seq" else b"}"))
            return NONE

        def value(s):
            v = ai.new_obj(s, ("t", 0, ("K", "value")), None, "h")
            self.attach(s, v)
            s.gh["hole"] = ("o", v)
            return ("p", v, (), ("env", ("K", "val")))

        def item(s):
            ai.note(s, "the seq yields an element")
            if started:
                self.owe(s, ("P", "lit", b","))
            return some(value(s))

        def entry(own):
            def f(s):
                ai.note(s, "the map yields an entry")
                if started:
                    self.owe(s, ("P", "lit", b","))
                k = self.cow(s, own)
                self.owe(s, ("P", "lit", b":"))
                return some(("a", 0, (k, value(s))))
            return f
        if kind == "seq":
            return self.outs(end, item)
        return self.outs(end, entry(False), entry(True))

    def drop_dyn(self, ai, st, meta, ptr):
        if meta[0] != "env" or meta[1][1] not in ("seq", "map"):
            raise Unsupported("drop of %s" % (meta,))
        ai.load(st, ptr[1])
        i = self.find(st, ptr[1])
        self.obl += 2
        if i is None:
            self.bad(st, "stale", "a stream is dropped twice in %s" % ai.owner(st))
            raise Dead()
        if i != len(st.gh["nest"]) - 1:
            self.bad(st, "stale", "a stream is dropped before a stream obtained from it in %s" % ai.owner(st))
            self.cut(st, i)
        e = st.gh["nest"][-1]
        if e[3] != ("K", "ended") and not st.unwinding:
            self.bad(st, "order", "a stream is dropped before its end in %s" % ai.owner(st))
        self.settle(ai, st)
        self.kill(st, e[4])
        st.gh["nest"] = st.gh["nest"][:-1]
        st.heap[ptr[1]] = ("t", 0, ("K", "dropped"), ("K", "dropped"))
        if self.user_panics and not st.unwinding:
            return Fork(lambda s: None, self._panic)

    # ---- knowledge about the bytes of the string being looked at ------------------------------------------
    # rk = (region, a, b, abound, k, x): bytes a..b need no escape; abound: a is a character boundary;
    # byte k is x, undecided or needing an escape (k == b), or None
    def region_read(self, ai, st, reg, idx):
        idx = st.num.norm(idx)
        if not (isinstance(reg, tuple) and reg[0] == "o"):
            raise Unsupported("read of region %s" % (reg,))
        ai.load(st, reg[1])
        n = st.heap[reg[1]][2]
        for c, bad in ((lt(idx, 0), True), (lt(idx, n), False)):
            e = st.num.evalc(c)
            if e is None:
                raise Split([c], [neg(c)])
            if e == bad:
                ai.alarm(st, "oob", "read outside a string")
                raise Dead()
        rk = st.gh.get("rk")
        if rk is not None and rk[0] == reg:
            if rk[5] is not None:
                e = self.decide(st, eq(idx, rk[4]))
                if e:
                    return rk[5]
            if self.decide(st, le(rk[1], idx)) and self.decide(st, lt(idx, rk[2])):
                return st.num.fresh_set(CLEAN)
            self.settle(ai, st)
            rk = st.gh["rk"]
            x = st.num.fresh(0, 255)
            if rk is not None and st.num.evalc(eq(idx, rk[2])) is True:
                st.gh["rk"] = (reg, rk[1], rk[2], rk[3], idx, x)
                return x
        else:
            self.settle(ai, st)
            x = st.num.fresh(0, 255)
        st.gh["rk"] = (reg, idx, idx, st.num.evalc(eq(idx, 0)) is True, idx, x)
        return x

    def decide(self, st, c):
        e = st.num.evalc(c)
        if e is None:
            raise Split([c], [neg(c)])
        return e

    def boundary(self, ai, st, p, k, n):
        v = st.heap.get(p[1])
        if v is None:
            return None
        off = 0
        if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == "i":
            off = p[2][-1][1]
        at = st.num.norm(add(k, off))
        if v[0] == "txt" and len(v[1]) == 1 and v[1][0][1] == "sl":
            reg, total = v[1][0][2], v[1][0][4]
            at = add(at, v[1][0][3])
        elif v[0] == "reg":
            reg, total = v[1], v[2]
        else:
            return None
        same = lambda z: st.num.evalc(eq(at, z)) is True
        if same(0) or same(total):
            return True
        w = st.gh.get("chr")
        if w is not None and w[1] == reg and (same(w[2]) or same(add(w[2], w[3]))):
            return True
        rk = st.gh.get("rk")
        if rk is not None and rk[0] == reg:
            if rk[3] and same(rk[1]):
                return True
            if rk[5] is not None and st.num.evalc(le(rk[5], 127)) is True and (same(rk[4]) or same(add(rk[4], 1))):
                return True
        return None

    def wide_char(self, ai, st, x, ch, l):
        """a character of l bytes has been decoded; its first byte x was just read"""
        rk = st.gh["rk"]
        if rk is None or rk[5] is None or st.num.evalc(eq(rk[5], x)) is not True:
            st.gh.pop("chr", None)
            return
        reg, k = rk[0], rk[4]
        self.settle(ai, st)
        rk = st.gh["rk"]
        if rk is not None and rk[5] is None and st.num.evalc(eq(rk[2], add(k, 1))) is True:
            st.gh["rk"] = rk[:2] + (st.num.norm(add(k, l)),) + rk[3:]
        st.gh["chr"] = ("E", reg, k, l, ch)

    def char_pieces(self, st, ch):
        """a character taken from the text being printed"""
        rk, w = st.gh.get("rk"), st.gh.get("chr")
        if w is not None and st.num.norm(w[4]) == ch:
            return (("P", "sl", w[1], w[2], w[3]),)
        if rk is not None and rk[5] is not None and st.num.norm(rk[5]) == ch and st.num.evalc(le(ch, 127)) is True:
            return (("P", "sl", rk[0], rk[4], 1),)
        return None

    def settle(self, ai, st, keep=False):
        """turn what has been written about the current string into esc pieces, and what is known about it into ranges"""
        rk = st.gh.get("rk")
        if rk is None:
            return
        reg, a, b, ab, k, x = rk
        if x is not None:
            s = st.num.iset(x)
            if not isub(s, CLEAN) and not isub(s, MUST):
                raise Split([("in", x, CLEAN)], [("in", x, MUST)])
            if isub(s, CLEAN):
                st.gh.pop("escx", None)
                b, k, x = st.num.norm(add(k, 1)), 0, None
        if x is None:
            for o, v in list(st.heap.items()):
                if ttag(v) == "txt":
                    st.heap[o] = ("txt", self.join_esc(st, v[1], reg, a, b))
            st.gh["rk"] = (reg, a, b, ab, 0, None)
            return
        # byte k needs an escape: was one written?
        v = st.num.norm(x)
        if not isinstance(v, int):
            raise Split(*[[eq(v, y)] for lo, hi in st.num.iset(v) for y in range(lo, hi + 1)])
        written = False
        for o, t in list(st.heap.items()):
            if ttag(t) != "txt":
                continue
            ps = self.join_esc(st, t[1], reg, a, b)
            ps = norm_pieces(ai, st, ps)
            if ps and ps[-1][1] == "lit":
                for e in escapes(v):
                    if ps[-1][2].endswith(e):
                        cut = ps[-1][2][:len(ps[-1][2]) - len(e)]
                        head = ps[:-1] + ((("P", "lit", cut),) if cut else ())
                        ps = self.join_esc(st, head + (("P", "esc", reg, k, 1),), reg, a, b)
                        written = True
                        break
            st.heap[o] = ("txt", ps)
        if not written:
            if keep and any(ttag(t) == "txt" and t[1] and t[1][-1][1] == "lit" and
                            any(t[1][-1][2].endswith(e[:j]) for e in escapes(v) for j in range(1, len(e))) for t in st.heap.values()):
                st.gh["escx"] = ("K", "%d" % v)     # an escape is being written
                return
            st.gh.pop("escx", None)
            st.gh["rk"] = None          # looked at, not yet dealt with
            return
        st.gh.pop("escx", None)
        a = b = st.num.norm(add(k, 1))
        st.gh["rk"] = (reg, a, b, True, 0, None)

    def join_esc(self, st, ps, reg, a, b):
        out = []
        for p in ps:
            if p[1] == "sl" and p[2] == reg and st.num.evalc(le(a, p[3])) is True and \
                    st.num.evalc(le(add(p[3], p[4]), b)) is True:
                p = ("P", "esc") + p[2:]
            if p[1] == "esc" and out and out[-1][1] == "esc" and out[-1][2] == p[2] and \
                    st.num.evalc(eq(add(out[-1][3], out[-1][4]), p[3])) is True:
                out[-1] = out[-1][:4] + (st.num.norm(add(out[-1][4], p[4])),)
                continue
            if p[1] == "esc" and st.num.evalc(eq(p[4], 0)) is True:
                continue
            out.append(p)
        return tuple(out)

    # ---- comparing with what is owed ---------------------------------------------------------------------
    def match(self, st, E, T, final=False):
        """common prefix removed: (rest of E, rest of T, number of pieces consumed, mismatch)"""
        ev = st.num.evalc
        E, T = list(E), list(T)
        n = 0
        while E and T:
            e, t = E[0], T[0]
            if e[1] == "lit" and t[1] == "lit":
                k = 0
                while k < min(len(e[2]), len(t[2])) and e[2][k] == t[2][k]:
                    k += 1
                if not k:
                    return E, T, n, True
                n += 1
                for L, z in ((E, e), (T, t)):
                    if k == len(z[2]):
                        L.pop(0)
                    else:
                        L[0] = ("P", "lit", z[2][k:])
                if k < len(e[2]) and k < len(t[2]):
                    return E, T, n, True
                continue
            if e[1] == "esc":
                z = self.decide(st, eq(e[4], 0))
                if z:
                    E.pop(0)
                    continue
                if t[1] == "esc" and t[2] == e[2] and ev(eq(e[3], t[3])) is True and ev(le(t[4], e[4])) is True:
                    E[0] = ("P", "esc", e[2], st.num.norm(add(e[3], t[4])), st.num.norm(sub(e[4], t[4])))
                    T.pop(0)
                    n += 1
                    continue
                if not final and t[1] in ("sl", "esc") and t[2] == e[2]:
                    if not self.decide(st, eq(e[3], t[3])):
                        return E, T, n, True
                    return E, T, n, False           # not understood yet
                if not final and t[1] == "lit" and t[2][:1] == b"\\" and len(T) <= 3:
                    return E, T, n, False           # an escape being written
                return E, T, n, True
            if e[1] == "int" and t[1] == "fmt" and t[2] == "int" and ev(eq(e[2], t[4])) is True:
                E.pop(0), T.pop(0)
                n += 1
                continue
            if e[1] == "flt" and t[1] == "fmt" and t[2] in ("float", "anyfloat") and t[3] == "64" and t[4] == e[2]:
                E.pop(0), T.pop(0)
                n += 1
                continue
            if e[1] == "out" and t[1] == "out":
                E.pop(0), T.pop(0)
                continue
            return E, T, n, True
        while E and E[0][1] == "esc" and ev(eq(E[0][4], 0)) is True:
            E.pop(0)
        return E, T, n, False

    def where_owed(self, E):
        """what kind of text is owed at this point"""
        if not E:
            return "structure"
        k = E[0][1]
        if k == "esc":
            return "string"
        if k in ("int", "flt"):
            return "scalar"
        c = E[0][2][:1]
        if c == b'"':
            return "string"
        return "scalar" if c.isalpha() else "structure"

    def mismatch(self, st, E, T):
        def show(ps):
            out = []
            for p in ps[:4]:
                out.append(repr(p[2].decode("latin1")) if p[1] == "lit" else
                           {"esc": "escaped text", "sl": "raw text", "int": "integer", "flt": "float", "fmt": "formatted number"}.get(p[1], p[1]))
            return " ".join(out) or "nothing"
        w = self.where_owed(E)
        h = self.where_owed(T) if T and T[0][1] == "lit" else None
        kinds = {"text:" + w}
        if w == "string" and h == "structure" or w == "scalar" and h == "structure":
            kinds.add("text:structure")
        for k in sorted(kinds):
            self.bad(st, k, "the output deviates: %s expected, %s written" % (show(E), show(T)))

    def fold_text(self, ai, st):
        E = st.gh["E"]
        started = bool(E) and E[0][1] == "out"
        cands = [o for o, v in st.heap.items() if ttag(v) == "txt" and v[1] and (v[1][0][1] == "out" if started else v[1][0][1] in ("lit", "fmt"))]
        if len(cands) != 1:
            return
        for o in cands:
            T = st.heap[o][1]
            e, t, n, bad = self.match(st, E, T)
            self.obl += n
            if bad and started:
                self.mismatch(st, e, t)
                raise Dead()
            if bad or not n:
                if started and len(T) > 12:
                    self.mismatch(st, e, t)
                    raise Dead()
                continue
            p = ("P", "out", st.num.fresh(1, 1 << 61))
            st.gh["E"] = (p,) + tuple(e)
            st.heap[o] = ("txt", (p,) + tuple(t))
            return

    # ---- folding of the stack of open streams --------------------------------------------------------------
    def template(self, v, obj):
        """v with the pointer to obj cut out, None if it does not hold exactly one or holds something else variable"""
        cnt = [0]

        def go(x):
            if x is None or isinstance(x, (bool, str)):
                return x
            if isinstance(x, int):
                raise KeyError
            if isinstance(x, Lin):
                raise KeyError
            if x[0] == "p":
                if x[1] != obj or x[2] != ():
                    raise KeyError
                cnt[0] += 1
                return ("HOLE", x[3])
            if x[0] == "a":
                return ("a", x[1], tuple(go(y) for y in x[2]))
            if x[0] in ("K", "uninit"):
                return x
            raise KeyError
        try:
            r = go(v)
        except KeyError:
            return None
        return r if cnt[0] == 1 else None

    def fill(self, t, obj):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "HOLE":
            return ("p", obj, (), t[1])
        if t[0] == "a":
            return ("a", t[1], tuple(self.fill(y, obj) for y in t[2]))
        return t

    def stacks(self, st, n, S):
        """the heap sequences that mirror the summarised part of the nest"""
        for o, v in st.heap.items():
            if ttag(v) != "seq":
                continue
            if v[1] and ttag(v[1][0]) == "pre":
                if v[1][0][1][1] <= S and st.num.evalc(eq(v[1][0][2], n)) is True:
                    yield o, v, 1
            elif st.num.evalc(eq(n, 0)) is True:
                yield o, v, 0

    def fold_stack(self, ai, st):
        """All open streams but the innermost are summarised: which shapes of layers, and how many.  The shapes seen
        so far are shared by all states, so that states differ in the number only."""
        nest = st.gh["nest"]
        while True:
            n, rest = 0, nest
            if nest and nest[0][0] == "pre":
                n, rest = nest[0][2], nest[1:]
            if len(rest) < 2 or rest[0][3] != ("K", "going"):
                break
            obj = rest[0][1][1]
            hit = None
            for o, v, j in self.stacks(st, n, self.shapes):
                if len(v[1]) > j and ttag(v[1][j]) != "pre" and (self.stackty is None or v[2] == self.stackty):
                    t = self.template(v[1][j], obj)
                    if t is not None:
                        hit = (o, v, j, t)
            if hit is None:
                break
            o, v, j, t = hit
            self.shapes = self.shapes | {(t, rest[0][2][1])}
            self.stackty = v[2]
            pre = ("pre", ("K", self.shapes), st.num.norm(add(n, 1)))
            st.heap[o] = ("seq", (pre,) + v[1][j + 1:]) + v[2:]
            self.kill(st, rest[0][4])
            st.heap.pop(obj, None)
            nest = (pre,) + rest[1:]
        # the same form for a stack with few layers
        if self.shapes:
            n, rest = 0, nest
            if nest and nest[0][0] == "pre":
                n, rest = nest[0][2], nest[1:]
            pre = ("pre", ("K", self.shapes), n)
            c = [x for x in self.stacks(st, n, self.shapes) if x[1][2] == self.stackty]
            if len(c) == 1:
                o, v, j = c[0]
                st.heap[o] = ("seq", (pre,) + v[1][j:]) + v[2:]
                nest = (pre,) + rest
        st.gh["nest"] = nest

    def unfold(self, ai, st, v, j, rel, ln):
        """the last summarised layer becomes concrete again"""
        it = v[1][j]
        o = [k for k, w in st.heap.items() if w is v]
        if len(o) != 1 or j != len(v[1]) - 1:
            raise Unsupported("access inside a summarised stack")
        if st.num.evalc(eq(rel, sub(ln, 1))) is not True:
            raise Unsupported("access below the top of a summarised stack")
        if st.num.evalc(le(ln, 0)) is None:
            raise Split([le(1, ln)], [le(ln, 0)])
        if st.num.evalc(le(ln, 0)):
            raise Infeasible()
        o = o[0]
        alts = []
        for t, kind in sorted(it[1][1], key=str):
            def f(s, t=t, kind=kind):
                w = s.heap[o]
                b = self.new_stream(s, kind)
                m = s.num.norm(sub(ln, 1))
                pre = (it[:2] + (m,),)
                if s.num.evalc(eq(m, 0)) is True:
                    pre = ()
                s.heap[o] = ("seq", w[1][:j] + pre + (self.fill(t, b),)) + w[2:]
                nest = s.gh["nest"]
                if not (nest and nest[0][0] == "pre") or len(nest) > 1:
                    self.bad(s, "stale", "an outer stream is used while an inner one is open in %s" % ai.owner(s))
                    raise Infeasible()
                s.gh["nest"] = pre + (("E", ("o", b), ("K", kind), ("K", "going"), ()),)
            alts.append([f])
        raise Split(*alts)

    def pop_pre(self, ai, st, o, v):
        last = v[1][-1]
        e = st.num.evalc(eq(last[2], 0))
        if e is None:
            raise Split([eq(last[2], 0)], [le(1, last[2])])
        self.unfold(ai, st, v, len(v[1]) - 1, sub(last[2], 1), last[2])

    def drop_pre(self, ai, st, item):
        n = item[2]
        for c in (le(n, 0), le(n, 1)):
            e = st.num.evalc(c)
            if e is None:
                raise Split([c], [neg(c)])
            if e:
                break
        else:
            self.bad(st, "stale", "the open streams are dropped outermost first in %s" % ai.owner(st))
            raise Dead()
        if st.num.evalc(le(n, 0)) is True:
            return
        if len(st.gh["nest"]) > 1:
            self.bad(st, "stale", "the open streams are dropped outermost first in %s" % ai.owner(st))
            raise Dead()
        st.gh["nest"] = ()

    def forget(self, ai, st):
        """a scalar fragment whose text has been written: which one it was no longer matters"""
        E = st.gh["E"]
        if not (len(E) == 1 and E[0][1] == "out" and st.gh["hole"] is None):
            return
        for o, v in st.heap.items():
            if o[0] == "l" and ttag(v) == "a" and ai.otype.get(o) == self.fragty and v[1] in self.scalars:
                ai.uid += 1
                st.heap[o] = ("t", ai.uid, ("K", "scalar"))

    def expand_token(self, ai, st, v, ty):
        if v[2:] != (("K", "scalar"),):
            return

        def put(f):
            def g(s):
                for o in [o for o, w in s.heap.items() if w == v]:
                    s.heap[o] = f(s)
            return [g]
        i = self.vidx
        raise Split(put(lambda s: ("a", i["Null"], ())), put(lambda s: ("a", i["Bool"], (False,))), put(lambda s: ("a", i["Bool"], (True,))),
                    put(lambda s: ("a", i["U64"], (s.num.fresh(0, (1 << 64) - 1),))),
                    put(lambda s: ("a", i["I64"], (s.num.fresh(-(1 << 63), (1 << 63) - 1),))),
                    *[put(lambda s, c=c: ("a", i["F64"], (("x", "source", ("K", c)),))) for c in ("finite", "nan", "inf")])

    def tidy(self, st):
        nest = st.gh["nest"]
        if nest and nest[0][0] == "pre" and st.num.evalc(le(nest[0][2], 0)) is True:
            st.gh["nest"] = nest[1:]

    # ---- joins and ends -----------------------------------------------------------------------------------
    def prejoin(self, ai, st):
        self.settle(ai, st, True)
        self.fold_text(ai, st)
        self.tidy(st)
        self.forget(ai, st)
        self.fold_stack(ai, st)
        # knowledge about text nobody can reach any more
        rk = st.gh.get("rk")
        if rk is not None and (rk[0][1] not in st.heap or not self.reachable_text(st, rk[0])):
            st.gh["rk"] = None
            st.gh.pop("escx", None)
        st.gh.pop("chr", None)

    def reachable_text(self, st, reg):
        for p in st.gh["E"]:
            if p[1] == "esc" and p[2] == reg:
                return True
        for v in st.heap.values():
            if ttag(v) == "txt" and any(p[1] in ("sl", "esc") and p[2] == reg for p in v[1]):
                return True
        return False

    def done(self, ai, st, val, unwinding):
        self.outcomes += 1
        self.tidy(st)
        if unwinding:
            self.check(st, not st.gh["nest"], "stale", "a stream is never dropped when user code panics")
            return
        self.settle(ai, st)
        self.check(st, not st.gh["nest"], "order", "the text is returned with a stream still open")
        self.check(st, st.gh["hole"] is None, "order", "the text is returned before a value is serialized")
        v = val
        while v[0] == "a" and v[2]:
            v = v[2][0]
        if not (v[0] == "o" and v[1] in st.heap and st.heap[v[1]][0] == "txt"):
            raise Unsupported("result of the printer")
        e, t, n, bad = self.match(st, st.gh["E"], st.heap[v[1]][1], True)
        self.obl += n + 1
        if bad or e or t:
            self.mismatch(st, e, t)

    def fpred(self, ai, st, name, v):
        if isinstance(v, tuple) and v[:2] == ("x", "source"):
            cls = v[2][1]
            if name == "is_finite":
                return cls == "finite"
            if name == "is_infinite":
                return cls == "inf"
            if name == "is_nan":
                return cls == "nan"
        return None

    def drive(self):
        st = self.fresh_state()
        v = self.ai.new_obj(st, ("t", 0, ("K", "value")), None, "s")
        st.gh.update(E=(), nest=(), hole=("o", v), rk=None)
        self.calls += 1
        ai = self.ai
        ai.acc = {}
        try:
            ai.push(st, self.P.entry("print"), [("p", v, (), None)], None, 0, "continue")
            ai.explore([st])
        except Unsupported as e:
            ai.alarm(st, "unsupported", str(e))
        return len(ai.acc)
