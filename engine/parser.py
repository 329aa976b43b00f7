"""The JSON parser over every text and every behaviour of the caller's visitors.

The text is symbolic.  In step with the parser's reads a reference automaton for RFC 8259 consumes the same bytes and
says which callback is due, with what data; the environment plays the visitors (each callback may succeed, fail or
panic) and keeps the lifetimes of builders and places.  Any text length and nesting depth is covered: loops by joins,
the stack of open builders by a summary."""
from harness import *
from models import text_of, norm_pieces
from normal import canon_name
from callgraph import sccs
from prog import Prog

M64 = (1 << 64) - 1
I31 = (1 << 31) - 1
MAXLEN = 1 << 30
WS = iset((9, 10), (13, 13), (32, 32))
ALL = ((0, 255),)
CLEAN = iminus(ALL, iset((0, 0x1F), (0x22, 0x22), (0x5C, 0x5C)))
DIGIT, D19 = ((48, 57),), ((49, 57),)
EXP = ((69, 69), (101, 101))
FIRST = iset((0x22, 0x22), (0x2D, 0x2D), (48, 57), (0x5B, 0x5B), (0x7B, 0x7B), (102, 102), (110, 110), (116, 116))
SCALAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
ESC1 = iset((0x22, 0x22), (0x2F, 0x2F), (0x5C, 0x5C))
ESC2 = {98: b"\x08", 102: b"\x0c", 110: b"\n", 114: b"\r", 116: b"\t"}


def one(c):
    return ((ord(c), ord(c)),)


def ttag(v):
    return v[0] if isinstance(v, tuple) and v else None


def K(s):
    return ("K", s)


class Restart(Exception):
    """another form of stack entry has been met: start over, knowing it"""


class Parser(Client):
    user_panics = True

    def __init__(self, P):
        super().__init__(P)
        self.ai.widen_after = 2
        self.ai.origins = True
        self.ai.env_sums = True
        self.ai.thresholds = sorted(set(self.ai.thresholds + [
            2, 3, 4, 7, 8, 10, 15, 16, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000,
            0x10000, 0x10FFFF, 288, 307, 308, 309, 345, MAXLEN, M64 // 10, I31 // 10]))
        self.shapes, self.stackty, self.scout, self.letters = frozenset(), None, False, ALL
        self.outcomes = {"ok": 0, "err": 0, "unwind": 0}
        self.events = 0

    # ---- findings -----------------------------------------------------------------------------------
    def panic(self, ai, st, what):
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def decide(self, st, c):
        e = st.num.evalc(c)
        if e is None:
            raise Split([c], [neg(c)])
        return e

    def true(self, st, c):
        return st.num.evalc(c) is True

    # ---- the reference automaton ------------------------------------------------------------------------
    def q(self, st):
        return st.gh["q"][1]

    def setq(self, st, q):
        st.gh["q"] = K(q)

    def due(self, st, name, *data):
        st.gh["ev"] = st.gh["ev"] + (("EV", K(name)) + data,)

    def eat(self, st):
        g = st.gh
        g["f"] = st.num.norm(add(g["f"], 1))
        g["w"] = g["w"][1:]
        st.num.assume(le(g["f"], g["n"]))

    def over(self, st, why):
        """the run can only end in an error from here on: the rest of the text no longer matters"""
        st.gh.update(err=K(why), q=K("D"), ev=(), num=(), hex=(), E=(), sc=K(None))
        st.gh["f"] = st.num.norm(add(st.gh["f"], len(st.gh["w"])))
        st.gh["w"] = ()

    def dead(self, st):
        self.ai.note(st, "the text stops being JSON (%s)" % self.q(st))
        self.setq(st, "D")
        st.gh.update(E=(), num=(), hex=())

    def open_kind(self, st):
        for e in reversed(st.gh["nest"]):
            if e[0] == "E":
                if e[5] == K("open"):
                    return e[2][1]
            elif self.decide(st, le(1, e[2])):
                c = [x for x in self.stacks(st, e[2]) if x[1][2] == self.stackty and x[2] == 1]
                if len(c) != 1 or len(c[0][1][1]) != 1:
                    raise Unsupported("text is read while the enclosing builder is not at hand")
                self.unfold(self.ai, st, c[0][1], 0, sub(e[2], 1), e[2])
        return None

    def after_value(self, st):
        """a value is complete"""
        for e in reversed(st.gh["nest"]):
            if e[0] == "E":
                if e[5] == K("open"):
                    return "A"
            elif self.decide(st, le(1, e[2])):
                return "A"
        return "Z"

    def classes(self, st, x):
        q = self.q(st)
        g = st.gh
        out = []

        def on(s, *fs):
            def f(st):
                for h in fs:
                    h(st)
            out.append((s, f))
        eat = self.eat
        to = lambda z: (lambda st: self.setq(st, z))
        due = lambda n: (lambda st: self.due(st, n))
        if q in ("V0", "V", "F[", "F{", "K", ":", "A", "Z"):
            on(WS, eat)
        if q in ("V0", "V"):
            on(one('"'), eat, lambda st: self.string(st, "v"))
            on(one("-"), eat, to("N-|n"), self.num0)
            on(one("0"), eat, to("N0|"), self.num0)
            on(D19, lambda st: self.num0(st, sub(x, 48)), eat, to("Ni|"))
            on(one("{"), eat, due("map"), to("F{"))
            on(one("["), eat, due("seq"), to("F["))
            for w, n in (("null", "null"), ("true", "true"), ("false", "false")):
                on(one(w[0]), eat, to("L%s|%s" % (w[1:], n)))
        elif q == "F[":
            on(one("]"), eat, due("finish"), to("P"))
            on(FIRST, due("element"), to("V"))
        elif q == "F{":
            on(one("}"), eat, due("finish"), to("P"))
            on(one('"'), eat, lambda st: self.string(st, "k"))
        elif q == "K":
            on(one('"'), eat, lambda st: self.string(st, "k"))
        elif q == ":":
            on(one(":"), eat, to("V"))
        elif q == "A":
            if self.open_kind(st) == "seq":
                on(one(","), eat, due("element"), to("V"))
                on(one("]"), eat, due("finish"), to("P"))
            else:
                on(one(","), eat, to("K"))
                on(one("}"), eat, due("finish"), to("P"))
        elif q[0] == "L":
            w, n = q[1:].split("|")
            if len(w) > 1:
                on(one(w[0]), eat, to("L%s|%s" % (w[1:], n)))
            else:
                on(one(w[0]), eat, due(n), to("P"))
        elif q[0] == "S":
            self.string_classes(st, q, x, on)
        elif q[0] == "N":
            self.number_classes(st, q, x, on)
        return out

    def step(self, st, force):
        x = st.gh["w"][0]
        s = st.num.iset(x)
        rest = s
        hits = []
        for c, f in self.classes(st, x):
            i = iinter(s, c)
            if i:
                hits.append((i, f))
            rest = iminus(rest, c)
        if rest:
            hits.append((rest, self.dead))
        if len(hits) > 1:
            if not force and (rest or self.q(st)[2:3] not in ("u", "l")):
                return False
            raise Split(*[[("in", x, c)] for c, _ in hits])
        hits[0][1](st)
        return True

    def advance(self, st, force):
        while not st.gh["ev"] and st.gh["w"] and self.q(st) not in ("D", "P"):
            if not self.step(st, force):
                return

    # strings
    def string(self, st, kv):
        self.setq(st, "S%s" % kv)
        st.gh["E"] = ()

    def emit(self, st, *ps):
        st.gh["E"] = norm_pieces(self.ai, st, st.gh["E"] + ps)

    def string_classes(self, st, q, x, on):
        kv, sub_ = q[1], q[2:]
        S = "S" + kv
        to = lambda z: (lambda st: self.setq(st, S + z))
        g = st.gh
        if sub_ == "":
            def content(st):
                f = st.gh["f"]
                for o, v in list(st.heap.items()):        # the byte itself was copied
                    if ttag(v) == "txt" and v[1] and v[1][-1][1] == "by" and self.true(st, eq(v[1][-1][2], x)):
                        st.heap[o] = ("txt", norm_pieces(self.ai, st, v[1][:-1] + (("P", "sl", ("o", self.region), f, 1),)))
                self.emit(st, ("P", "sl", ("o", self.region), f, 1))

            def end(st):
                ps = st.gh["E"]
                st.gh["E"] = ()
                self.due(st, "key" if kv == "k" else "string", ps)
                self.setq(st, ":" if kv == "k" else "P")
            on(CLEAN, content, self.eat)
            on(one('"'), self.eat, end)
            on(one("\\"), self.eat, to("\\"))
        elif sub_ == "\\":
            on(ESC1, lambda st: self.emit(st, ("P", "by", x)), self.eat, to(""))
            for c, t in ESC2.items():
                on(((c, c),), self.eat, lambda st, t=t: self.emit(st, ("P", "lit", t)), to(""))
            on(one("u"), self.eat, to("u0"), lambda st: st.gh.update(hex=(0,)))
        elif sub_ == "h\\":
            on(one("\\"), self.eat, to("hu"))
        elif sub_ == "hu":
            on(one("u"), self.eat, to("l0"), lambda st: st.gh.update(hex=(0,) + st.gh["hex"][1:]))
        else:
            k, i = sub_[0], int(sub_[1])

            def digit(off):
                def f(st):
                    h = st.gh["hex"]
                    st.gh["hex"] = (st.num.norm(add(mul(h[0], 16), sub(x, off))),) + h[1:]
                    self.eat(st)
                    if i < 3:
                        self.setq(st, "%s%s%d" % (S, k, i + 1))
                    else:
                        self.setq(st, "%s%s4" % (S, k))
                return f
            on(DIGIT, digit(48))
            on(((65, 70),), digit(55))
            on(((97, 102),), digit(87))

    def hex_done(self, st, force=True):
        """four hex digits are complete"""
        q = self.q(st)
        if q[0] != "S" or len(q) != 4 or q[3] != "4":
            return
        S = q[:2]
        h = st.gh["hex"][0]
        for at in (0xD800, 0xDC00, 0xE000):
            e = st.num.evalc(lt(h, at))
            if e is None:
                if force:
                    raise Split([lt(h, at)], [le(at, h)])
                return
            if e:
                break
        else:
            at = 0x10000
        if q[2] == "u":
            if at == 0xDC00:
                st.gh["hex"] = (0, h)
                self.setq(st, S + "h\\")
                return
            if at == 0xE000:
                self.dead(st)
                return
            c = h
        else:
            if at != 0xE000:
                self.dead(st)
                return
            c = st.num.norm(add(add(mul(sub(st.gh["hex"][1], 0xD800), 1024), sub(h, 0xDC00)), 0x10000))
        st.gh["hex"] = ()
        self.emit(st, ("P", "ch", c))
        self.setq(st, S)

    def facts(self, st):
        """what the automaton's state says by construction about the numbers it carries (joins may forget it)"""
        q = self.q(st)
        if q[0] == "S" and len(q) > 2 and q[2] in "ulh" and st.gh["hex"]:
            h = st.gh["hex"]
            if q[3:].isdigit():
                st.num.assume(le(0, h[0]))
                st.num.assume(lt(h[0], 16 ** int(q[3])))
            if len(h) > 1:
                st.num.assume(le(0xD800, h[1]))
                st.num.assume(le(h[1], 0xDBFF))
        f = st.gh["f"]
        st.num.assume(le(0, f))
        st.num.assume(le(f, st.gh["n"]))
        st.num.assume(le(st.gh["n"], MAXLEN))
        if st.gh["num"]:
            P, X, e = st.gh["num"][:3]
            for lo, v, hi in ((0, P, M64), (mul(f, -1), X, f), (0, e, I31)):
                st.num.assume(le(lo, v))
                st.num.assume(le(v, hi))
        for p in st.gh["E"]:
            if p[1] == "ch":
                self.ai.assume_in(st, p[2], SCALAR)

    # numbers: num = (P, X, e): the literal so far is P * 10^X, with exponent digits e
    def num0(self, st, p=0):
        st.gh["num"] = (st.num.norm(p) if not isinstance(p, int) else p, 0, 0)

    def number_classes(self, st, q, x, on):
        kind, fl = q[1:].split("|")
        to = lambda k, add_="": (lambda st: self.setq(st, "N%s|%s" % (k, "".join(sorted(set(fl + add_))))))
        eat = self.eat
        end = lambda st: self.number_end(st, fl, kind)

        def digit(frac):
            def f(st):
                P, X, e = st.gh["num"][:3]
                alt = st.gh["num"][3:]
                nk, add_ = ("f", "d") if frac else ("i", "")
                t = st.num.norm(add(mul(P, 10), sub(x, 48)))
                if "b" not in fl and self.decide(st, le(t, M64)):
                    P = t
                    X = sub(X, 1) if frac else X
                else:
                    # the first digit that does not fit, and those after it, only count; a fraction digit may also
                    # stand in for a dropped digit, far below the precision of a double
                    if "b" in fl and kind == "." and self.decide(st, le(t, M64)):
                        alt = (t, sub(X, 1))
                    X = X if frac else add(X, 1)
                    add_ += "b"
                st.gh["num"] = (P, st.num.norm(X), e) + alt
                eat(st)
                X, F = st.gh["num"][1], st.gh["f"]
                st.num.assume(le(X, F))                     # by counting
                st.num.assume(le(mul(X, -1), F))
                to(nk, add_)(st)
            return f

        def exp(st):
            P, X, e = st.gh["num"][:3]
            t = st.num.norm(add(mul(e, 10), sub(x, 48)))
            add_ = ""
            if "h" not in fl and self.decide(st, le(t, I31)):
                e = t
            else:
                add_ = "h"
            st.gh["num"] = (P, X, e) + st.gh["num"][3:]
            eat(st)
            to("x", add_)(st)
        if kind == "-":
            on(one("0"), eat, to("0"))
            on(D19, lambda st: self.num0(st, sub(x, 48)), eat, to("i"))
        elif kind in ("0", "i", "f"):
            if kind != "0":
                on(DIGIT, digit(kind == "f"))
            stop = iminus(ALL, iset((48, 57), *EXP))
            if kind != "f":
                on(one("."), eat, to(".", "d"))
                stop = iminus(stop, one("."))
            on(EXP, eat, to("e", "d"))
            on(stop, end)
        elif kind == ".":
            on(DIGIT, digit(True))
        elif kind == "e":
            on(one("+"), eat, to("+"))
            on(one("-"), eat, to("+", "m"))
            on(DIGIT, exp)
        elif kind == "+":
            on(DIGIT, exp)
        elif kind == "x":
            on(DIGIT, exp)
            on(iminus(ALL, DIGIT), end)

    def scale(self, st, fl, force):
        """how large the literal's power of ten is, as far as it is (or with force: has to be) known"""
        P, X, e = st.gh["num"][:3]
        q = (lambda c: self.decide(st, c)) if force else (lambda c: st.num.evalc(c))
        if not ("d" in fl or "b" in fl):
            return "", 0
        z = q(eq(P, 0))
        if z:
            return "zero", 0
        z = "" if z is False else "?"
        if "h" in fl:
            return z + ("under" if "m" in fl else "over"), 0
        E = st.num.norm(sub(X, e) if "m" in fl else add(X, e))
        for c, n in ((lt(E, -2000), "under"), (lt(2000, E), "over")):
            y = q(c)
            if y is None:
                break
            if y:
                return z + n, 0
        else:
            return z + "normal", E
        if st.num.evalc(lt(E, -(1 << 31))) is False and st.num.evalc(lt(I31, E)) is False:
            return z + "fits", E
        return None, 0

    def number_end(self, st, fl, kind):
        cls, E = self.scale(st, fl, True)
        P, X, e = st.gh["num"][:3]
        alt = st.gh["num"][3:]
        st.gh["num"] = ()
        s = lambda z: st.num.norm(sub(z, e) if "m" in fl else add(z, e))
        self.due(st, "num", K(fl), K(cls), P, E, tuple([("ALT", alt[0], s(alt[1]))] if alt and cls == "normal" else []))
        self.setq(st, "P")

    # ---- reading the text ------------------------------------------------------------------------------
    def region_read(self, ai, st, reg, idx):
        if reg != ("o", self.region):
            raise Unsupported("read of region %s" % (reg,))
        idx = st.num.norm(idx)
        for c, bad in ((lt(idx, 0), True), (lt(idx, st.gh["n"]), False)):
            if self.decide(st, c) == bad:
                ai.alarm(st, "oob", "read outside the text")
                raise Dead()
        if st.gh["err"] != K("no"):
            return self.again(st, idx)
        d = st.num.norm(sub(idx, st.gh["f"]))
        if not isinstance(d, int) or d >= len(st.gh["w"]):
            self.hex_done(st)
            self.progress(st, len(st.gh["w"]) > 5)
            d = st.num.norm(sub(idx, st.gh["f"]))
        if not isinstance(d, int):
            raise Unsupported("text read away from where the parser stands")
        w = st.gh["w"]
        if d < 0:
            return self.again(st, idx)
        if d < len(w):
            return w[d]
        if d > len(w) + 8 or len(w) > 12:
            raise Unsupported("long lookahead")
        while len(w) <= d:
            w = w + (st.num.fresh_set(self.letters),)
        if self.q(st) == "D" and len(w) > 2:
            st.gh["f"] = st.num.norm(add(st.gh["f"], len(w) - 2))
            w = w[-2:]
        st.gh["w"] = w
        return w[-1]

    def again(self, st, idx):
        """some byte; the same one when a step is redone"""
        b = st.gh["back"]
        if b is None or st.num.norm(b[1]) != idx:
            st.gh["back"] = b = ("B", idx, st.num.fresh(0, 255))
        return b[2]

    def progress(self, st, force):
        self.hex_done(st, force)
        self.advance(st, force)
        self.hex_done(st, force)

    def boundary(self, ai, st, p, k, n):
        v = st.heap.get(p[1])
        if v is None or v[0] != "reg":
            return None
        off = p[2][-1][1] if p[2] and isinstance(p[2][-1], tuple) and p[2][-1][0] == "i" else 0
        at = st.num.norm(add(k, off))
        if self.true(st, eq(at, 0)) or self.true(st, eq(at, st.gh["n"])) or self.true(st, eq(at, st.gh["f"])) and self.q(st)[0] != "S":
            return True
        return None

    # ---- the visitors ------------------------------------------------------------------------------------
    def model(self, path, inst, inf):
        if path == "<witness::DTok as miniserde::Deserialize>::begin":
            return lambda ai, st, a, c: self.root(ai, st, a[0])
        return None

    def root(self, ai, st, out):
        if st.gh["out"] is not None:
            raise Unsupported("begin called twice")
        st.gh["out"] = ai.unwrap_ptr(out)
        return self.place(st)

    def place(self, st):
        v = self.ai.new_obj(st, ("t", 0, K("place")), None, "h")
        st.gh["cur"] = ("o", v)
        return ("p", v, (), ("env", K("vis")))

    def drop(self, ai, st, ty, ptr):
        d = self.P.ty(ty)
        return d["k"] == "adt" and canon_name(d["def"]) == "witness::DTok"

    def virtual(self, ai, st, meta, dty, path, idx, args):
        kind = meta[1][1] if meta[0] == "env" else None
        name = path.split("::")[-1]
        p = ai.unwrap_ptr(args[0])
        ai.load(st, p[1])
        if kind == "vis":
            return self.visit(ai, st, p[1], name, args)
        if kind in ("seq", "map"):
            return self.build(ai, st, p[1], kind, name, args)
        raise Unsupported("virtual call %s on %s" % (name, meta))

    def fail(self, s):
        self.ai.note(s, "the callback fails")
        self.over(s, "failed")
        return err()

    def blow(self, s):
        self.ai.note(s, "user code panics")
        self.over(s, "panicked")
        raise Unwind()

    def outs(self, *fs):
        self.events += 1
        return Fork(*fs, self.fail, *([self.blow] if self.user_panics else []))

    def expect(self, ai, st, name):
        """the callback the text asks for now; None when the text is already wrong"""
        self.obl += 2
        if st.gh["err"] != K("no"):
            self.bad(st, "order", "%s is called after a callback has failed" % name)
            raise Dead()
        self.progress(st, False)
        if not st.gh["ev"]:
            self.progress(st, True)
        if self.q(st) == "D":
            return None
        ev = st.gh["ev"]
        if not ev:
            if not st.gh["w"] and self.q(st) not in ("Z", "P") and self.decide(st, eq(st.gh["f"], st.gh["n"])):
                self.number_eof(st)
                ev = st.gh["ev"]
                if not ev:
                    self.dead(st)
                    return None
        if not ev:
            self.bad(st, "order", "%s is called where the text does not ask for it (%s)" % (name, self.q(st)[:1]))
            raise Dead()
        st.gh["ev"] = ev[1:]
        st.gh["just"] = K(None)
        return ev[0]

    def number_eof(self, st):
        q = self.q(st)
        if q[0] == "N":
            kind, fl = q[1:].split("|")
            if kind in ("0", "i", "f", "x"):
                self.number_end(st, fl, kind)

    def visit(self, ai, st, obj, name, args):
        if st.gh["cur"] != ("o", obj):
            self.bad(st, "order", "%s is called on a place that is not waiting for a value" % name)
            raise Dead()
        self.depth(st)
        ev = self.expect(ai, st, name)
        if name in ("string",):
            self.text(ai, st, ev, name, args[1])
        elif ev is not None:
            want = ev[1][1]
            if want == "num" and name in ("nonnegative", "negative", "float"):
                self.number(ai, st, ev, name, args[1])
            elif name == "boolean" and want in ("true", "false"):
                b = args[1]
                if isinstance(b, tuple) and b and b[0] == "c":
                    b = self.decide(st, b)
                if not isinstance(b, bool):
                    b = self.decide(st, eq(ai.num(st, b), 1))
                self.check(st, b == (want == "true"), "order", "boolean is called with the wrong value")
            elif name != want:
                self.bad(st, "order", "%s is called where the text asks for %s" % (name, want))
                raise Dead()

        def value(s):
            self.ai.note(s, "%s() succeeds" % name)
            s.gh["cur"] = None
            self.complete(s)
            return ok()

        def stream(kind):
            def f(s):
                self.ai.note(s, "%s() succeeds" % name)
                b = self.ai.new_obj(s, ("t", 0, K("builder"), K(kind)), None, "h")
                s.gh["cur"] = None
                s.gh["nest"] = s.gh["nest"] + (("E", ("o", b), K(kind), ("o", obj), None, K("open")),)
                return ok(models.box_value(self.ai, ("p", b, (), ("env", K(kind)))))
            return f
        if name in ("seq", "map"):
            return self.outs(stream(name))
        return self.outs(value)

    def depth(self, st):
        """whether any builder is open is known"""
        if st.gh["nest"] and st.gh["nest"][-1][0] == "pre":
            self.decide(st, le(1, st.gh["nest"][-1][2]))

    def complete(self, s):
        if self.q(s) != "D":
            self.setq(s, self.after_value_now(s))
        if s.gh["cur"] is None and not any(e[0] == "E" and e[5] == K("open") for e in s.gh["nest"]) and \
                not any(e[0] == "pre" and self.true(s, le(1, e[2])) for e in s.gh["nest"]) and s.gh["out"] is not None:
            p = s.gh["out"]
            self.ai.write(s, p[1], p[2], some(("t", 0, K("made"))))

    def after_value_now(self, s):
        try:
            return self.after_value(s)
        except Split:
            raise Unsupported("depth undecided")

    def find(self, st, obj):
        for i, e in enumerate(st.gh["nest"]):
            if e[0] == "E" and e[1] == ("o", obj):
                return i
        return None

    def cut(self, st, i):
        """what was obtained from the i-th builder is dangling from now on"""
        nest = st.gh["nest"]
        for e in nest[i + 1:]:
            st.heap.pop(e[1][1], None)
            if e[4] is not None:
                st.heap.pop(e[4][1], None)
        e = nest[i]
        if e[4] is not None:
            if st.gh["cur"] == e[4]:
                st.gh["cur"] = None
            st.heap.pop(e[4][1], None)
        st.gh["nest"] = nest[:i] + (e[:4] + (None,) + e[5:],)

    def use(self, ai, st, obj, what):
        i = self.find(st, obj)
        self.obl += 2
        if i is None:
            if st.gh["nest"] or True:
                self.bad(st, "stale", "a builder is %s after it was dropped in %s" % (what, ai.owner(st)))
            raise Dead()
        if i != len(st.gh["nest"]) - 1:
            self.bad(st, "stale", "a builder is %s while one obtained from it is alive in %s" % (what, ai.owner(st)))
        self.cut(st, i)
        return i

    def build(self, ai, st, obj, kind, name, args):
        key = args[1] if name == "key" else None
        if any(e[0] == "pre" for e in st.gh["nest"]) and name == "finish":
            pre = st.gh["nest"][0]
            self.decide(st, le(1, pre[2]))
        waiting = st.gh["cur"]
        if waiting is not None and st.gh["err"] == K("no"):
            self.bad(st, "order", "%s is called before the value handed out is delivered" % name)
            raise Dead()
        if key is not None:
            ev = self.expect(ai, st, name)
            self.text(ai, st, ev, name, key)
        else:
            ev = self.expect(ai, st, name)
            if ev is not None and ev[1] != K(name):
                self.bad(st, "order", "%s is called where the text asks for %s" % (name, ev[1][1]))
                raise Dead()
        i = self.use(ai, st, obj, "used")
        if st.gh["nest"][i][5] != K("open"):
            self.bad(st, "order", "%s is called on a closed builder" % name)
            raise Dead()

        def give(s):
            self.ai.note(s, "%s() succeeds" % name)
            v = self.place(s)
            e = s.gh["nest"][-1]
            s.gh["nest"] = s.gh["nest"][:-1] + (e[:4] + (("o", v[1]), e[5]),)
            return ok(v)

        def close(s):
            self.ai.note(s, "finish() succeeds")
            e = s.gh["nest"][-1]
            s.gh["nest"] = s.gh["nest"][:-1] + (e[:5] + (K("closed"),),)
            self.complete(s)
            return ok()
        return self.outs(close if name == "finish" else give)

    def drop_dyn(self, ai, st, meta, ptr):
        if meta[0] != "env" or meta[1][1] not in ("seq", "map"):
            raise Unsupported("drop of %s" % (meta,))
        ai.load(st, ptr[1])
        i = self.use(ai, st, ptr[1], "dropped")
        e = st.gh["nest"][i]
        if e[5] == K("open") and st.gh["err"] == K("no"):
            self.obl += 1
            why = self.unfair(st)
            self.over(st, "rejected")
            st.gh["just"] = K(why)
        st.gh["nest"] = st.gh["nest"][:i]
        st.heap[ptr[1]] = ("t", 0, K("dropped"), K("dropped"))
        if self.user_panics and not st.unwinding:
            return Fork(lambda s: None, self.blow)

    # ---- data of callbacks ---------------------------------------------------------------------------------
    def text(self, ai, st, ev, name, ptr):
        ps = norm_pieces(ai, st, text_of(ai, st, ptr))
        self.obl += 1
        if ev is None:
            self.utf8(st, ps, name)
            return
        if ev[1] != K(name):
            self.bad(st, "order", "%s is called where the text asks for %s" % (name, ev[1][1]))
            raise Dead()
        E, T = self.common(st, ev[2], ps)[:2]
        if E or T:
            self.bad(st, "string", "%s() is called with other characters than the text denotes: %s expected, %s given" %
                     (name, self.show(E), self.show(T)))
            self.utf8(st, ps, name)
            raise Dead()

    def show(self, ps):
        return " ".join(repr(p[2].decode("latin1")) if p[1] == "lit" else {"sl": "raw text", "ch": "a character", "by": "a byte",
                        "out": "earlier text", "old": "left-over text"}.get(p[1], p[1]) for p in ps[:4]) or "nothing"

    def utf8(self, st, ps, name):
        bad = self.spoilt(st, ps)
        if bad:
            self.bad(st, "utf8", "%s() may be given %s in a text that is not JSON" % (name, bad))

    def spoilt(self, st, ps):
        bad = None
        for p in ps:
            if p[1] == "lit":
                try:
                    p[2].decode()
                except UnicodeDecodeError:
                    bad = "bytes %r" % p[2]
            elif p[1] == "by" and not self.true(st, le(p[2], 127)):
                bad = "an arbitrary byte"
            elif p[1] == "sl":
                bad = "a stretch of the text that may begin or end inside a character"
            elif p[1] == "ch" and iminus(st.num.iset(p[2]), SCALAR):
                bad = "a surrogate"
            elif p[1] == "dirty":
                bad = "bytes that are not UTF-8"
        return bad

    def common(self, st, E, T):
        """common prefix removed -> rests, pieces consumed, their length"""
        E, T = list(E), list(T)
        n, ln = 0, 0
        pl = lambda p: self.ai.piece_len(st, p)
        empty = lambda p: p[1] in ("sl", "out", "old") and self.true(st, eq(pl(p), 0))
        while True:
            while E and empty(E[0]):
                E.pop(0)
            while T and empty(T[0]):
                T.pop(0)
            if not E or not T:
                break
            e, t = E[0], T[0]
            if e[1] == "lit" and t[1] == "lit":
                k = 0
                while k < min(len(e[2]), len(t[2])) and e[2][k] == t[2][k]:
                    k += 1
                if not k:
                    break
                ln = add(ln, k)
                n += 1
                for L, z in ((E, e), (T, t)):
                    if k == len(z[2]):
                        L.pop(0)
                    else:
                        L[0] = ("P", "lit", z[2][k:])
                if k < len(e[2]) and k < len(t[2]):
                    break
                continue
            if e[1] in ("ch", "by") and t[1] in ("ch", "by") and self.true(st, eq(e[2], t[2])) and \
                    (e[1] == t[1] or self.true(st, le(e[2], 127))):
                ln = add(ln, pl(e))
            elif e[1] == "sl" and t[1] == "sl" and e[2] == t[2] and self.true(st, eq(e[3], t[3])):
                if self.true(st, le(t[4], e[4])):
                    ln = add(ln, t[4])
                    n += 1
                    T.pop(0)
                    E[0] = e[:3] + (st.num.norm(add(e[3], t[4])), st.num.norm(sub(e[4], t[4])))
                    continue
                if self.true(st, le(e[4], t[4])):
                    ln = add(ln, e[4])
                    n += 1
                    E.pop(0)
                    T[0] = t[:3] + (st.num.norm(add(t[3], e[4])), st.num.norm(sub(t[4], e[4])))
                    continue
                break
            elif e[1] == "out" and t[1] == "out":
                ln = add(ln, pl(t))
            else:
                break
            n += 1
            E.pop(0), T.pop(0)
        return E, T, n, ln

    def number(self, ai, st, ev, name, v):
        fl, cls, P, E, alts = ev[2][1], ev[3][1], ev[4], ev[5], ev[6]
        self.obl += 2
        isint = "d" not in fl
        if name in ("nonnegative", "negative"):
            n = ai.num(st, v)
            if not isint:
                self.bad(st, "int", "a number with fraction or exponent is delivered as an integer")
            elif "b" in fl:
                self.bad(st, "int", "an integer too large for 64 bits is delivered as an integer")
            elif ("n" in fl) != (name == "negative"):
                self.bad(st, "int", "the integer is delivered through %s()" % name)
            elif not self.true(st, eq(n, mul(P, -1) if "n" in fl else P)):
                self.bad(st, "int", "%s() is given another value than the one written" % name)
            return
        if isint and "b" not in fl and not ("n" in fl and self.true(st, lt(1 << 63, P))):
            if "n" in fl and st.num.evalc(lt(1 << 63, P)) is None:
                raise Split([lt(1 << 63, P)], [le(P, 1 << 63)])
            self.bad(st, "int", "an integer that fits is delivered as a float")
            return
        if isint and "b" not in fl:
            cls, E = "normal", 0
        neg_ = False
        if v[:2] == ("x", "fneg"):
            neg_, v = True, v[2]
        if v[:2] == ("x", "fc") and int(v[2]) >> 63:
            neg_, v = not neg_, ("x", "fc", str(int(v[2]) & ((1 << 63) - 1)), v[3])
        w = ai.as_flt(v)
        if v[:2] == ("x", "fc") and v[2] == "0":
            w = ("x", "flt", 0, 0, 64)
        if w is None:
            self.bad(st, "float", "float() is given a value that is not derived from the literal")
            return
        if neg_ != ("n" in fl):
            self.bad(st, "float", "float() is given the wrong sign")
            return
        S, k = w[2], w[3]
        zero = self.is_zero(ai, st, w)
        t = lambda c: self.true(st, c)
        if cls == "zero" or cls == "under":
            good = zero is True
        elif cls == "over":
            self.bad(st, "float", "a number that is too large is delivered")
            return
        else:
            good = any(t(eq(S, p)) and t(eq(k, x)) for p, x in [(P, E)] + [(a[1], a[2]) for a in alts]) or \
                zero is True and (t(le(E, -345)) or any(t(eq(S, p)) and t(le(x, k)) for p, x in [(P, E)] + [(a[1], a[2]) for a in alts]))
        if not good:
            self.bad(st, "float", "float() is given a value of another scale or other digits than written (%s)" % cls)
        elif self.is_inf(ai, st, w) is not False:
            self.bad(st, "float", "float() may be given an infinity")

    def is_zero(self, ai, st, w):
        S, k = w[2], w[3]
        if self.true(st, eq(S, 0)) or self.true(st, le(k, -344)):
            return True
        if self.true(st, le(1, S)) and self.true(st, le(-307, k)):
            return False
        return self.known(ai, st, "zero", w)

    def is_inf(self, ai, st, w):
        S, k = w[2], w[3]
        if self.true(st, eq(S, 0)) or self.true(st, le(k, 288)):
            return False
        if self.true(st, le(1, S)) and self.true(st, le(309, k)):
            return True
        return self.known(ai, st, "inf", w)

    def known(self, ai, st, name, w):
        w = ai.normv(st, w)
        for k, v in st.num.memo.items():
            if k[0] == "pred" and k[1] == name and ai.normv(st, k[2]) == w:
                return v
        return None

    def ask(self, ai, st, name, w):
        r = (self.is_zero if name == "zero" else self.is_inf)(ai, st, w)
        if r is None and st.num.evalc(eq(w[2], 0)) is None and (name == "inf" or self.true(st, le(-307, w[3]))):
            raise Split([eq(w[2], 0)], [lt(0, w[2])])
        if r is None:
            key = ("pred", name, ai.normv(st, w))
            yes = [("pred", key, True)]
            if name == "inf":
                yes.append(lambda s: self.too_large(ai, s, w))
            raise Split(yes, [("pred", key, False)])
        if r and name == "inf":
            self.too_large(ai, st, w)
        return r

    def too_large(self, ai, st, w):
        """the literal, computed as it should be, is infinite"""
        try:
            self.progress(st, False)
            if not st.gh["ev"] and not st.gh["w"] and self.true(st, eq(st.gh["f"], st.gh["n"])):
                self.number_eof(st)
        except Split:
            return
        for ev in st.gh["ev"][:1]:
            if ev[1] == K("num"):
                for p, x in [(ev[4], ev[5])] + [(a[1], a[2]) for a in ev[6]]:
                    if self.true(st, eq(w[2], p)) and self.true(st, eq(w[3], x)):
                        st.gh["just"] = K("large")

    def fcmp(self, ai, st, o, a, b):
        """comparisons of a float (never negative before its sign is put on) with zero, the infinity and the largest float"""
        flip = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
        if b[:2] != ("x", "fc"):
            a, b, o = b, a, flip[o]
        w = ai.as_flt(a)
        if w is None or b[:2] != ("x", "fc") or b[3] != "64":
            return None
        bits = int(b[2])
        if bits in (0, 1 << 63):
            if o in ("Lt", "Ge"):
                return o == "Ge"
            r = self.ask(ai, st, "zero", w)
            return r == (o in ("Eq", "Le"))
        inf = 0x7FF << 52
        if bits == inf and o in ("Eq", "Ge", "Ne", "Lt") or bits == inf - 1 and o in ("Gt", "Le"):
            r = self.ask(ai, st, "inf", w)
            return r == (o in ("Eq", "Ge", "Gt"))
        if bits == inf:
            return o == "Le"
        return None

    def fpred(self, ai, st, name, v):
        if v[:2] == ("x", "fneg"):
            v = v[2]
        w = ai.as_flt(v)
        if w is None:
            return None
        if name == "is_nan":
            return False
        if name == "is_infinite":
            return self.ask(ai, st, "inf", w)
        if name == "is_finite":
            return not self.ask(ai, st, "inf", w)
        return None

    def exact(self, st, leaves):
        """bytes of the text: their sets are never widened"""
        w = [st.num.norm(x) for x in st.gh["w"]]
        return {i for i, v in enumerate(leaves) if v in w}

    coarse_steps = [0, 1, MAXLEN]

    def coarse(self, st, leaves):
        """positions in the text and the number of open builders take any value"""
        c = [st.gh["f"], st.gh["n"]] + [e[2] for e in st.gh["nest"][:1] if e[0] == "pre"]
        c = {y.t if isinstance(y, Lin) else () for y in (st.num.norm(x) for x in c)}
        ints = {st.num.norm(x) for x in (st.gh["f"],)}
        return {i for i, v in enumerate(leaves) if (v.t in c if isinstance(v, Lin) else v in ints)}

    # ---- folding ---------------------------------------------------------------------------------------------
    def fold_text(self, ai, st):
        E = st.gh["E"]
        q = self.q(st)
        instr = q[0] == "S"
        if q == "D":
            for o, v in list(st.heap.items()):
                if ttag(v) == "txt" and v[1] and o[0] == "h" and not (len(v[1]) == 1 and v[1][0][1] in ("old", "dirty")):
                    st.heap[o] = ("txt", (("P", "dirty" if self.spoilt(st, v[1]) else "old", st.num.fresh(0, MAXLEN * 2)),))
            return
        hits = []
        for o, v in list(st.heap.items()):
            if ttag(v) != "txt" or not v[1] and (instr or o[0] != "h"):
                continue
            T = v[1]
            if not T:
                st.heap[o] = ("txt", (("P", "old", 0),))
            elif instr:
                e, t, n, ln = self.common(st, E, T)
                if n and not (n == 1 and T[0][1] == "out") and not (T[0][1] in ("lit", "fmt") and o[0] != "h"):
                    hits.append((len(e), o[0] != "h", e, t, ln, o))
            elif not self.pending_text(st) and T[0][1] != "old" and o[0] == "h":
                st.heap[o] = ("txt", (("P", "old", st.num.fresh(0, MAXLEN * 2)),))
        if hits:
            k, h, e, _, ln, _ = min(hits, key=lambda x: x[:2])
            p = ("P", "out", st.num.fresh(min(max(st.num.bounds(ln)[0], 0), 1), MAXLEN * 2))
            st.gh["E"] = (p,) + tuple(e)
            for x in hits:
                if x[0] == k:
                    st.heap[x[5]] = ("txt", (p,) + tuple(x[3]))

    def pending_text(self, st):
        return any(e[1][1] in ("string", "key") for e in st.gh["ev"])

    def template(self, v, holes):
        cnt = [0]

        def go(x):
            if x is None or isinstance(x, (bool, str)):
                return x
            if isinstance(x, (int, Lin)):
                raise KeyError
            if x[0] == "p":
                if x[1] not in holes or x[2] != ():
                    raise KeyError
                cnt[0] += 1
                return ("HOLE", holes.index(x[1]), x[3])
            if x[0] == "a":
                return ("a", x[1], tuple(go(y) for y in x[2]))
            if x[0] in ("K", "uninit"):
                return x
            raise KeyError
        try:
            r = go(v)
        except KeyError:
            return None
        return r if cnt[0] >= 1 and "('HOLE', 0" in str(r) else None

    def fill(self, t, objs):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "HOLE":
            return ("p", objs[t[1]], (), t[2])
        if t[0] == "a":
            return ("a", t[1], tuple(self.fill(y, objs) for y in t[2]))
        return t

    def stacks(self, st, n):
        for o, v in st.heap.items():
            if ttag(v) != "seq":
                continue
            if v[1] and v[1][0][0] == "pre":
                if self.true(st, eq(v[1][0][2], n)):
                    yield o, v, 1
            elif self.true(st, eq(n, 0)):
                yield o, v, 0

    def fold_stack(self, ai, st):
        nest = st.gh["nest"]
        while True:
            n, rest = 0, nest
            if nest and nest[0][0] == "pre":
                n, rest = nest[0][2], nest[1:]
            if not rest or rest[0][5] != K("open") or len(rest) < 2 and (st.gh["cur"] is None or rest[0][4] != st.gh["cur"]):
                break
            obj, V = rest[0][1][1], rest[0][3][1]
            hit = None
            for o, v, j in self.stacks(st, n):
                if len(v[1]) > j and v[1][j][0] != "pre" and (self.stackty is None or v[2] == self.stackty):
                    t = self.template(v[1][j], [obj, V])
                    if t is not None:
                        hit = (o, v, j, t)
            if hit is None:
                break
            o, v, j, t = hit
            if (t, rest[0][2][1]) not in self.shapes:
                self.shapes = self.shapes | {(t, rest[0][2][1])}
                self.stackty = v[2]
                if not self.scout:
                    raise Restart()
            pre = ("pre", K("all"), st.num.norm(add(n, 1)))
            st.heap[o] = ("seq", (pre,) + v[1][j + 1:]) + v[2:]
            st.heap.pop(obj, None)
            st.heap.pop(V, None)
            nest = (pre,) + rest[1:]
        if self.shapes:
            n, rest = 0, nest
            if nest and nest[0][0] == "pre":
                n, rest = nest[0][2], nest[1:]
            pre = ("pre", K("all"), n)
            c = [x for x in self.stacks(st, n) if x[1][2] == self.stackty]
            if len(c) == 1:
                o, v, j = c[0]
                st.heap[o] = ("seq", (pre,) + v[1][j:]) + v[2:]
                nest = (pre,) + rest
        st.gh["nest"] = nest

    def unfold(self, ai, st, v, j, rel, ln):
        it = v[1][j]
        o = [k for k, w in st.heap.items() if w is v]
        if len(o) != 1 or j != len(v[1]) - 1:
            raise Unsupported("access inside a summarised stack")
        if not self.true(st, eq(rel, sub(ln, 1))):
            raise Unsupported("access below the top of a summarised stack")
        if not self.decide(st, le(1, ln)):
            raise Infeasible()
        o = o[0]
        alts = []
        for t, kind in sorted(self.shapes, key=str):
            def f(s, t=t, kind=kind):
                w = s.heap[o]
                b = self.ai.new_obj(s, ("t", 0, K("builder"), K(kind)), None, "h")
                V = self.ai.new_obj(s, ("t", 0, K("place")), None, "h")
                m = s.num.norm(sub(ln, 1))
                pre = (it[:2] + (m,),)
                if s.num.evalc(eq(m, 0)) is True:
                    pre = ()
                s.heap[o] = ("seq", w[1][:j] + pre + (self.fill(t, (b, V)),)) + w[2:]
                nest = s.gh["nest"]
                if not (nest and nest[0][0] == "pre"):
                    raise Unsupported("summarised stack without open builders")
                rest = nest[1:]
                kid = rest[0][3] if rest else s.gh["cur"]
                s.gh["nest"] = pre + (("E", ("o", b), K(kind), ("o", V), kid, K("open")),) + rest
            alts.append([f])
        raise Split(*alts)

    def pop_pre(self, ai, st, o, v):
        last = v[1][-1]
        self.decide(st, eq(last[2], 0))
        self.unfold(ai, st, v, len(v[1]) - 1, sub(last[2], 1), last[2])

    def drop_pre(self, ai, st, item):
        n = item[2]
        if self.decide(st, le(n, 0)):
            return
        if self.decide(st, le(n, 1)) and len(st.gh["nest"]) == 1:
            st.gh["nest"] = ()
            return
        self.bad(st, "stale", "the open builders are dropped outermost first in %s" % ai.owner(st))
        raise Dead()

    def tidy(self, st):
        nest = st.gh["nest"]
        if nest and nest[0][0] == "pre" and self.true(st, le(nest[0][2], 0)):
            st.gh["nest"] = nest[1:]

    def prejoin(self, ai, st):
        st.gh["back"] = None
        self.progress(st, False)
        q = self.q(st)
        st.gh["sc"] = K(self.scale(st, q.split("|")[1], False)[0] if q[0] == "N" and q[1] == "x" else None)
        self.fold_text(ai, st)
        self.tidy(st)
        self.fold_stack(ai, st)

    # ---- repetition -----------------------------------------------------------------------------------------
    def measures(self, ai, st):
        """quantities that cannot fall (or rise) for ever: unread text, open builders, integers of the loop's frame"""
        m = {("unread",): sub(st.gh["n"], add(st.gh["f"], len(st.gh["w"])))}
        d = 0
        for e in st.gh["nest"]:
            d = add(d, e[2] if e[0] == "pre" else 1)
        m[("open",)] = d
        fr = st.frames[-1]

        def leaves(v, name, depth):
            if isinstance(v, bool) or depth > 5:
                return
            if isinstance(v, (int, Lin)):
                # only up to a limit that is reached in reasonable time
                lo, hi = st.num.bounds(v)
                if hi <= 1 << 33:
                    m[name + ("up",)] = mul(v, -1)
                if lo >= -(1 << 33):
                    m[name + ("down",)] = v
            elif ttag(v) == "a":
                for i, x in enumerate(v[2]):
                    leaves(x, name + (v[1], i), depth + 1)
            elif ttag(v) == "p":
                for e in v[2]:
                    if isinstance(e, tuple) and e[0] == "i":
                        leaves(e[1], name + ("at",), depth + 1)
        if fr.body is not None:
            for l in fr.body.live_in[fr.bb]:
                v = st.heap.get(("l", fr.uid, l))
                if v is not None:
                    leaves(v, (fr.inst, l), 0)
        return m

    def loops(self):
        """cycles of the graph of loop states that make no progress: [edges], one list per component"""
        E = self.ai.edges
        self.loop_edges = len(E)
        bad, todo = [], [list(E)]
        while todo:
            es = todo.pop()
            out = {}
            for a, b in es:
                out.setdefault(a, []).append(b)
            comp = {}
            for i, c in enumerate(sccs(list(out), lambda x: [y for y in out.get(x, ()) if y in out])):
                for x in c:
                    comp[x] = i
            parts = {}
            for a, b in es:
                if a in comp and b in comp and comp[a] == comp[b]:
                    parts.setdefault(comp[a], []).append((a, b))
            for part in parts.values():
                self.obl += len(part)
                names = set(E[part[0]])
                for e in part[1:]:
                    names &= set(E[e])
                cut = [n for n in sorted(names, key=str) if any(E[e][n] == "dec" for e in part)]
                if not cut:
                    bad.append(part)
                    continue
                # every edge keeps these from growing: those that shrink one of them cannot be taken for ever
                todo.append([e for e in part if not any(E[e][n] == "dec" for n in cut)])
        return bad

    def stuck(self):
        """findings for the cycles without progress"""
        for part in self.loops():
            st = self.ai.acc[part[0][0]]["state"]
            where = sorted({self.ai.owner(self.ai.acc[a]["state"]) for a, _ in part if a in self.ai.acc})
            self.bad(st, "loop", "this repetition need not make progress: %s" % ", ".join(where))

    # ---- ends --------------------------------------------------------------------------------------------------
    def cases(self, st, f):
        try:
            c = st.copy()
            f(c)
        except Split as s:
            for alt in self.ai.strict(st, s.alts):
                c = st.copy()
                try:
                    self.ai.assume_all(c, alt)
                except Infeasible:
                    continue
                self.cases(c, f)
        except (Infeasible, Dead):
            pass

    def done(self, ai, st, val, unwinding):
        if unwinding:
            self.outcomes["unwind"] += 1
            return
        good = val[1] == 0
        self.outcomes["ok" if good else "err"] += 1
        self.cases(st, self.accepted if good else self.rejected)

    def settle_all(self, st):
        while not st.gh["ev"] and st.gh["w"] and self.q(st) not in ("D", "P"):
            self.hex_done(st)
            self.advance(st, True)
        self.hex_done(st)

    def accepted(self, st):
        self.obl += 4
        self.settle_all(st)
        q = self.q(st)
        self.check(st, st.gh["err"] == K("no"), "order", "the parser succeeds although a callback failed")
        if q == "D":
            self.bad(st, "accept", "a text that is not JSON is accepted")
            return
        if not self.decide(st, eq(st.gh["f"], st.gh["n"])):
            self.bad(st, "accept", "a text is accepted before its end is reached")
            return
        if not st.gh["ev"]:
            self.number_eof(st)
        if st.gh["ev"]:
            self.bad(st, "order", "the parser succeeds without the callback %s" % st.gh["ev"][0][1][1])
        elif self.q(st) != "Z":
            self.bad(st, "accept", "an incomplete text is accepted")
        self.tidy(st)
        self.check(st, not st.gh["nest"], "order", "the parser succeeds with a builder still open")

    def rejected(self, st):
        self.obl += 1
        if st.gh["err"] == K("rejected"):
            why = st.gh["just"][1]
        elif st.gh["err"] != K("no"):
            return
        else:
            why = self.unfair(st)
        if why:
            self.bad(st, "reject", "a text that may be JSON is rejected (%s)" % why)

    def unfair(self, st):
        """None when no text that is JSON goes on like this, or what the parser was waiting for"""
        if st.gh["just"] == K("large"):
            return None
        self.settle_all(st)
        q = self.q(st)
        if q == "D":
            return None
        ev = st.gh["ev"]
        if q[0] == "L" and not ev and self.decide(st, lt(sub(st.gh["n"], st.gh["f"]), len(q[1:].split("|")[0]))):
            return None         # the text ends within the literal
        if not ev and self.decide(st, eq(st.gh["f"], st.gh["n"])):
            if q != "Z" and not q[0] == "N":
                return None
            if q[0] == "N":
                if q[1:].split("|")[0] not in ("0", "i", "f", "x"):
                    return None
                # a complete number, but is the text complete?
                self.number_eof(st)
                ev = st.gh["ev"]
                if self.after_value(st) == "A":
                    return None
        q = self.q(st)
        if q[0] == "N" and q[1] == "x" and "m" not in q and self.scale(st, q.split("|")[1], True)[0] == "over":
            return None         # more digits only make it larger
        if ev and ev[0][1] == K("num"):
            cls, P, E = ev[0][3][1], ev[0][4], ev[0][5]
            if cls == "over" or cls == "normal" and self.decide(st, le(309, E)):
                return None
        if ev and not st.gh["w"] and self.decide(st, eq(st.gh["f"], st.gh["n"])) and (
                ev[0][1][1] in ("element", "seq", "map", "key") or self.after_value(st) == "A"):
            return None         # the text ends too early
        return q[:1] + (", %s due" % ev[0][1][1] if ev else "")

    def drive(self):
        self.scout = True
        panics, self.user_panics = self.user_panics, False
        self.letters = iset(*[(ord(c), ord(c)) for c in '[]{}:,"0'])
        self.once()
        self.scout, self.user_panics, self.letters = False, panics, ALL
        for _ in range(20):
            self.reset()
            try:
                return self.once()
            except Restart:
                continue
        raise Unsupported("the shape of the stack does not settle")

    def reset(self):
        self.finds.clear()
        self.ai.alarms.clear()
        self.ai.edges.clear()
        self.outcomes = dict.fromkeys(self.outcomes, 0)
        self.obl = self.events = 0

    def once(self):
        st = self.fresh_state()
        ai = self.ai
        n = st.num.fresh(0, MAXLEN)
        r = ai.new_obj(st, UNINIT, None, "s")
        st.heap[r] = ("reg", ("o", r), n)
        self.region = r
        st.gh.update(q=K("V0"), f=0, n=n, w=(), nest=(), cur=None, ev=(), num=(), hex=(), E=(), err=K("no"), just=K(None),
                     out=None, back=None, reg=("o", r))
        self.calls += 1
        ai.acc = {}
        try:
            ai.push(st, self.P.entry("parse"), [("p", r, (("i", 0),), n)], None, 0, "continue")
            ai.explore([st])
        except Unsupported as e:
            ai.alarm(st, "unsupported", str(e))
        return len(ai.acc)
