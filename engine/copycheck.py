"""JSON trees as collections: copies, collecting, iteration, printing of numbers."""
import re
from harness import *
from normal import canon_name
from models import is_pre, norm_pieces, slice_pieces, format_pieces, regrow, handle
from decheck import RANGES, variant, number_type, same_bool, Anchor
import sercheck
from sercheck import nest, element_type, kv_type


class Trees(Client):
    """source containers: ("in", "A") holds any number of elements; element k is known by its place.
    A copy of it is ("t", 0, copy, place); an item taken from an unknown iterator likewise."""

    def model(self, path, inst, inf):
        if path == "<miniserde::json::Value as std::clone::Clone>::clone":
            return self.m_clone
        if path == "<std::string::String as std::clone::Clone>::clone":
            return self.m_key
        if path.startswith("<witness::tree::") and path.endswith("::next"):
            return self.m_next
        if path.startswith("std::fmt::Formatter::<") and path.split("::")[-1] in ("write_str", "pad", "write_fmt") or \
                path.startswith("<std::fmt::Formatter<") and path.split("::")[-1] in ("write_str", "write_fmt"):
            return self.m_write
        m = re.search(r"<impl std::fmt::Display for ([iu](?:8|16|32|64|size))>::fmt$", path)
        if m and path.startswith("std::fmt::"):
            return self.m_display
        return None

    def panic(self, ai, st, what):
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def place(self, st, p):
        """index of the source element p points at"""
        if p[0] == "p" and ("o", p[1]) == st.gh.get("src") and len(p[2]) in (1, 2) and p[2][0][0] == "i":
            return p[2][0][1]
        return None

    def m_clone(self, ai, st, a, c):
        p = ai.unwrap_ptr(a[0])
        if self.place(st, p) is not None:
            return ("t", 0, ("K", "copy"), ("p", p[1], p[2][:1], None))
        v = ai.read(st, p[1], p[2])
        if v[0] == "t":
            return v
        return NotImplemented

    def m_key(self, ai, st, a, c):
        p = ai.unwrap_ptr(a[0])
        k = self.place(st, p)
        if k is None:
            return models.string_clone(ai, st, a, c)
        return self.key(st, ("K", "copy"), st.num.norm(k))

    def key(self, st, cls, k):
        """the whole key of element k"""
        ai = self.ai
        o = ai.new_obj(st, ("txt", (("P", "sl", ("whole", cls[1], k), 0, st.num.fresh(0, 1 << 40)),)), None, "h")
        return ("a", 0, (("o", o),))

    def materialise(self, ai, st, it, k, n):
        k = st.num.norm(k)
        v = ("t", 0, it[1], ("p", ("in", "A"), (("i", k),), None))
        if st.gh.get("kv"):
            return ("a", 0, (self.key(st, it[1], k), v))
        return v

    def m_next(self, ai, st, a, c):
        if st.gh.get("ended"):
            return NONE

        def end(s):
            ai.note(s, "the iterator ends")
            s.gh["ended"] = True
            return NONE

        def item(s):
            ai.note(s, "the iterator yields an item")
            n = s.gh["count"]
            s.gh["count"] = s.num.norm(add(n, 1))
            v = ("t", 0, ("K", "item"), ("p", ("in", "A"), (("i", n),), None))
            if s.gh.get("kv"):
                v = ("a", 0, (self.key(s, ("K", "item"), n), v))
            return some(v)
        return Fork(end, item)

    def map_insert(self, ai, st, o, v, pl, k, val):
        def ins(s):
            o2, v2, pl2 = handle(ai, s, ("p", pl[0], pl[1], None))
            regrow(ai, s, o2, pl2, ("seq", v2[1] + (("a", 0, (k, val)),)) + v2[2:])

        def fresh(s):
            ins(s)
            return NONE

        def repl(s):
            ins(s)
            ai.note(s, "the key was already present")
            s.gh["repeated"] = True
            return some(("t", 0, ("K", "old")))
        return Fork(fresh, repl) if v[1] and s_kv(st) else fresh(st)

    def drop(self, ai, st, ty, ptr):
        """elements are dropped by code that is examined elsewhere"""
        if isinstance(ptr, tuple) and ptr[0] == "p" and ptr[1] in st.heap:
            v = ai.read(st, ptr[1], ptr[2])
            if isinstance(v, tuple) and v and v[0] == "t":
                return True
            d = self.P.ty(ty)
            if d["k"] == "adt" and canon_name(d["def"]) in ("miniserde::json::Array", "miniserde::json::Object"):
                return tuple((("p", ptr[1], ptr[2] + (i,), None), f) for i, f in enumerate(ai.fields(ty)))
        return False

    def drop_pre(self, ai, st, item):
        return None

    def m_write(self, ai, st, a, c):
        nm = canon_last(c.inf["path"])
        return self.write(ai, st, format_pieces(ai, st, a[1]) if nm == "write_fmt" else slice_pieces(ai, st, a[1]))

    def write(self, ai, st, ps):
        def good(s):
            s.gh["out"] = norm_pieces(ai, s, s.gh["out"] + ps)
            return ok()

        def bad(s):
            ai.note(s, "the formatter fails")
            s.gh["failed"] = True
            return err()
        return Fork(good, bad)

    def m_display(self, ai, st, a, c):
        q = ai.unwrap_ptr(a[0])
        t = ai.pointee(c.argty(0))
        return self.write(ai, st, (models.fmt_piece(ai, st, "int", ai.num(st, ai.read(st, q[1], q[2])), ai.P.ty(t)),))

    # ---- copies already made, in order, are one summary -----------------------------------------------
    def index(self, st, it):
        """(class, place) of a copied or collected element or entry"""
        if it[0] == "t" and len(it) == 4 and it[2][1] in ("copy", "item"):
            return it[2], it[3][2][0][1]
        if it[0] == "a" and len(it[2]) == 2:
            e = self.index(st, it[2][1])
            w = it[2][0]
            while w[0] == "a" and w[2]:
                w = w[2][0]
            if e is None or w[0] != "o" or w[1] not in st.heap:
                return None
            ps = st.heap[w[1]][1]
            if len(ps) != 1 or ps[0][1] != "sl" or ps[0][2][0] != "whole" or ps[0][2][1] != e[0][1]:
                return None
            same = lambda x, y: st.num.evalc(eq(x, y)) is True
            return e if same(ps[0][2][2], e[1]) and same(ps[0][3], 0) else None
        return None

    def settle(self, st, o):
        w = st.heap[o]
        n, cls, keys = 0, None, []
        front = 0
        while front < len(w[1]) and (w[1][front][1][1] not in ("copy", "item") if is_pre(w[1][front]) else self.index(st, w[1][front]) is None):
            front += 1
        for it in w[1][front:]:
            if is_pre(it):
                if n != 0 or it[1][1] not in ("copy", "item"):
                    return None
                cls, n = it[1], it[2]
                continue
            e = self.index(st, it)
            if e is None or cls not in (None, e[0]) or st.num.evalc(eq(e[1], n)) is not True:
                return None
            cls, n = e[0], st.num.norm(add(n, 1))
            if it[0] == "a":
                x = it[2][0]
                while x[0] == "a":
                    x = x[2][0]
                keys.append(x[1])
        if cls is None:
            return None
        for k in keys:
            st.heap.pop(k, None)
        st.heap[o] = ("seq", w[1][:front] + (("pre", cls, st.num.norm(n)),)) + w[2:]
        return None if front else (cls, n)

    def prejoin(self, ai, st):
        for o, w in list(st.heap.items()):
            if o in st.heap and isinstance(w, tuple) and w and w[0] == "seq" and ("o", o) != st.gh.get("src") and w[1]:
                self.settle(st, o)

    def holds(self, st, v, cls, n):
        """v is a container of exactly the n elements of this class, in order"""
        while v[0] == "a" and v[2]:
            v = v[2][0]
        if v[0] != "o" or v[1] not in st.heap or v == st.gh.get("src"):
            return False
        w = st.heap[v[1]]
        if w[0] != "seq":
            return False
        if w[1]:
            e = self.settle(st, v[1])
            if e is None or e[0] != ("K", cls):
                return False
            return st.num.evalc(eq(e[1], n)) is True
        return st.num.evalc(eq(n, 0)) is True


def s_kv(st):
    return bool(st.gh.get("kv"))


def canon_last(p):
    return p.split("::")[-1]


def source(T, cty):
    """a container of this type with any number of elements"""
    ai = T.ai
    st = T.fresh_state()
    n = st.num.fresh(0, 1 << 50)
    kv = is_map(T, cty)
    st.gh["kv"] = kv
    st.gh["len"] = n
    et = ("kv",) + tuple(kv_type(T, cty)) if kv else element_type(T, cty)
    o = ai.new_obj(st, ("seq", (("pre", ("K", "src"), n),), et), None, "s")
    st.gh["src"] = ("o", o)
    return st, nest(T, cty, ("o", o))


def is_map(T, ty):
    d = T.P.ty(ty)
    if d["k"] == "adt" and d["def"].split("::")[-1] in ("Vec", "BTreeMap", "HashMap"):
        return d["def"].split("::")[-1] != "Vec"
    return is_map(T, T.ai.fields(ty)[0])


def untouched(T, s, what):
    w = s.heap.get(s.gh["src"][1])
    T.check(s, w is not None and len(w[1]) == 1 and w[1][0][:2] == ("pre", ("K", "src")) and s.num.evalc(eq(w[1][0][2], s.gh["len"])) is True,
            "content", what + ": the original is changed")


def runs(T, st, fn, args, what):
    n = 0
    for s, v, u in T.call(st, T.P.entry("tree::" + fn), args, what):
        n += 1
        if T.check(s, not u, "panic", what + ": panics"):
            yield s, v
    T.check(st, n > 0, "content", what + ": has no outcome")


def clone_container(T, fn, what):
    cty = T.ai.pointee(T.P.body(T.P.entry("tree::" + fn)).locals[1])
    st, v = source(T, cty)
    p = ("p", T.ai.new_obj(st, v, cty, "s"), (), None)
    for s, w in runs(T, st, fn, [p], what):
        T.check(s, T.holds(s, w, "copy", s.gh["len"]), "content", what + ": the copy does not hold exactly copies of the contents")
        untouched(T, s, what)


def clone_from_container(T, fn, what):
    cty = T.ai.pointee(T.P.body(T.P.entry("tree::" + fn)).locals[1])
    for some_old in (False, True):
        st, v = source(T, cty)
        p = ("p", T.ai.new_obj(st, v, cty, "s"), (), None)
        old = (("pre", ("K", "old"), st.num.fresh(1, 1 << 50)),) if some_old else ()
        o = T.ai.new_obj(st, ("seq", old) + st.heap[st.gh["src"][1]][2:], None, "h")
        d = ("p", T.ai.new_obj(st, nest(T, cty, ("o", o)), cty, "s"), (), None)
        for s, _ in runs(T, st, fn, [d, p], what):
            T.check(s, T.holds(s, s.heap[d[1]], "copy", s.gh["len"]), "content", what + ": the target does not hold exactly copies of the contents")
            untouched(T, s, what)


def clone_scalars(T):
    """a number, and every kind of value"""
    P, ai = T.P, T.ai
    nt = number_type(T)
    vt = ai.pointee(P.body(P.entry("tree::clone_value")).locals[1])
    vs = {v["name"]: (i, [f for _, f in v["fields"]]) for i, v in enumerate(P.ty(vt)["variants"])}

    def go(fn, st, ty, v, same, what):
        o = ai.new_obj(st, v, ty, "s")
        for s, w in runs(T, st, fn, [("p", o, (), None)], what):
            T.check(s, w[0] == "a" and w[1] == v[1] and same(s, w), "content", what + ": the copy differs")
            T.check(s, s.heap.get(o) == v, "content", what + ": the original is changed")

    def numbers():
        for name, r in (("U64", RANGES["u64"]), ("I64", RANGES["i64"])):
            st = T.fresh_state()
            n = st.num.fresh(*r)
            yield st, ("a", variant(P, nt, name), (n,)), lambda s, w, n=n: not isinstance(w[2][0], tuple) and s.num.evalc(eq(w[2][0], n)) is True
        f = ("x", "source", "64")
        yield T.fresh_state(), ("a", variant(P, nt, "F64"), (f,)), lambda s, w: w[2][0] == f
    for st, v, same in numbers():
        go("clone_number", st, nt, v, same, "copying a number")
        go("clone_value", st.copy(), vt, ("a", vs["Number"][0], (v,)),
           lambda s, w, v=v, same=same: w[2][0][0] == "a" and w[2][0][1] == v[1] and same(s, w[2][0]), "copying a value holding a number")
    go("clone_value", T.fresh_state(), vt, ("a", vs["Null"][0], ()), lambda s, w: True, "copying null")
    st = T.fresh_state()
    b = ("c", "ne0", st.num.fresh(0, 1))
    go("clone_value", st, vt, ("a", vs["Bool"][0], (b,)), lambda s, w: same_bool(T, s, w[2][0], b), "copying a value holding a boolean")
    st = T.fresh_state()
    n = st.num.fresh(0, 1 << 40)
    o = ai.new_obj(st, ("txt", (("P", "sl", ("text",), 0, n),)), None, "s")

    def text(s, w):
        x = w[2][0]
        while x[0] == "a" and x[2]:
            x = x[2][0]
        return x[0] == "o" and x[1] != o and x[1] in s.heap and sercheck.text_is(T, s, norm_pieces(ai, s, s.heap[x[1]][1]), ("text",), n)
    go("clone_value", st, vt, ("a", vs["String"][0], (("a", 0, (("o", o),)),)), text, "copying a value holding a string")
    for name in ("Array", "Object"):
        what = "copying a value holding an " + name.lower()
        ct = vs[name][1][0]
        st, v = source(T, ct)
        go("clone_value", st, vt, ("a", vs[name][0], (v,)), lambda s, w: T.holds(s, w[2][0], "copy", s.gh["len"]), what)
    if set(vs) != {"Null", "Bool", "Number", "String", "Array", "Object"}:
        raise Anchor("variants of the untyped value: %s" % sorted(vs))


def collect(T, fn, what):
    P, ai = T.P, T.ai
    b = P.body(P.entry("tree::" + fn))
    kv = is_map(T, b.locals[0])
    st = T.fresh_state()
    st.gh["kv"], st.gh["count"] = kv, 0
    for s, w in runs(T, st, fn, [("a", 0, (0,))], what):
        T.check(s, s.gh.get("ended"), "content", what + ": stops before the iterator ends")
        T.check(s, T.holds(s, w, "item", s.gh["count"]), "content", what + ": does not hold exactly the items in order")


def empty(T, fn, what):
    ty = T.P.body(T.P.entry("tree::" + fn)).locals[0]
    st = T.fresh_state()
    for s, w in runs(T, st, fn, [], what):
        if fn == "default_value":
            T.check(s, w[0] == "a" and T.P.ty(ty)["variants"][w[1]]["name"] == "Null", "content", what + ": is not null")
        else:
            T.check(s, T.holds(s, w, "copy", 0), "content", what + ": is not empty")


def deref(T, fn, what):
    cty = T.ai.pointee(T.P.body(T.P.entry("tree::" + fn)).locals[1])
    st, v = source(T, cty)
    p = ("p", T.ai.new_obj(st, v, cty, "s"), (), None)
    for s, w in runs(T, st, fn, [p], what):
        q = T.ai.unwrap_ptr(w)
        x = T.ai.read(s, q[1], q[2])
        while x[0] == "a" and x[2]:
            x = x[2][0]
        T.check(s, q[1] == p[1] and x == s.gh["src"], "content", what + ": gives another collection")
        untouched(T, s, what)


def iterate(T, fn, what):
    P, ai = T.P, T.ai
    b = P.body(P.entry("tree::" + fn))
    cty, ity = ai.pointee(b.locals[1]), b.locals[0]
    st, v = source(T, cty)
    kv = st.gh["kv"]
    p = ("p", ai.new_obj(st, v, cty, "s"), (), None)
    inits = []
    for s, w in runs(T, st, fn, [p], what):
        untouched(T, s, what)
        s.gh["it"] = ("o", ai.new_obj(s, w, ity, "s"))
        s.gh["n"] = 0
        inits.append(s)

    def step(st):
        res = []
        for s, w in runs(T, st, fn + "_next", [("p", st.gh["it"][1], (), None)], what):
            k, L = s.gh["n"], s.gh["len"]
            if w[1] == 0:
                T.check(s, s.num.evalc(eq(k, L)) is True, "content", what + ": ends early")
                continue
            if not T.check(s, s.num.evalc(lt(k, L)) is True, "content", what + ": yields too many elements"):
                continue
            y = w[2][0]
            es = y[2] if kv else (y,)
            good = True
            for i, q in enumerate(es):
                q = ai.unwrap_ptr(q)
                at = T.place(s, q)
                good = good and at is not None and s.num.evalc(eq(at, k)) is True and q[2][1:] == ((i,) if kv else ())
            T.check(s, good, "content", what + ": yields a wrong, repeated or reordered element")
            s.gh["n"] = s.num.norm(add(k, 1))
            res.append(s)
        return res
    T.fixpoint(inits, step)


def show(T):
    """Display of a number writes the literal serialization would write, and reports a failing formatter"""
    P, ai = T.P, T.ai
    nt = number_type(T)
    what = "printing a number"
    for name, r in (("U64", RANGES["u64"]), ("I64", RANGES["i64"]), ("F64", None)):
        st = T.fresh_state()
        x = st.num.fresh(*r) if r else ("x", "source", ("K", "finite"))
        o = ai.new_obj(st, ("a", variant(P, nt, name), (x,)), nt, "s")
        f = ai.new_obj(st, ("t", 0, ("K", "formatter")), None, "s")
        st.gh["out"] = ()
        for s, v in runs(T, st, "show_number", [("p", o, (), None), ("p", f, (), None)], what):
            if s.gh.get("failed"):
                T.check(s, v[1] == 1, "content", what + ": a failing formatter is not reported")
                continue
            if not T.check(s, v[1] == 0, "content", what + ": fails although the formatter does not"):
                continue
            ps = s.gh["out"]
            good = len(ps) == 1 and ps[0][1] == "fmt"
            if good and r:
                good = ps[0][2] == "int" and s.num.evalc(eq(ps[0][4], x)) is True
            elif good:
                good = ps[0][2] in ("float", "anyfloat") and ps[0][4] == x
            T.check(s, good, "content", what + ": writes other text than its JSON literal")
