"""Obligations on serialization sources: which fragment begin() gives, and which entries its stream yields."""
from harness import *
from models import text_of, norm_pieces, new_coll
from normal import canon_name
from decheck import report, finish, RANGES, variant, is_term, number_type, same_bool, Anchor

OPAQUE = ("witness::STok", "witness::CTok", "witness::ZSTok")


class Streams(Client):
    def __init__(self, P):
        super().__init__(P)
        self.values = False

    def bad(self, st, kind, what):
        super().bad(st, kind, what)

    def model(self, path, inst, inf):
        for o in OPAQUE:
            if path == "<%s as miniserde::Serialize>::begin" % o:
                return self.m_begin
        if self.values and path == "<miniserde::json::Value as miniserde::Serialize>::begin":
            return self.m_begin
        return None

    def m_begin(self, ai, st, a, c):
        p = ai.unwrap_ptr(a[0])
        ai.uid += 1
        return ("t", ai.uid, ("K", "frag"), ("p", p[1], p[2], None))

    def materialise(self, ai, st, it, k, n):
        """element k of the summarised source container"""
        k = st.num.norm(k)
        if it[1] == ("K", "kv"):
            o = ai.new_obj(st, ("txt", (("P", "sl", ("ksrc", k), 0, st.num.fresh(0, 1 << 40)),)), None, "k")
            return ("a", 0, (("a", 0, (("o", o),)), ("t", 0, ("K", "value"))))
        return ("t", 0, ("K", "value"))

    def to_string(self, ai, st, p, t):
        p = ai.unwrap_ptr(p)
        o = ai.new_obj(st, ("txt", (("P", "sl", ("kstr", p[1], p[2]), 0, st.num.fresh(0, 1 << 40)),)), None, "h")
        return ("a", 0, (("o", o),))

    def panic(self, ai, st, what):
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def cow_text(self, st, v):
        if v[1] == 0:
            return text_of(self.ai, st, v[2][0])
        w = v[2][0]
        while w[0] == "a" and w[2]:
            w = w[2][0]
        return norm_pieces(self.ai, st, st.heap[w[1]][1]) if w[0] == "o" and w[1] in st.heap else None


def frag_type(P, ai):
    return P.body(P.entry("x_begin")).locals[0]


class Source:
    def __init__(self, T, name, begin=None):
        self.T, self.name = T, name
        self.begin = begin if begin is not None else T.P.entry("se_begin::" + name)
        self.srcty = T.ai.pointee(T.P.body(self.begin).locals[1])
        self.fragty = frag_type(T.P, T.ai)

    def variant(self, v):
        return self.T.P.ty(self.fragty)["variants"][v[1]]["name"] if v[0] == "a" else None

    def run(self, st, arg):
        for s, v, u in self.T.call(st, self.begin, [arg], "begin of " + self.name):
            if self.T.check(s, not u, "panic", "serializing %s: begin() panics" % self.name):
                yield s, v


def text_is(T, s, ps, reg, ln):
    if ps is None:
        return False
    if not ps:
        return s.num.evalc(eq(ln, 0)) is True
    return (len(ps) == 1 and ps[0][1] == "sl" and ps[0][2] == reg and s.num.evalc(eq(ps[0][3], 0)) is True
            and s.num.evalc(eq(ps[0][4], ln)) is True)


def int_fragment(T, s, src, v, n):
    return src.variant(v) in ("U64", "I64") and not isinstance(v[2][0], tuple) and s.num.evalc(eq(v[2][0], n)) is True


SCALARS = ["unit", "boolean", "st", "string", "number", "t_f32", "t_f64"] + ["t_" + n for n in RANGES]


def scalar_source(T, name):
    """begin() gives the fragment of exactly that value"""
    P, ai = T.P, T.ai
    src = Source(T, name)
    what = "serializing " + name

    def go(st, arg, good):
        n = 0
        for s, v in src.run(st, arg):
            n += 1
            T.check(s, good(s, v), "content", what + ": gives the wrong fragment")
        T.check(st, n > 0, "content", what + ": begin() has no outcome")

    def obj(st, v):
        return ("p", ai.new_obj(st, v, src.srcty, "s"), (), None)
    st = T.fresh_state()
    if name == "unit":
        go(st, obj(st, UNIT), lambda s, v: src.variant(v) == "Null")
    elif name == "boolean":
        b = ("c", "ne0", st.num.fresh(0, 1))
        go(st, obj(st, b), lambda s, v: src.variant(v) == "Bool" and same_bool(T, s, v[2][0], b))
    elif name in ("st", "string"):
        n = st.num.fresh(0, 1 << 40)
        if name == "st":
            st.heap[("in", "S")] = ("reg", ("text",), n)
            arg = ("p", ("in", "S"), (("i", 0),), n)
        else:
            o = ai.new_obj(st, ("txt", (("P", "sl", ("text",), 0, n),)), None, "s")
            arg = obj(st, ("a", 0, (("o", o),)))
        go(st, arg, lambda s, v: src.variant(v) == "Str" and text_is(T, s, T.cow_text(s, v[2][0]), ("text",), n))
    elif name == "number":
        nt = number_type(T)
        n = st.num.fresh(*RANGES["u64"])
        s1 = st.copy()
        go(s1, obj(s1, ("a", variant(P, nt, "U64"), (n,))), lambda s, v: int_fragment(T, s, src, v, n))
        s1 = st.copy()
        m = s1.num.fresh(*RANGES["i64"])
        go(s1, obj(s1, ("a", variant(P, nt, "I64"), (m,))), lambda s, v: int_fragment(T, s, src, v, m))
        f = ("x", "source", "64")
        go(st, obj(st, ("a", variant(P, nt, "F64"), (f,))), lambda s, v: src.variant(v) == "F64" and v[2][0] == f)
    elif name in ("t_f32", "t_f64"):
        f = ("x", "source", name[3:])
        go(st, obj(st, f), lambda s, v: src.variant(v) == "F64" and
           (v[2][0] == f if name == "t_f64" else is_term(v[2][0], "f2f", f, "64")))
    else:
        n = st.num.fresh(*RANGES[name[2:]])
        go(st, obj(st, n), lambda s, v: int_fragment(T, s, src, v, n))


def transparent_source(T, name):
    """begin() is the wrapped value's begin()"""
    P, ai = T.P, T.ai
    src = Source(T, name)
    what = "serializing " + name

    def go(st, arg, good):
        n = 0
        for s, v in src.run(st, arg):
            n += 1
            T.check(s, good(s, v), "content", what + ": differs from serializing the wrapped value")
        T.check(st, n > 0, "content", what + ": begin() has no outcome")

    def obj(st, v, ty=None):
        return ("p", ai.new_obj(st, v, ty or src.srcty, "s"), (), None)
    st = T.fresh_state()
    tok = ("t", 0, ("K", "value"))
    if name.endswith("reference"):
        p = obj(st, tok, ai.pointee(src.srcty))
        go(st, obj(st, p), lambda s, v: v[0] == "t" and v[3] == p)
    elif name.endswith("boxed"):
        p = obj(st, tok)
        go(st, obj(st, models.box_value(ai, p)), lambda s, v: v[0] == "t" and v[3] == p)
    elif name.endswith("option"):
        o = obj(st, some(tok))
        go(st.copy(), o, lambda s, v: v[0] == "t" and v[3][1] == o[1] and v[3][2][-1:] == (0,) and len(v[3][2]) <= 2)
        o2 = obj(st, NONE)
        go(st, o2, lambda s, v: src.variant(v) == "Null")
    elif name.endswith("cow"):
        p = obj(st, tok, None)
        go(st.copy(), obj(st, ("a", 0, (p,))), lambda s, v: v[0] == "t" and v[3] == p) if False else None
        s1 = st.copy()
        go(s1, obj(s1, ("a", 0, (p,))), lambda s, v: v[0] == "t" and v[3] == p)
        s1 = st.copy()
        o = obj(s1, ("a", 1, (tok,)))
        go(s1, o, lambda s, v: v[0] == "t" and v[3][1] == o[1] and v[3][2][-1:] == (0,) and len(v[3][2]) <= 2)


def drive_stream(T, src, starts, what, item, length):
    """the stream yields exactly item(0) .. item(length-1) and then ends.
    item(state, k, yielded) -> is this entry k"""
    P, ai = T.P, T.ai
    inits = []
    for st, v, base in starts:
        kind = src.variant(v)
        if not T.check(st, kind in ("Seq", "Map"), "content", what + ": not given as a stream"):
            continue
        nxt = P.entry("x_seq_next" if kind == "Seq" else "x_map_next")
        bty = ai.pointee(P.body(nxt).locals[1])
        hb = ai.new_obj(st, v[2][0], bty)
        st.gh["hb"], st.gh["n"] = ("o", hb), 0
        st.gh["kind"] = kind
        st.gh["base"] = tuple(sorted(("o", o) for o in base if o[0] == "h"))
        inits.append(st)

    def close(s):
        hb = s.gh.pop("hb")[1]
        bty = ai.otype[hb]
        for s2, v, u in T.drop_ptr(s, ("p", hb, (), None), bty):
            s2.heap.pop(hb, None)
            T.check(s2, not u, "panic", what + ": dropping the stream panics")
            left = [o for o in s2.heap if o[0] == "h" and ("o", o) not in s2.gh["base"]]
            T.check(s2, not left, "leak", what + ": memory is never freed")

    def step(st):
        hb = st.gh["hb"][1]
        n = st.gh["n"]
        kind = st.gh["kind"]
        nxt = P.entry("x_seq_next" if kind == "Seq" else "x_map_next")
        close(st.copy())
        L = length(st)
        res = []
        for s, v, u in T.call(st, nxt, [("p", hb, (), None)], "next()"):
            if not T.check(s, not u, "panic", what + ": next() panics"):
                continue
            if v[1] == 0:
                T.check(s, s.num.evalc(eq(n, L)) is True, "content", what + ": the stream ends early")
                close(s)
                continue
            if not T.check(s, s.num.evalc(lt(n, L)) is True, "content", what + ": the stream yields too many entries"):
                continue
            T.check(s, item(s, n, v[2][0]), "content", what + ": the stream yields a wrong, repeated or reordered entry")
            o = ai.new_obj(s, v, P.body(nxt).locals[0], "y")
            for s2, w, u2 in T.drop_ptr(s, ("p", o, (), None), P.body(nxt).locals[0]):
                s2.heap.pop(o, None)
                for k in [k for k in s2.heap if k[0] == "k"]:
                    del s2.heap[k]
                s2.gh["n"] = s2.num.norm(add(n, 1))
                if isinstance(L, int):
                    s2.gh["disc"] = ("K", s2.gh["n"])       # keep the positions of a fixed-size source apart
                res.append(s2)
        return res
    r = T.fixpoint(inits, step)
    return r


def dyn_at(T, s, y, obj):
    """(path, concrete type) of a yielded `&dyn Serialize` into obj, else (None, None)"""
    p = T.ai.unwrap_ptr(y)
    if p[0] != "p" or p[1] != obj or p[3] is None or p[3][0] != "vt":
        return None, None
    return p[2], p[3][1]


def nest(T, ty, leaf):
    """leaf wrapped in the single-field structures of ty down to its collection"""
    d = T.P.ty(ty)
    if d["k"] == "adt" and canon_name(d["def"]).startswith(("std::vec::Vec", "std::collections::")):
        return leaf
    fs = T.ai.fields(ty)
    if len(fs) != 1:
        raise Anchor("shape of " + d["name"])
    return ("a", 0, (nest(T, fs[0], leaf),))


def fields_source(T, name, lengths=None):
    """pair: a stream of the two fields"""
    src = Source(T, name)
    st = T.fresh_state()
    ft = T.ai.fields(src.srcty)
    tok = ("t", 0, ("K", "value"))
    o = T.ai.new_obj(st, ("a", 0, tuple(tok for _ in ft)), src.srcty, "s")
    base = set(st.heap)

    def item(s, n, y):
        path, ty = dyn_at(T, s, y, o)
        return path is not None and len(path) == 1 and isinstance(path[0], int) and s.num.evalc(eq(n, path[0])) is True and ty == ft[path[0]]
    starts = [(s, v, base) for s, v in src.run(st, ("p", o, (), None))]
    drive_stream(T, src, starts, "serializing " + name, item, lambda s: len(ft))


def slice_source(T, name):
    """a stream of the elements of a slice, vector or array"""
    src = Source(T, name)
    ai, P = T.ai, T.P
    st = T.fresh_state()
    d = P.ty(src.srcty)
    N = None
    if d["k"] == "array":
        N = d["len"]
        elt = d["elem"]
        tok = ("t", 0, ("K", "value"))
        o = ai.new_obj(st, ("arr", (tok,) * N), src.srcty, "s")
        arg = ("p", o, (), None)
    else:
        n = st.num.fresh(0, (1 << 63) - 1 >> 6)
        elt = d["elem"] if d["k"] == "slice" else None
        if elt is None:
            elt = element_type(T, src.srcty)
        o = ai.new_obj(st, ("seq", (("pre", ("K", "src"), n),), elt), None, "s")
        if d["k"] == "slice":
            arg = ("p", o, (("i", 0),), n)
        else:
            arg = ("p", ai.new_obj(st, nest(T, src.srcty, ("a", 0, (("o", o),)) if False else ("o", o)), src.srcty, "s"), (), None)
    st.gh["len"] = N if N is not None else n
    base = set(st.heap)

    def item(s, n, y):
        path, ty = dyn_at(T, s, y, o)
        return (path is not None and len(path) == 1 and path[0][0] == "i" and s.num.evalc(eq(n, path[0][1])) is True and ty == elt)
    starts = [(s, v, base) for s, v in src.run(st, arg)]
    return drive_stream(T, src, starts, "serializing " + name, item, lambda s: s.gh["len"])


def element_type(T, ty):
    d = T.P.ty(ty)
    if d["k"] == "adt" and canon_name(d["def"]).startswith("std::vec::Vec"):
        return [x for x in d["args"] if isinstance(x, int)][0]
    return element_type(T, T.ai.fields(ty)[0])


def kv_type(T, ty):
    d = T.P.ty(ty)
    if d["k"] == "adt" and canon_name(d["def"]).startswith("std::collections::"):
        return [x for x in d["args"] if isinstance(x, int)][:2]
    return kv_type(T, T.ai.fields(ty)[0])


def map_source(T, name, begin=None):
    """a stream of the entries of a map, each key rendered by its string conversion, with its own value"""
    src = Source(T, name, begin)
    ai, P = T.ai, T.P
    st = T.fresh_state()
    n = st.num.fresh(0, 1 << 50)
    kt, vt = kv_type(T, src.srcty)
    o = ai.new_obj(st, ("seq", (("pre", ("K", "kv"), n),), ("kv", kt, vt)), None, "s")
    arg = ("p", ai.new_obj(st, nest(T, src.srcty, ("o", o)), src.srcty, "s"), (), None)
    st.gh["len"] = n
    base = set(st.heap)

    def item(s, n, y):
        cow, dyn = y[2]
        path, ty = dyn_at(T, s, dyn, o)
        if path is None or len(path) != 2 or path[0][0] != "i" or path[1] != 1 or s.num.evalc(eq(n, path[0][1])) is not True or ty != vt:
            return False
        ps = T.cow_text(s, cow)
        if not ps or len(ps) != 1 or ps[0][1] != "sl":
            return False
        r = ps[0][2]
        if s.num.evalc(eq(ps[0][3], 0)) is not True:
            return False
        if r[0] == "kstr":
            k = r[2]
            return r[1] == o and len(k) == 2 and k[1] == 0 and s.num.evalc(eq(n, k[0][1])) is True
        return r[0] == "ksrc" and s.num.evalc(eq(n, r[1])) is True
    starts = [(s, v, base) for s, v in src.run(st, arg)]
    return drive_stream(T, src, starts, "serializing " + name, item, lambda s: s.gh["len"])


# ---- derived code ------------------------------------------------------------------------------------
def struct_source(T, name, names):
    """every field once, in declaration order, under its name"""
    src = Source(T, name)
    st = T.fresh_state()
    ft = T.ai.fields(src.srcty)
    if len(ft) != len(names):
        raise Anchor("witness struct " + name)
    tok = ("t", 0, ("K", "value"))
    o = T.ai.new_obj(st, ("a", 0, tuple(tok for _ in ft)), src.srcty, "s")
    base = set(st.heap)

    def item(s, n, y):
        cow, dyn = y[2]
        path, ty = dyn_at(T, s, dyn, o)
        if path is None or len(path) != 1 or not isinstance(path[0], int) or s.num.evalc(eq(n, path[0])) is not True or ty != ft[path[0]]:
            return False
        ps = T.cow_text(s, cow)
        return ps is not None and all(p[1] == "lit" for p in ps) and b"".join(p[2] for p in ps) == names[path[0]]
    starts = [(s, v, base) for s, v in src.run(st, ("p", o, (), None))]
    for s, v, b in starts:
        T.check(s, src.variant(v) == "Map", "content", "serializing %s: not given as an object" % name)
    drive_stream(T, src, starts, "serializing " + name, item, lambda s: len(ft))


def enum_source(T, name, names):
    """each variant gives its name as a string"""
    src = Source(T, name)
    P = T.P
    if len(P.ty(src.srcty)["variants"]) != len(names):
        raise Anchor("witness enum " + name)
    for i, b in enumerate(names):
        st = T.fresh_state()
        o = T.ai.new_obj(st, ("a", i, ()), src.srcty, "s")
        what = "serializing %s" % name
        n = 0
        for s, v in src.run(st, ("p", o, (), None)):
            n += 1
            if T.check(s, src.variant(v) == "Str", "content", what + ": a variant is not given as a string"):
                ps = T.cow_text(s, v[2][0])
                T.check(s, ps is not None and all(p[1] == "lit" for p in ps) and b"".join(p[2] for p in ps) == b, "content",
                        what + ": a variant is given another name")
        T.check(st, n > 0, "content", what + ": begin() has no outcome")


# ---- the untyped value -------------------------------------------------------------------------------
def value_source(T):
    """each variant gives the fragment of its kind and payload"""
    src = Source(T, "value")
    P, ai = T.P, T.ai
    vt = src.srcty
    vs = {v["name"]: (i, [f for _, f in v["fields"]]) for i, v in enumerate(P.ty(vt)["variants"])}
    covered = set()

    def go(name, payload, good, st):
        covered.add(name)
        v = ("a", vs[name][0], tuple(payload))
        o = ai.new_obj(st, v, vt, "s")
        n = 0
        what = "serializing a value holding " + name
        for s, f in src.run(st, ("p", o, (), None)):
            n += 1
            T.check(s, good(s, f), "content", what + ": gives the wrong fragment")
        T.check(st, n > 0, "content", what + ": begin() has no outcome")
    st = T.fresh_state()
    go("Null", [], lambda s, f: src.variant(f) == "Null", st.copy())
    s1 = st.copy()
    b = ("c", "ne0", s1.num.fresh(0, 1))
    go("Bool", [b], lambda s, f: src.variant(f) == "Bool" and same_bool(T, s, f[2][0], b), s1)
    nt = vs["Number"][1][0]
    s1 = st.copy()
    n = s1.num.fresh(*RANGES["u64"])
    go("Number", [("a", variant(P, nt, "U64"), (n,))], lambda s, f: int_fragment(T, s, src, f, n), s1)
    s2 = st.copy()
    m = s2.num.fresh(*RANGES["i64"])
    go("Number", [("a", variant(P, nt, "I64"), (m,))], lambda s, f: int_fragment(T, s, src, f, m), s2)
    x = ("x", "source", "64")
    go("Number", [("a", variant(P, nt, "F64"), (x,))], lambda s, f: src.variant(f) == "F64" and f[2][0] == x, st.copy())
    s1 = st.copy()
    ln = s1.num.fresh(0, 1 << 40)
    o = ai.new_obj(s1, ("txt", (("P", "sl", ("text",), 0, ln),)), None, "s")
    go("String", [("a", 0, (("o", o),))], lambda s, f: src.variant(f) == "Str" and text_is(T, s, T.cow_text(s, f[2][0]), ("text",), ln), s1)
    # containers: a stream of exactly the contents, as for the stand-alone container
    for name in ("Array", "Object"):
        covered.add(name)
        st = T.fresh_state()
        n = st.num.fresh(0, 1 << 50)
        ct = vs[name][1][0]
        st.gh["len"] = n
        if name == "Array":
            o = ai.new_obj(st, ("seq", (("pre", ("K", "src"), n),), element_type(T, ct)), None, "s")
        else:
            o = ai.new_obj(st, ("seq", (("pre", ("K", "kv"), n),), ("kv",) + tuple(kv_type(T, ct))), None, "s")
        h = ai.new_obj(st, ("a", vs[name][0], (nest(T, ct, ("o", o)),)), vt, "s")
        base = set(st.heap)
        starts = [(s, v, base) for s, v in src.run(st, ("p", h, (), None))]
        what = "serializing a value holding " + name
        T.check(st, bool(starts), "content", what + ": begin() has no outcome")
        for s, v, _ in starts:
            T.check(s, src.variant(v) == {"Array": "Seq", "Object": "Map"}[name], "content", what + ": gives the wrong fragment")

        def item(s, k, y, o=o, name=name):
            dyn = y if name == "Array" else y[2][1]
            path, ty = dyn_at(T, s, dyn, o)
            if path is None or path[0][0] != "i" or s.num.evalc(eq(k, path[0][1])) is not True or ty != vt:
                return False
            if name == "Array":
                return len(path) == 1
            ps = T.cow_text(s, y[2][0])
            return (len(path) == 2 and path[1] == 1 and len(ps) == 1 and ps[0][1] == "sl" and ps[0][2][0] in ("ksrc", "kstr") and
                    s.num.evalc(eq(ps[0][3], 0)) is True and
                    s.num.evalc(eq(k, ps[0][2][1] if ps[0][2][0] == "ksrc" else ps[0][2][2][0][1])) is True)
        drive_stream(T, src, starts, what, item, lambda s: s.gh["len"])
    if set(vs) != covered:
        raise Anchor("variants of the untyped value: %s" % sorted(vs))
