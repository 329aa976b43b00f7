"""Obligations on deserialization targets, decided by abstract interpretation of the compiled bodies (see ai.py)."""
from targets import *

RANGES = {"i8": (-128, 127), "i16": (-(1 << 15), (1 << 15) - 1), "i32": (-(1 << 31), (1 << 31) - 1),
          "i64": (-(1 << 63), (1 << 63) - 1), "isize": (-(1 << 63), (1 << 63) - 1),
          "u8": (0, 255), "u16": (0, (1 << 16) - 1), "u32": (0, (1 << 32) - 1), "u64": (0, (1 << 64) - 1),
          "usize": (0, (1 << 64) - 1)}
DOMAIN = {"negative": ((-(1 << 63), 0),), "nonnegative": ((0, (1 << 64) - 1),)}

LAX = ("element visitors store a value whenever they report success; histories in which one does not are still explored, but "
       "only for memory safety")


def container(P, name):
    op = ["witness::DTok", "witness::KTok", "witness::ZTok"]
    if name in ("array", "value", "object"):
        op.append("miniserde::json::Value")
    return Targets(P, op)


def report(r, T, keep=None):
    """findings of an exploration -> violations; keep: predicate over kinds"""
    for (kind, what), text in list(T.finds.items()) + list(T.ai.alarms.items()):
        if keep is None or kind == "unsupported" or keep(kind):
            r.violation("%s: %s" % (kind, what), text)
    r.count("callbacks_explored", T.calls)
    r.count("obligations", T.obl)
    r.count("abstract_steps", T.ai.steps)
    fs = set(r.cov.setdefault("_fns", []))
    for i in T.ai.fns:
        n = canon_name(T.P.inst(i)["name"])
        if "miniserde" in n or "witness" in n:
            fs.add(n)
    r.cov["_fns"] = sorted(fs)


def finish(r, floor):
    fs = sorted(set(r.cov.pop("_fns", [])) | set(r.cov.get("functions", ())))
    r.cov["functions_analysed"] = len(fs)
    r.cov["functions"] = fs
    r.floor("obligations", floor)


def kinds_of(T, tg, kinds, also=None):
    """every scalar callback on a fresh target: (kind, args, state, result) per outcome"""
    for kind in kinds:
        for st, out, vis in tg.fresh():
            a = kind_args(T, st, kind)
            what = "%s given %s" % (tg.name, kind)
            for s, v, u in T.call(st, T.P.entry("v_" + kind), [vis] + a, kind + "()"):
                if u:
                    T.check(s, False, "panic", what + ": panics")
                else:
                    yield kind, a, s, v, what
                T.end(s, [(out, tg.outty)], what)


def refused(T, s, v, what):
    if T.check(s, not is_ok(v), "content", what + ": is accepted"):
        T.check(s, opt_none(T_out(s)), "content", what + ": is refused but something was stored")


def stored_value(T, s, v, what):
    """the value a successful callback stored, None if it did not"""
    if not T.check(s, is_ok(v), "content", what + ": is refused"):
        return None
    o = T_out(s)
    if not T.check(s, o[0] == "a" and o[1] == 1, "content", what + ": succeeds without storing a value"):
        return None
    return o[2][0]


def same_bool(T, s, x, a):
    x, a = T.ai.normv(s, x), T.ai.normv(s, a)

    def val(z):
        if isinstance(z, bool):
            return int(z)
        if isinstance(z, tuple) and z[0] == "c":
            return z
        return z
    return val(x) == val(a)


def string_is(T, s, v, reg, ln):
    """v is a String holding exactly the region's text"""
    while v[0] == "a" and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != "o" or v[1] not in s.heap or s.heap[v[1]][0] != "txt":
        return False
    ps = norm_pieces(T.ai, s, s.heap[v[1]][1])
    if not ps:
        return s.num.evalc(eq(ln, 0)) is True
    return (len(ps) == 1 and ps[0][1] == "sl" and ps[0][2] == reg and s.num.evalc(eq(ps[0][3], 0)) is True
            and s.num.evalc(eq(ps[0][4], ln)) is True)


def integer_target(T, name):
    """accepts exactly the delivered integers in range and stores exactly them"""
    lo, hi = RANGES[name]
    tg = Target(T, "t_" + name)
    seen = {"negative": (), "nonnegative": ()}
    for kind, a, s, v, what in kinds_of(T, tg, KINDS[:6]):
        if kind not in DOMAIN:
            refused(T, s, v, what)
            continue
        n = a[0]
        dom = s.num.iset(n)
        inside = iinter(dom, ((lo, hi),))
        if kind == "negative" and name.startswith("u"):
            # only the "negative" zero could be representable; the library may refuse it
            inside = iinter(inside, ((0, 0),)) if is_ok(v) else ()
        if is_ok(v):
            if T.check(s, dom == inside, "content", what + ": a value out of range is accepted"):
                x = stored_value(T, s, v, what)
                if x is not None:
                    T.check(s, not isinstance(x, tuple) and s.num.evalc(eq(x, n)) is True, "content",
                            what + ": stores a different value")
            seen[kind] = iunion(seen[kind], dom) if seen[kind] else dom
        else:
            T.check(s, not inside, "content", what + ": a value in range is refused")
            T.check(s, opt_none(T_out(s)), "content", what + ": is refused but something was stored")
            seen[kind] = iunion(seen[kind], dom) if seen[kind] else dom
    for kind, d in DOMAIN.items():
        T.check(T.fresh_state(), seen[kind] == d, "content", "%s given %s: some delivered integers have no outcome" % (tg.name, kind))
    return tg


def is_term(x, name, *args):
    return isinstance(x, tuple) and x[0] == "x" and x[1] == name and tuple(x[2:]) == args


def float_conv(T, s, x, kind, a, bits):
    """x is the delivered number as the nearest float of that width"""
    if kind == "float":
        return x == a[0] if bits == "64" else is_term(x, "f2f", a[0], "32")
    return isinstance(x, tuple) and x[0] == "x" and x[1] == "i2f" and x[3] == bits and s.num.evalc(eq(x[2], a[0])) is True


def variant(P, ty, name):
    vs = P.ty(ty)["variants"]
    i = [i for i, v in enumerate(vs) if v["name"] == name]
    if not i:
        raise Anchor("variant %s" % name)
    return i[0]


SCALARS = {
    "unit": ("null",), "boolean": ("boolean",), "string": ("string",), "number": ("negative", "nonnegative", "float"),
    "t_f32": ("negative", "nonnegative", "float"), "t_f64": ("negative", "nonnegative", "float"),
}
for _n in RANGES:
    SCALARS["t_" + _n] = ("negative", "nonnegative") if _n[0] == "i" else ("nonnegative",)


def delivered(T, s, name, x, kind, a):
    """x, stored by target `name`, is the delivered payload"""
    P = T.P
    if name == "unit":
        return x == UNIT
    if name == "boolean":
        return same_bool(T, s, x, a[0])
    if name == "string":
        return string_is(T, s, x, ("other",), a[0][3])
    if name == "number":
        nt = T.numty
        want = variant(P, nt, {"negative": "I64", "nonnegative": "U64", "float": "F64"}[kind])
        if x[0] != "a" or x[1] != want:
            return False
        y = x[2][0]
        return y == a[0] if kind == "float" else s.num.evalc(eq(y, a[0])) is True
    if name in ("t_f32", "t_f64"):
        return float_conv(T, s, x, kind, a, name[3:])
    return not isinstance(x, tuple) and s.num.evalc(eq(x, a[0])) is True


def number_type(T):
    t = T.ai.pointee(T.P.body(T.P.entry("de_begin::number")).locals[1])
    return T.P.ty(t)["variants"][1]["fields"][0][1]


def scalar_target(T, name):
    """accepts its own kinds only, storing the delivered payload"""
    tg = Target(T, name)
    T.numty = number_type(T)
    own = SCALARS[name]
    got = set()
    for kind, a, s, v, what in kinds_of(T, tg, KINDS[:6]):
        got.add(kind)
        if kind not in own:
            if name[2:] in RANGES and kind == "negative" and is_ok(v):
                continue            # the negative zero; ranges are a different obligation
            refused(T, s, v, what)
            continue
        if name[2:] in RANGES and not is_ok(v):
            continue                # out of range
        x = stored_value(T, s, v, what)
        if x is not None:
            T.check(s, delivered(T, s, name, x, kind, a), "content", what + ": stores a different value")
    for kind in ("seq", "map"):
        for st, out, vis in tg.fresh():
            for s, v, u in T.call(st, T.P.entry("v_" + kind), [vis], kind + "()"):
                what = "%s given %s" % (name, kind)
                T.check(s, not u, "panic", what + ": panics")
                if not u:
                    got.add(kind)
                    refused(T, s, v, what)
                T.end(s, [(out, tg.outty)], what)
    T.check(T.fresh_state(), got == set(KINDS), "content", "%s: some callbacks have no outcome" % name)


# ---- transparency of Box and Option -----------------------------------------------------------------
def unbox(T, s, v):
    """the value a Box owns, None if v is not a box"""
    w = v
    for _ in range(6):
        if w[0] == "p":
            x = s.heap.get(w[1])
            return x if not w[2] else None
        if w[0] == "a" and w[2]:
            w = w[2][0]
            continue
        break
    return None


def wrapped_token(T, s, name, v):
    """v: value of the outer slot's Some; is it the wrapped token of the inner value?"""
    if name.endswith("boxed"):
        x = unbox(T, s, v)
        return x if x is not None and x[0] == "t" else None
    if v[0] == "a" and v[1] == 1 and v[2][0][0] == "t":
        return v[2][0]
    return None


def one_call(T, s, what, name, args):
    """exactly one inner call of that method with exactly those arguments since the log was reset"""
    log = [x for x in s.gh.get("calls", ()) if x != ("K", "drop")]
    ok_ = len(log) == 1 + len(args) and log[0] == ("K", name)
    for x, y in zip(log[1:], args):
        if isinstance(y, tuple) and y[0] in ("p", "x"):
            ok_ = ok_ and x == y
        elif isinstance(y, tuple):
            ok_ = ok_ and same_bool(T, s, x, y)
        else:
            ok_ = ok_ and not isinstance(x, tuple) and s.num.evalc(eq(x, y)) is True
    return T.check(s, ok_, "content", what + ": is not passed on unchanged to the wrapped type exactly once")


def transparent_de(T, name):
    tg = Target(T, name)
    P, ai = T.P, T.ai
    first = [(s, o, v) for s, o, v in tg.fresh()]
    # a slot that already holds a value
    for s, o, v in list(first):
        for s2, w, u in T.call(s.copy(), P.entry("v_nonnegative"), [v, 7], "an earlier round stores a value"):
            if not u and is_ok(w):
                for s3, w3, u3 in T.call(s2, tg.begin, [("p", o, (), None)], "begin of " + name):
                    if not u3:
                        first.append((s3, o, w3))
    for st0, out, vis in first:
        for kind in KINDS[:6]:
            st = st0.copy()
            st.gh["calls"] = ()
            st.gh["failed"] = False
            a = kind_args(T, st, kind)
            what = "%s given %s" % (name, kind)
            for s, v, u in T.call(st, P.entry("v_" + kind), [vis] + a, kind + "()"):
                if name.endswith("option") and kind == "null":
                    T.check(s, not s.gh["calls"], "content", what + ": reaches the wrapped type")
                    T.check(s, not u, "panic", what + ": panics")
                    if not u and T.check(s, is_ok(v), "content", what + ": is refused"):
                        T.check(s, T_out(s) == some(NONE), "content", what + ": does not store None")
                elif not u:
                    one_call(T, s, what, kind, a)
                    if T.check(s, is_ok(v) == (not s.gh["failed"]), "content", what + ": result differs from the wrapped type's") and is_ok(v):
                        o = T_out(s)
                        t = wrapped_token(T, s, name, o[2][0]) if o[0] == "a" and o[1] == 1 else None
                        T.check(s, t is not None and t[2] == ("K", "elem"), "content", what + ": does not store the wrapped type's value")
                T.end(s, [(out, tg.outty)], what)
        forward_builder(T, tg, name, "seq", (st0.copy(), out, vis))
        forward_builder(T, tg, name, "map", (st0.copy(), out, vis))


def forward_builder(T, tg, name, kind, start):
    """the builder handed out passes every call on to the wrapped type's builder"""
    P, ai = T.P, T.ai
    step_fn = P.entry("s_element" if kind == "seq" else "m_key")
    fin = P.entry("s_finish" if kind == "seq" else "m_finish")
    bty = ai.pointee(P.body(step_fn).locals[1])
    st, out, vis = start
    st.gh["calls"] = ()
    st.gh["failed"] = False
    what = "%s given %s" % (name, kind)
    inits = []
    mname = "element" if kind == "seq" else "key"

    def close(s, note, hb=True):
        o = s.gh["out"][1]
        objs = [(o, tg.outty)]
        s.gh["calls"] = ()
        if hb:
            h = s.gh.pop("hb")[1]
            objs = [(h, bty)] + objs
        ai.note(s, note)
        for s2 in T.end(s, objs, what):
            if hb and not s2.unwinding:
                n = list(s2.gh.get("calls", ())).count(("K", "drop"))
                T.check(s2, n + (1 if s2.gh.get("predrop") else 0) == 1, "content", what + ": the wrapped type's builder is not dropped exactly once")

    for s, v, u in T.call(st, P.entry("v_" + kind), [vis], kind + "()"):
        if not u:
            one_call(T, s, what, kind, [])
            T.check(s, is_ok(v) == (not s.gh["failed"]), "content", what + ": result differs from the wrapped type's")
        if u or not is_ok(v):
            close(s, "refused", False)
            continue
        hb = ai.new_obj(s, v[2][0], bty)
        s.gh["hb"] = ("o", hb)
        inits.append(s)

    def step(st):
        nxt = []
        hb = st.gh["hb"][1]
        close(st.copy(), "builder dropped early")
        st.gh["calls"] = ()
        st.gh["failed"] = False
        k = st.copy()
        a = []
        if kind == "map":
            ln = k.num.fresh(0, 1 << 40)
            k.heap[("in", "K")] = ("reg", ("other",), ln)
            a = [("p", ("in", "K"), (("i", 0),), ln)]
        for s, v, u in T.call(k, step_fn, [("p", hb, (), None)] + a, mname + "()"):
            if u:
                close(s, "unwinding")
                continue
            one_call(T, s, what + ": " + mname, mname, a)
            T.check(s, is_ok(v) == (not s.gh["failed"]), "content", what + ": %s() result differs from the wrapped type's" % mname)
            if not is_ok(v):
                close(s, "refused")
                continue
            p = ai.unwrap_ptr(v[2][0])
            T.check(s, p[0] == "p" and p[3] == ("env", ("K", "sub")) and ("o", p[1]) == s.gh.get("inner"), "content",
                    what + ": %s() does not return the wrapped type's place" % mname)
            s.gh["calls"] = ()
            s.heap[("in", "K")] = ("reg", ("gone",), 0)
            nxt.append(s)
        for s, v, u in T.call(st, fin, [("p", hb, (), None)], "finish()"):
            if u:
                close(s, "unwinding")
                continue
            one_call(T, s, what + ": finish", "finish", [])
            if T.check(s, is_ok(v) == (not s.gh["failed"]), "content", what + ": finish() result differs from the wrapped type's") and is_ok(v):
                o = T_out(s)
                t = wrapped_token(T, s, name, o[2][0]) if o[0] == "a" and o[1] == 1 else None
                T.check(s, t is not None and t[2] == ("K", "elem"), "content", what + ": does not store the wrapped type's value")
            s.gh["predrop"] = ("K", "drop") in s.gh["calls"]
            close(s, "finished")
        return nxt
    T.fixpoint(inits, step)


# ---- derived enums ---------------------------------------------------------------------------------
def key_text(T, s, b):
    s.heap[("in", "S")] = ("txt", (("P", "lit", b),)) if b else ("txt", ())
    return ("p", ("in", "S"), (("i", 0),), len(b))


def enum_target(T, name, names):
    """names[i], and nothing else, gives variant i"""
    tg = Target(T, name)
    P = T.P
    T.names = tuple(names)
    seen = set()
    for i, b in list(enumerate(names)) + [(None, None)]:
        for st, out, vis in tg.fresh():
            arg = key_text(T, st, b) if b is not None else kind_args(T, st, "string")[0]
            what = "%s given %s" % (name, "the name of a variant" if b is not None else "another string")
            n = 0
            for s, v, u in T.call(st, P.entry("v_string"), [vis, arg], "string(%s)" % (b if b is not None else "other")):
                n += 1
                if not T.check(s, not u, "panic", what + ": panics"):
                    continue
                if b is None:
                    refused(T, s, v, what)
                else:
                    x = stored_value(T, s, v, what)
                    if x is not None:
                        T.check(s, x[0] == "a" and x[1] == i, "content", what + ": stores another variant")
                T.end(s, [(out, tg.outty)], what)
            T.check(st, n > 0, "content", what + ": has no outcome")
    for kind, a, s, v, what in kinds_of(T, tg, [k for k in KINDS[:6] if k != "string"]):
        refused(T, s, v, what)
    for kind in ("seq", "map"):
        for st, out, vis in tg.fresh():
            for s, v, u in T.call(st, P.entry("v_" + kind), [vis], kind + "()"):
                if T.check(s, not u, "panic", "%s given %s: panics" % (name, kind)):
                    refused(T, s, v, "%s given %s" % (name, kind))
                T.end(s, [(out, tg.outty)], name)
    vs = P.ty(P.ty(tg.outty)["variants"][1]["fields"][0][1])["variants"]
    if len(vs) != len(names):
        raise Anchor("witness enum " + name)


def defaults(T, name, optional):
    """a missing value of this type: absent, except for Option"""
    f = T.P.entry("de_default::" + name)
    n = 0
    st = T.fresh_state()
    for s, v, u in T.call(st, f, [], "default()"):
        n += 1
        if T.check(s, not u, "panic", "%s: default() panics" % name):
            T.check(s, v == (some(NONE) if optional else NONE), "content",
                    "%s: a missing value %s" % (name, "does not count as None" if optional else "is made up"))
    T.check(st, n > 0, "content", "%s: default() has no outcome" % name)


# ---- the untyped value -------------------------------------------------------------------------------
def value_target(T):
    """each scalar callback stores the corresponding variant with the delivered payload"""
    tg = Target(T, "value")
    P = T.P
    vt = P.ty(tg.outty)["variants"][1]["fields"][0][1]
    T.numty = number_type(T)
    want = {"null": "Null", "boolean": "Bool", "string": "String", "negative": "Number", "nonnegative": "Number", "float": "Number"}
    got = set()
    for kind, a, s, v, what in kinds_of(T, tg, KINDS[:6]):
        got.add(kind)
        x = stored_value(T, s, v, what)
        if x is None:
            continue
        if not T.check(s, x[0] == "a" and x[1] == variant(P, vt, want[kind]), "content", what + ": stores another kind of value"):
            continue
        y = x[2][0] if x[2] else UNIT
        name = {"null": "unit", "boolean": "boolean", "string": "string"}.get(kind, "number")
        T.check(s, delivered(T, s, name, y, kind, a), "content", what + ": stores a different value")
    T.check(T.fresh_state(), got == set(KINDS[:6]), "content", "value: some callbacks have no outcome")
    return vt


# ---- owning conversions --------------------------------------------------------------------------------
def into_iter(T, fn, what):
    """the iterator holds exactly the container's contents; everything is freed exactly once"""
    P, ai = T.P, T.ai
    f = P.entry(fn)
    b = P.body(f)
    cty, ity = b.locals[1], b.locals[0]
    import sercheck
    for shape in ("empty", "one", "two", "many"):
        st = T.fresh_state()
        items = ()
        if shape == "many":
            n = st.num.fresh(1, 1 << 50)
            items = (("pre", ("K", "sync"), n),)
            st.gh["syncowned"] = True
        if shape != "empty":
            for i in range(1 if shape == "one" else 2):
                v = T.new_token(st, "elem", i)
                if "object" in fn:
                    o = ai.new_obj(st, ("txt", (("P", "sl", ("ksrc", i), 0, 3),)), None, "h")
                    v = ("a", 0, (("a", 0, (("o", o),)), v))
                items += (v,)
        if "object" in fn:
            c = ("seq", items, ("kv",) + tuple(sercheck.kv_type(T, cty)))
        else:
            c = ("seq", items, sercheck.element_type(T, cty))
        o = ai.new_obj(st, c, None, "h")
        n = 0
        for s, v, u in T.call(st, f, [sercheck.nest(T, cty, ("o", o))], what):
            n += 1
            if not T.check(s, not u, "panic", what + ": panics"):
                continue
            w = v
            while w[0] == "a" and w[2]:
                w = w[2][0]
            T.check(s, w[0] == "o" and w[1] in s.heap and s.heap[w[1]][1] == items, "content", what + ": the iterator does not hold exactly the contents")
            h = ai.new_obj(s, v, ity)
            T.end(s, [(h, ity)], what)
        T.check(st, n > 0, "content", what + ": has no outcome")
