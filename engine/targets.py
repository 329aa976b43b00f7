"""A client of the deserialization and serialization traits with opaque element types: every value an element visitor
stores is a token whose life is tracked, user code may succeed, fail or panic at every call."""
from harness import *
from models import text_of, norm_pieces, new_coll, is_pre
from normal import canon_name

# why an alarm matters: property families are decided by the checks
MEM = ("uaf", "uninit", "ub", "oob", "token", "leak")


def opt_none(v):
    return v[0] == "a" and v[1] == 0


class Targets(Client):
    """opaque: definition paths whose values are tokens"""

    def __init__(self, P, opaque=("witness::DTok", "witness::KTok", "witness::STok", "witness::CTok", "witness::ZTok", "witness::ZSTok")):
        super().__init__(P)
        self.opaque = set(opaque)
        self.names = ()
        self.rawbegin = None
        self.user_panics = True
        self.drop_panics = False
        self.lax_panic = "unwrap of None or Err"

    # ---- tokens ---------------------------------------------------------------------------------
    def new_token(self, st, kind, *data):
        self.ai.uid += 1
        t = ("t", self.ai.uid, ("K", kind)) + data
        st.gh["toks"] = st.gh.get("toks", ()) + (t,)
        return t

    def live(self, st, t):
        return any(x[1] == t[1] for x in st.gh.get("toks", ()))

    def drop_token(self, st, t):
        ts = st.gh.get("toks", ())
        n = tuple(x for x in ts if x[1] != t[1])
        if len(n) == len(ts):
            self.ai.alarm(st, "token", "a value is dropped twice")
            raise Dead()
        st.gh["toks"] = n

    def is_opaque(self, ty):
        d = self.P.ty(ty)
        return d["k"] == "adt" and canon_name(d["def"]) in self.opaque

    def drop(self, ai, st, ty, ptr):
        if not self.is_opaque(ty):
            if "miniserde::json::Value" in self.opaque:
                # dropping containers of opaque values drops exactly their contents (how, is decided separately)
                d = self.P.ty(ty)
                if d["k"] == "adt" and canon_name(d["def"]) in ("miniserde::json::Array", "miniserde::json::Object"):
                    return tuple((("p", ptr[1], ptr[2] + (i,), None), f) for i, f in enumerate(ai.fields(ty)))
            return False
        v = ai.read(st, ptr[1], ptr[2])
        if v == UNINIT:
            ai.alarm(st, "uninit", "drop of an uninitialised or moved value")
            raise Dead()
        if v[0] != "t":
            if v[0] == "a":
                return False
            raise Unsupported("drop of opaque value %s" % (v[:2],))
        self.drop_token(st, v)
        if self.drop_panics and not st.unwinding and not st.gh.get("dp"):
            return Fork(lambda s: True, self._drop_panic)
        return True

    def _drop_panic(self, s):
        self.ai.note(s, "a value's drop panics")
        s.gh["dp"] = True
        raise Unwind()

    def drop_pre(self, ai, st, item):
        # the summarised prefix of delivered elements is dropped
        if not st.gh.get("syncowned"):
            ai.alarm(st, "token", "a value is dropped twice")
            raise Dead()
        st.gh["syncowned"] = False

    # ---- models of opaque types -------------------------------------------------------------------
    def model(self, path, inst, inf):
        for o in self.opaque:
            if path == "<%s as miniserde::Deserialize>::begin" % o:
                return self.m_begin
            if path == "<%s as miniserde::Deserialize>::default" % o:
                return self.m_default
            if path == "<%s as std::str::FromStr>::from_str" % o:
                return self.m_from_str
            if path == "<%s as miniserde::Serialize>::begin" % o:
                return self.m_ser_begin
        if path == "miniserde::Deserialize::default" and inf["args"] and self.is_opaque(inf["args"][0]):
            return self.m_default
        if path == "std::str::<impl str>::parse" and len(inf["args"]) and any(isinstance(x, int) and self.is_opaque(x) for x in inf["args"]):
            return self.m_from_str
        return None

    def m_begin(self, ai, st, a, c):
        if len(st.frames) == 1 and st.frames[0].inst == self.rawbegin:
            return NotImplemented
        p = ai.unwrap_ptr(a[0])
        if p == UNINIT:
            ai.alarm(st, "uninit", "use of an uninitialised pointer")
            raise Dead()
        v = ai.read(st, p[1], p[2])         # must be readable: a live Option
        if v == UNINIT:
            ai.alarm(st, "uninit", "an uninitialised slot is handed out")
            raise Dead()
        r = ("p", p[1], p[2], ("env", ("K", "vis")))
        outs = [lambda s: r]
        if self.user_panics:
            outs.append(self._panic)
        return Fork(*outs)

    def _panic(self, s):
        self.ai.note(s, "user code panics")
        raise Unwind()

    def m_default(self, ai, st, a, c):
        # one type's default() always answers alike
        def d(s):
            s.gh["defmode"] = "some"
            t = self.new_token(s, "default")
            ai.note(s, "default() gives a value")
            return some(t)

        def no(s):
            s.gh["defmode"] = "none"
            return NONE
        m = st.gh.get("defmode")
        outs = [no] * (m != "some") + [d] * (m != "none")
        if self.user_panics:
            outs.append(self._panic)
        return Fork(*outs)

    def m_from_str(self, ai, st, a, c):
        ps = text_of(ai, st, a[0])
        idx = self.key_index(st, ps)

        def good(s):
            return ok(self.new_token(s, "key", idx))
        outs = [good, lambda s: (ai.note(s, "key does not parse"), s.gh.__setitem__("keyfail", True), err())[2]]
        if self.user_panics:
            outs.append(self._panic)
        return Fork(*outs)

    def key_index(self, st, ps):
        """index of the key whose whole text this is, or -1"""
        if len(ps) == 1 and ps[0][1] == "sl" and ps[0][2][0] == "kt":
            _, idx, ln = ps[0][2]
            if st.num.evalc(eq(ps[0][3], 0)) is True and st.num.evalc(eq(ps[0][4], ln)) is True:
                return idx
        return -1

    def m_ser_begin(self, ai, st, a, c):
        raise Unsupported("begin of an element inside a container")

    def panic(self, ai, st, what):
        if st.gh.get("lax"):
            return
        self.bad(st, "panic", "%s in %s" % (what, ai.owner(st)))
        raise Dead()

    def text_eq(self, ai, st, x, y):
        for p, q in ((x, y), (y, x)):
            if len(p) == 1 and p[0][1] == "sl" and p[0][2] == ("other",):
                if all(z[1] == "lit" for z in q):
                    b = b"".join(z[2] for z in q)
                    if b in self.names:
                        return False
                    key = ("pred", "othereq", b)
                    if key in st.num.memo:
                        return st.num.memo[key]
                    raise Split([("pred", key, True)], [("pred", key, False)])
        return None

    # ---- opaque builders (what an opaque visitor's seq()/map() returns) ----------------------------
    def virtual(self, ai, st, meta, dty, path, idx, args):
        kind = meta[1][1]
        p = ai.unwrap_ptr(args[0])
        name = path.split("::")[-1]
        if kind == "vis":
            slot = ("p", p[1], p[2], None)
            self.touch(ai, st, slot)
            st.gh["calls"] = st.gh.get("calls", ()) + (("K", name),) + tuple(args[1:])
            if name in ("seq", "map"):
                def mk(s):
                    o = ai.new_obj(s, ("t", 0, ("K", "builder")), None, "h")
                    s.gh["inner"] = ("o", o)
                    s.gh["innerslot"] = slot
                    return ok(models.box_value(ai, ("p", o, (), ("env", ("K", "i" + name)))))
                return self.forks(mk)

            def store(s):
                self.put(s, slot, self.new_token(s, "elem", s.gh.get("n", 0)))
                return ok()
            return self.forks(store)
        if kind in ("iseq", "imap"):
            self.touch(ai, st, p)
            st.gh["calls"] = st.gh.get("calls", ()) + (("K", name),) + tuple(args[1:])
            if name == "finish":
                def fin(s):
                    slot = s.gh["innerslot"]
                    self.touch(ai, s, slot)
                    self.put(s, slot, self.new_token(s, "elem", s.gh.get("n", 0)))
                    return ok()
                return self.forks(fin)

            def el(s):
                return ok(("p", p[1], (), ("env", ("K", "sub"))))
            return self.forks(el)
        raise Unsupported("virtual call %s on %s" % (name, kind))

    def forks(self, good):
        outs = [good, lambda s: (self.ai.note(s, "inner callback fails"), s.gh.__setitem__("failed", True), err(UNIT))[2]]
        if self.user_panics:
            outs.append(self._panic)
        return Fork(*outs)

    def touch(self, ai, st, p):
        ai.read(st, p[1], p[2])

    def put(self, st, slot, tok):
        """*slot = Some(tok), dropping what was there"""
        old = self.ai.read(st, slot[1], slot[2])
        if old == UNINIT:
            self.ai.alarm(st, "uninit", "a visitor stores into an uninitialised slot")
            raise Dead()
        if old[0] == "a" and old[1] == 1:
            self.drop_token(st, old[2][0])
        self.ai.write(st, slot[1], slot[2], some(tok))

    def drop_dyn(self, ai, st, meta, ptr):
        if meta[0] == "env" and meta[1][1] in ("iseq", "imap"):
            self.touch(ai, st, ptr)
            st.gh["calls"] = st.gh.get("calls", ()) + (("K", "drop"),)
            if st.gh.get("innerslot") is not None:
                self.touch(ai, st, st.gh["innerslot"])
            st.gh["innerslot"] = None
            if self.drop_panics and not st.unwinding and not st.gh.get("dp"):
                return Fork(lambda s: None, self._drop_panic)
            return
        raise Unsupported("drop of %s" % (meta,))

    def map_insert(self, ai, st, o, v, pl, k, val):
        from models import regrow

        def ins(s):
            o2, v2, pl2 = models.handle(ai, s, ("p", pl[0], pl[1], None))
            regrow(ai, s, o2, pl2, ("seq", v2[1] + (("a", 0, (k, val)),)) + v2[2:])

        def fresh(s):
            ins(s)
            return NONE

        def repl(s):
            ins(s)
            ai.note(s, "the key was already present")
            s.gh["repeated"] = True
            # the key stays, the new key value is dropped by the map; the old value comes back
            return some(self.new_token(s, "old"))
        if not v[1]:
            return fresh(st)
        return Fork(fresh, repl)

    # ---- folding of delivered elements -------------------------------------------------------------
    def item_index(self, st, it):
        """delivery index of a stored element or entry, None if it is not one"""
        if it[0] == "t":
            return it[3] if it[2] == ("K", "elem") else None
        if it[0] == "a" and len(it[2]) == 2:
            k, v = it[2]
            i = self.item_index(st, v) if v[0] == "t" else None
            if i is None:
                return None
            j = None
            if k[0] == "t":
                j = k[3] if k[2] == ("K", "key") else None
            else:
                w = k
                while w[0] == "a" and w[2]:
                    w = w[2][0]
                if w[0] == "o" and w[1] in st.heap and st.heap[w[1]][0] == "txt":
                    j = self.key_index(st, norm_pieces(self.ai, st, st.heap[w[1]][1]))
            if j is not None and st.num.evalc(eq(i, j)) is True:
                return i
        return None

    def fold(self, st):
        for o in list(st.heap):
            v = st.heap[o]
            if v[0] != "seq" or not v[1]:
                continue
            items = list(v[1])
            n = 0
            rest = items
            if is_pre(items[0]):
                n = items[0][2]
                rest = items[1:]
            elif st.gh.get("syncowned") is not None:
                continue
            k = 0
            for it in rest:
                i = self.item_index(st, it)
                if i is None or st.num.evalc(eq(i, n)) is not True:
                    break
                for x in ([it] if it[0] == "t" else it[2]):
                    if x[0] == "t":
                        self.drop_token(st, x)
                    else:
                        w = x
                        while w[0] == "a" and w[2]:
                            w = w[2][0]
                        if w[0] == "o":
                            st.heap.pop(w[1], None)
                n = st.num.norm(add(n, 1))
                k += 1
            if k:
                st.heap[o] = ("seq", (("pre", ("K", "sync"), n),) + tuple(rest[k:])) + v[2:]
                st.gh["syncowned"] = True

    def prejoin(self, ai, st):
        # the order in which values came into being does not matter
        last = st.gh.get("last") or ()
        ts = st.gh.get("toks", ())
        rank = {t[1]: i for i, t in enumerate(last) if t is not None and t[0] == "t"}
        st.gh["toks"] = tuple(sorted(ts, key=lambda t: (rank.get(t[1], 99), str(t[2:]))))

    def stored(self, st, v):
        """flat list of stored elements of a finished target value"""
        if v == UNINIT:
            return []
        if v[0] == "o":
            c = self.ai.load(st, v[1])
            return list(c[1])
        if v[0] == "arr":
            return list(v[1])
        if v[0] == "a":
            if all(x[0] == "t" for x in v[2]) and v[2]:
                return list(v[2])
            if len(v[2]) == 1:
                return self.stored(st, v[2][0])
            if not v[2]:
                return []
            r = [x for x in v[2] if x != UNIT]
            if len(r) == 1:
                return self.stored(st, r[0])
        if v[0] == "t":
            return [v]
        return None

    def check_stored(self, st, v, n, what, kind="content"):
        """v holds exactly the elements 0..n-1 in order"""
        items = self.stored(st, v)
        if not self.check(st, items is not None, kind, "%s: unrecognised contents" % what):
            return
        i = 0
        for it in items:
            if is_pre(it):
                if not self.check(st, st.num.evalc(eq(i, 0)) is True, kind, "%s: elements out of order" % what):
                    return
                i = it[2]
                continue
            j = self.item_index(st, it) if it != UNINIT else None
            if not self.check(st, j is not None and st.num.evalc(eq(i, j)) is True, kind,
                              "%s: an element is wrong, repeated, missing or out of order" % what):
                return
            i = st.num.norm(add(i, 1))
        self.check(st, st.num.evalc(eq(i, n)) is True, kind, "%s: stores a different number of elements than were delivered" % what)

    # ---- ending a history ----------------------------------------------------------------------------
    def end(self, st, objs, what):
        """drop the harness' objects in order, then nothing may be left"""
        sts = [st]
        for o, ty in objs:
            nxt = []
            for s in sts:
                if o not in s.heap:
                    continue
                for s2, v, u in self.drop_ptr(s, ("p", o, (), None), ty):
                    s2.heap.pop(o, None)
                    if u and not s2.gh.get("dp"):
                        self.bad(s2, "panic", "%s: dropping panics" % what)
                    nxt.append(s2)
            sts = nxt
        for s in sts:
            if s.gh.get("dp"):
                continue
            self.check(s, not s.gh.get("toks"), "leak", "%s: a value is never dropped" % what)
            self.check(s, not s.gh.get("syncowned"), "leak", "%s: stored elements are never dropped" % what)
            left = [o for o in s.heap if o[0] == "h"]
            left = [o for o in left if not (s.heap[o] == UNINIT or s.heap[o] == UNIT or s.heap[o][0] == "arr")]
            self.check(s, not left, "leak", "%s: memory is never freed" % what)
        return sts


class Target:
    """one deserialization target"""

    def __init__(self, T, name, begin=None):
        self.T, self.name = T, name
        P, ai = T.P, T.ai
        self.begin = begin if begin is not None else P.entry("de_begin::" + name)
        T.rawbegin = self.begin if name in ("value", "ovalue") else None
        self.outty = ai.pointee(P.body(self.begin).locals[1])

    variant = None

    def good(self, v):
        """v, the stored value, is of the expected variant"""
        return self.variant is None or (v[0] == "a" and v[1] == self.variant)

    def fresh(self):
        """(state, out object, visitor pointer) after begin"""
        T = self.T
        st = T.fresh_state()
        out = T.ai.new_obj(st, NONE, self.outty)
        st.gh["out"] = ("o", out)
        st.gh["n"] = 0
        res = []
        for s, v, u in T.call(st, self.begin, [("p", out, (), None)], "begin of " + self.name):
            if not u:
                res.append((s, out, v))
        return res

    def prefilled(self, kind, count):
        """like fresh, but the slot already holds a value from an earlier, complete round of `count` elements"""
        T, ai, P = self.T, self.T.ai, self.T.P
        panics, T.user_panics = T.user_panics, False
        el, fin = P.entry({"seq": "s_element", "map": "m_key"}[kind]), P.entry({"seq": "s_finish", "map": "m_finish"}[kind])
        bty = ai.pointee(P.body(el).locals[1])
        try:
            res = []
            for st, out, vis in self.fresh():
                ai.note(st, "an earlier round stores a value")
                for s, v, u in T.call(st, P.entry("v_" + kind), [vis]):
                    if u or not is_ok(v):
                        continue
                    hb = ai.new_obj(s, v[2][0], bty)
                    sts = [s]
                    for i in range(count):
                        nxt = []
                        for s1 in sts:
                            a = [("p", hb, (), None)]
                            if kind == "map":
                                s1.heap[("in", "K")] = ("reg", ("kt", -5, 3), 3)
                                a.append(("p", ("in", "K"), (("i", 0),), 3))
                            for s2, v2, u2 in T.call(s1, el, a):
                                if kind == "map":
                                    s2.heap[("in", "K")] = ("reg", ("gone",), 0)
                                    s2.gh.pop("keyfail", None)
                                if u2 or not is_ok(v2):
                                    self.T.end(s2, [(hb, bty), (out, self.outty)], self.name)
                                    continue
                                p = ai.unwrap_ptr(v2[2][0])
                                T.put(s2, ("p", p[1], p[2], None), T.new_token(s2, "old"))
                                nxt.append(s2)
                        sts = nxt
                    for s1 in sts:
                        for s2, v2, u2 in T.call(s1, fin, [("p", hb, (), None)]):
                            if u2 or not is_ok(v2):
                                continue
                            for s3, _, u3 in T.drop_ptr(s2, ("p", hb, (), None), bty):
                                s3.heap.pop(hb, None)
                                if not u3:
                                    res.append((s3, out))
        finally:
            T.user_panics = panics
        r = []
        for s, out in res:
            for s2, v, u in T.call(s, self.begin, [("p", out, (), None)], "begin of " + self.name):
                if not u:
                    r.append((s2, out, v))
        return r


def T_out(st):
    return st.heap[st.gh["out"][1]]


def is_ok(v):
    return v[0] == "a" and v[1] == 0


KINDS = ("null", "boolean", "string", "negative", "nonnegative", "float", "seq", "map")


def kind_args(T, st, kind):
    if kind == "boolean":
        return [("c", "ne0", st.num.fresh(0, 1))]
    if kind == "string":
        n = st.num.fresh(0, 1 << 40)
        st.heap[("in", "S")] = ("reg", ("other",), n)
        return [("p", ("in", "S"), (("i", 0),), n)]
    if kind == "negative":
        return [st.num.fresh(-(1 << 63), 0)]
    if kind == "nonnegative":
        return [st.num.fresh(0, (1 << 64) - 1)]
    if kind == "float":
        return [("x", "delivered", "64")]
    return []


def drive_seq(T, tg, length=None, kind="content", entry="seq"):
    """every history of one sequence builder. length: exact element count required, None for any."""
    P, ai = T.P, T.ai
    el, fin, drp, go = P.entry("s_element"), P.entry("s_finish"), P.entry("s_drop"), P.entry("v_seq")
    bty = ai.pointee(P.body(el).locals[1])
    what = tg.name + " from an array"
    inits = []
    for st, out, vis in tg.fresh() + tg.prefilled("seq", 1 if length is None else length):
        for s, v, u in T.call(st, go, [vis], "seq()"):
            if u:
                T.end(s, [(out, tg.outty)], what)
                continue
            if not is_ok(v):
                T.check(s, False, kind, what + ": seq() is refused")
                continue
            hb = ai.new_obj(s, v[2][0], bty)
            s.gh["hb"] = ("o", hb)
            inits.append(s)

    def close(s, note):
        hb = s.gh.pop("hb")[1]
        out = s.gh["out"][1]
        ai.note(s, note)
        T.end(s, [(hb, bty), (out, tg.outty)], what)

    def step(st):
        nxt = []
        hb = st.gh["hb"][1]
        n = st.gh["n"]
        close(st.copy(), "builder dropped early")
        for s, v, u in T.call(st, el, [("p", hb, (), None)], "element()"):
            if u:
                close(s, "unwinding")
                continue
            if not is_ok(v):
                if not s.gh.get("lax"):
                    T.check(s, length is not None and s.num.evalc(le(length, n)) is True, kind, what + ": an element is refused")
                close(s, "element() failed")
                continue
            p = ai.unwrap_ptr(v[2][0])
            if p[0] != "p" or p[3] != ("env", ("K", "vis")):
                T.check(s, False, kind, what + ": element() does not hand out the element type's visitor")
                continue
            slot = ("p", p[1], p[2], None)
            s1 = s.copy()
            try:
                T.put(s1, slot, T.new_token(s1, "elem", n))
                s1.gh["n"] = s1.num.norm(add(n, 1))
                ai.note(s1, "element stored")
                nxt.append(s1)
            except Dead:
                pass
            close(s.copy(), "element's callback fails")
            if not s.gh.get("lax") and st.num.evalc(le(n, 6)) is True:
                s2 = s.copy()
                s2.gh["lax"] = True
                ai.note(s2, "element accepted without being stored")
                nxt.append(s2)
        for s, v, u in T.call(st, fin, [("p", hb, (), None)], "finish()"):
            if u:
                close(s, "unwinding")
                continue
            lax = s.gh.get("lax")
            o = s.heap[s.gh["out"][1]]
            if is_ok(v):
                if not lax:
                    if length is not None:
                        T.check(s, s.num.evalc(eq(n, length)) is True, kind, what + ": a wrong number of elements is accepted")
                    if T.check(s, o[0] == "a" and o[1] == 1 and tg.good(o[2][0]), kind, what + ": finish() succeeds without storing a value of the right kind"):
                        T.check_stored(s, o[2][0], n, what, kind)
            elif not lax:
                T.check(s, length is not None and s.num.evalc(eq(n, length)) is False, kind, what + ": a complete array is refused")
            close(s, "finished")
        return nxt
    return T.fixpoint(inits, step)


def drive_map(T, tg, kind="content", parse=True):
    """every history of one map builder with arbitrary keys"""
    P, ai = T.P, T.ai
    key, fin, go = P.entry("m_key"), P.entry("m_finish"), P.entry("v_map")
    bty = ai.pointee(P.body(key).locals[1])
    what = tg.name + " from an object"
    inits = []
    for st, out, vis in tg.fresh() + tg.prefilled("map", 1):
        for s, v, u in T.call(st, go, [vis], "map()"):
            if u:
                T.end(s, [(out, tg.outty)], what)
                continue
            if not is_ok(v):
                T.check(s, False, kind, what + ": map() is refused")
                continue
            hb = ai.new_obj(s, v[2][0], bty)
            s.gh["hb"] = ("o", hb)
            inits.append(s)

    def close(s, note):
        hb = s.gh.pop("hb")[1]
        out = s.gh["out"][1]
        ai.note(s, note)
        T.end(s, [(hb, bty), (out, tg.outty)], what)

    def step(st):
        nxt = []
        hb = st.gh["hb"][1]
        n = st.gh["n"]
        close(st.copy(), "builder dropped early")
        k = st.copy()
        ln = k.num.fresh(0, 1 << 40)
        k.heap[("in", "K")] = ("reg", ("kt", n, ln), ln)
        for s, v, u in T.call(k, key, [("p", hb, (), None), ("p", ("in", "K"), (("i", 0),), ln)], "key()"):
            s.heap[("in", "K")] = ("reg", ("gone",), 0)
            if u:
                close(s, "unwinding")
                continue
            if not is_ok(v):
                if not s.gh.get("lax"):
                    T.check(s, s.gh.get("keyfail"), kind, what + ": an entry is refused although its key parses")
                close(s, "key() failed")
                continue
            T.check(s, not s.gh.get("keyfail"), kind, what + ": an entry whose key does not parse is accepted")
            p = ai.unwrap_ptr(v[2][0])
            if p[0] != "p" or p[3] != ("env", ("K", "vis")):
                T.check(s, False, kind, what + ": key() does not hand out the value type's visitor")
                continue
            slot = ("p", p[1], p[2], None)
            s1 = s.copy()
            try:
                T.put(s1, slot, T.new_token(s1, "elem", n))
                s1.gh["n"] = s1.num.norm(add(n, 1))
                ai.note(s1, "value stored")
                nxt.append(s1)
            except Dead:
                pass
            close(s.copy(), "value's callback fails")
            if not s.gh.get("lax") and st.num.evalc(le(n, 3)) is True:
                s2 = s.copy()
                s2.gh["lax"] = True
                ai.note(s2, "value accepted without being stored")
                nxt.append(s2)
        for s, v, u in T.call(st, fin, [("p", hb, (), None)], "finish()"):
            if u:
                close(s, "unwinding")
                continue
            lax = s.gh.get("lax")
            o = s.heap[s.gh["out"][1]]
            if is_ok(v):
                if not lax and T.check(s, o[0] == "a" and o[1] == 1 and tg.good(o[2][0]), kind, what + ": finish() succeeds without storing a value of the right kind"):
                    T.check_stored(s, o[2][0], n, what, kind)
            elif not lax:
                T.check(s, False, kind, what + ": a complete object is refused")
            close(s, "finished")
        return nxt
    return T.fixpoint(inits, step)


# ---- ignoring visitors -----------------------------------------------------------------------------
def check_ignoring(T, st, vis, what, seen, depth=0):
    """every callback on this visitor succeeds and changes nothing, and so for everything it hands out.
    Visitors of one zero-sized type all behave alike, so each type is explored once."""
    P, ai = T.P, T.ai
    p = ai.unwrap_ptr(vis)
    if p[0] not in ("p", "n"):
        raise Unsupported("visitor %s" % (p[:1],))
    meta = p[3] if p[0] == "p" else p[2]
    if not T.check(st, meta is not None and meta[0] == "vt", "content", what + ": data is not skipped"):
        return
    if not T.check(st, ai.is_zst(meta[1]), "content", what + ": skipped data reaches a visitor with state"):
        return
    if meta[1] in seen:
        return
    seen.add(meta[1])
    before = dict(st.heap)

    def unchanged(s, extra=()):
        for o, v in before.items():
            if o in extra or o[0] == "in":
                continue
            if not T.check(s, s.heap.get(o) == v, "content", what + ": skipping changes something"):
                return
        left = [o for o in s.heap if o[0] == "h" and o not in before and o not in extra]
        T.check(s, not left, "leak", what + ": skipping leaves memory allocated")

    for kind in KINDS:
        s0 = st.copy()
        a = kind_args(T, s0, kind)
        n = 0
        for s, v, u in T.call(s0, P.entry("v_" + kind), [vis] + a, kind + "()"):
            n += 1
            if not T.check(s, not u, "panic", what + ": skipping %s panics" % kind):
                continue
            if not T.check(s, is_ok(v), "content", what + ": skipping %s fails" % kind):
                continue
            if kind not in ("seq", "map"):
                unchanged(s)
                continue
            stepf = P.entry("s_element" if kind == "seq" else "m_key")
            fin = P.entry("s_finish" if kind == "seq" else "m_finish")
            bty = ai.pointee(P.body(stepf).locals[1])
            hb = ai.new_obj(s, v[2][0], bty)
            for s2, v2, u2 in T.drop_ptr(s, ("p", hb, (), None), bty):
                s2.heap.pop(hb, None)
                T.check(s2, not u2, "panic", what + ": dropping the skipping builder panics")
                unchanged(s2)
            b = ai.unwrap_ptr(s.heap[hb])
            while b[0] == "a":
                b = b[2][0]
            bm = b[3] if b[0] == "p" else b[2]
            T.check(s, bm is not None and bm[0] == "vt" and ai.is_zst(bm[1]), "content", what + ": a skipping builder has state")
            s1 = s.copy()
            args = [("p", hb, (), None)]
            if kind == "map":
                n2 = s1.num.fresh(0, 1 << 40)
                s1.heap[("in", "K2")] = ("reg", ("other",), n2)
                args.append(("p", ("in", "K2"), (("i", 0),), n2))
            for s2, v2, u2 in T.call(s1, stepf, args):
                if T.check(s2, not u2 and is_ok(v2), "content", what + ": skipping an entry of a %s fails" % kind):
                    check_ignoring(T, s2, v2[2][0], what, seen, depth + 1)
            for s2, v2, u2 in T.call(s, fin, [("p", hb, (), None)]):
                T.check(s2, not u2 and is_ok(v2), "content", what + ": skipping to the end of a %s fails" % kind)
        T.check(st, n > 0, "content", what + ": skipping %s has no outcome" % kind)


# ---- derived structs -------------------------------------------------------------------------------
def key_lit(T, s, b):
    s.heap[("in", "K")] = ("txt", (("P", "lit", b),)) if b else ("txt", ())
    return ("p", ("in", "K"), (("i", 0),), len(b))


def drive_struct(T, tg, names, optional=(), schedule=None):
    """names[i]: the key of field i.  schedule: None explores every history to a fixpoint, otherwise a list of key orders"""
    P, ai = T.P, T.ai
    key, fin, go = P.entry("m_key"), P.entry("m_finish"), P.entry("v_map")
    bty = ai.pointee(P.body(key).locals[1])
    what = tg.name + " from an object"
    T.names = tuple(names)
    F = len(names)
    seen = set()

    def begin_all(sts):
        r = []
        for st, out, vis in sts:
            for s, v, u in T.call(st, go, [vis], "map()"):
                if u:
                    T.end(s, [(out, tg.outty)], what)
                    continue
                if not T.check(s, is_ok(v), "content", what + ": map() is refused"):
                    continue
                s.gh["hb"] = ("o", ai.new_obj(s, v[2][0], bty))
                s.gh["last"] = (None,) * F
                r.append(s)
        return r

    def close(s, note):
        hb = s.gh.pop("hb")[1]
        s.gh["last"] = ()
        ai.note(s, note)
        T.end(s, [(hb, bty), (s.gh["out"][1], tg.outty)], what)

    def store(s, vis, f):
        """deliver a value to the place handed out for field f: successor states"""
        p = ai.unwrap_ptr(vis)
        if f in optional:
            r = []
            for s1, v, u in T.call(s.copy(), P.entry("v_nonnegative"), [vis, 7], "a value for " + str(names[f])):
                if u:
                    close(s1, "unwinding")
                elif not is_ok(v):
                    close(s1, "value refused")
                elif T.check(s1, bool(s1.gh.get("toks")), "content", what + ": a field's key does not lead to the field's visitor"):
                    s1.gh["last"] = s1.gh["last"][:f] + (s1.gh["toks"][-1],) + s1.gh["last"][f + 1:]
                    s1.gh["calls"] = ()
                    r.append(s1)
            for s1, v, u in T.call(s, P.entry("v_null"), [vis], "null for " + str(names[f])):
                if T.check(s1, not u and is_ok(v), "content", what + ": null is refused for an optional field"):
                    s1.gh["last"] = s1.gh["last"][:f] + (("K", "null"),) + s1.gh["last"][f + 1:]
                    r.append(s1)
            return r
        if not T.check(s, p[0] == "p" and p[3] == ("env", ("K", "vis")), "content",
                       what + ": a field's key does not lead to the field's visitor"):
            return []
        t = T.new_token(s, "elem", 0)
        T.put(s, ("p", p[1], p[2], None), t)
        s.gh["last"] = s.gh["last"][:f] + (t,) + s.gh["last"][f + 1:]
        ai.note(s, "value for %s stored" % names[f])
        return [s]

    def entry(st, f):
        """one entry with the key of field f (F: an unknown key)"""
        k = st.copy()
        hb = st.gh["hb"][1]
        if f < F:
            kp = key_lit(T, k, names[f])
        else:
            ln = k.num.fresh(0, 1 << 40)
            k.heap[("in", "K")] = ("reg", ("other",), ln)
            kp = ("p", ("in", "K"), (("i", 0),), ln)
        res = []
        for s, v, u in T.call(k, key, [("p", hb, (), None), kp], "key %s" % (names[f] if f < F else "unknown")):
            for z in [z for z in s.num.memo if z[0] == "pred" and z[1] == "othereq"]:
                del s.num.memo[z]
            if u:
                close(s, "unwinding")
                continue
            if not T.check(s, is_ok(v), "content", what + ": a key is refused"):
                continue
            vis = v[2][0]
            if f < F:
                close(s.copy(), "value's callback fails")
                s.heap[("in", "K")] = ("reg", ("gone",), 0)
                try:
                    res += store(s, vis, f)
                except Dead:
                    pass
            else:
                s.heap[("in", "K")] = ("reg", ("gone",), 0)
                check_ignoring(T, s, vis, what + ", unknown key", seen)
                res.append(s)
        return res

    def finish_all(st):
        """finish(): states left after success with the builder dropped"""
        hb = st.gh["hb"][1]
        st = st.copy()
        good = []
        for s, v, u in T.call(st, fin, [("p", hb, (), None)], "finish()"):
            if u:
                close(s, "unwinding")
                continue
            last = s.gh["last"]
            missing = [i for i in range(F) if last[i] is None and i not in optional]
            if not is_ok(v):
                T.check(s, bool(missing) and s.gh.get("defmode") != "some", "content", what + ": a complete object is refused")
                close(s, "finish() failed")
                continue
            o = s.heap[s.gh["out"][1]]
            if not T.check(s, not missing or s.gh.get("defmode") == "some", "content", what + ": succeeds although a required field is missing"):
                continue
            if not T.check(s, o[0] == "a" and o[1] == 1, "content", what + ": finish() succeeds without storing a value"):
                continue
            fs = o[2][0][2]
            for i in range(F):
                x = fs[i]
                if i in optional:
                    want = NONE if last[i] in (None, ("K", "null")) else some(last[i])
                    T.check(s, x == want, "content", what + ": field %d does not hold its value" % i)
                elif last[i] is None:
                    T.check(s, x[0] == "t" and x[2] == ("K", "default"), "content", what + ": missing field %d is not its default" % i)
                else:
                    T.check(s, x == last[i], "content", what + ": field %d does not hold the last value given for its key" % i)
            if not missing:
                g = s.copy()
                h = g.gh.pop("hb")[1]
                for s2, _, u2 in T.drop_ptr(g, ("p", h, (), None), bty):
                    s2.heap.pop(h, None)
                    if not u2:
                        good.append(s2)
            close(s, "finished")
        return good

    def step(st):
        nxt = []
        close(st.copy(), "builder dropped early")
        for f in range(F + 1):
            nxt += entry(st, f)
        finish_all(st)
        return nxt

    inits = begin_all(tg.fresh())
    # a slot that already holds a complete value
    panics, T.user_panics = T.user_panics, False
    sts = [s.copy() for s in inits]
    for f in range(F):
        sts = [s2 for s in sts for s2 in entry(s, f)]
    full = [g for s in sts for g in finish_all(s)]
    T.user_panics = panics
    again = []
    for s in full:
        for s2, v, u in T.call(s, tg.begin, [("p", s.gh["out"][1], (), None)], "begin of " + tg.name):
            if not u:
                again.append((s2, s2.gh["out"][1], v))
    T.check(T.fresh_state(), bool(full), "content", what + ": no complete object succeeds")
    inits += begin_all(again)
    if schedule is None:
        return T.fixpoint(inits, step)
    n = 0
    for order in schedule:
        sts = [s.copy() for s in inits]
        for f in order:
            sts = [s2 for s in sts for s2 in entry(s, f)]
        for s in sts:
            finish_all(s)
            close(s.copy(), "builder dropped early")
        n += len(sts)
    return n
