"""Abstract interpreter over the compiler's monomorphic intermediate representation.

One abstract state = control stack + heap of structured values + numeric store + client ghost data.  States meeting at
the same loop head with the same shape are joined (affine hull, interval union, widening); exploration ends when
nothing new arrives.  Nothing of the analysed program is executed."""
import os, sys, time, heapq, resource
from dom import *
from normal import canon_name
from prog import wto

T0 = time.process_time()
_m = int(os.environ.get("VERIF_MEM_GB", "20")) << 30
resource.setrlimit(resource.RLIMIT_AS, (_m, _m))
UNINIT = ("uninit",)
UNIT = ("a", 0, ())
NONE = ("a", 0, ())


def some(v):
    return ("a", 1, (v,))


def ok(v=UNIT):
    return ("a", 0, (v,))


def err(v=UNIT):
    return ("a", 1, (v,))


class Split(Exception):
    """alts: list of lists of conditions; the current step is redone under each"""

    def __init__(self, *alts):
        self.alts = alts


class Dead(Exception):
    """this path cannot continue (infeasible, or already reported)"""


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("inst", "body", "bb", "si", "uid", "dest", "target", "unwind", "data", "tag")

    def copy(self):
        f = Frame()
        f.inst, f.body, f.bb, f.si, f.uid = self.inst, self.body, self.bb, self.si, self.uid
        f.dest, f.target, f.unwind, f.data, f.tag = self.dest, self.target, self.unwind, self.data, self.tag
        return f


class State:
    __slots__ = ("frames", "heap", "num", "gh", "unwinding", "trace", "org")

    def __init__(self):
        self.org = None

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.num = self.num.copy()
        s.gh = dict(self.gh)
        s.unwinding = self.unwinding
        s.trace = self.trace
        s.org = self.org
        return s


class Env:
    """what lies outside the analysed code; subclasses define the checked properties"""
    panics = False

    def call(self, ai, st, inf, path, args, inst):
        """model of an opaque function: return None (not ours), a value, or Fork"""
        return None

    def virtual(self, ai, st, meta, dty, path, idx, args):
        raise Unsupported("virtual call on " + str(meta))

    def drop(self, ai, st, ty, ptr):
        return False

    def drop_pre(self, ai, st, item):
        raise Unsupported("drop of a summarised sequence")

    def pop_pre(self, ai, st, obj, v):
        return None

    def shift_pre(self, ai, st, obj, v):
        return None

    def drop_dyn(self, ai, st, meta, ptr):
        raise Unsupported("drop of " + str(meta))

    def region_read(self, ai, st, obj, idx):
        raise Unsupported("read of region %s" % (obj,))

    def panic(self, ai, st, what):
        ai.alarm(st, "panic", what)
        raise Dead()

    def anchors(self, st):
        return ()

    def prejoin(self, ai, st):
        pass

    def garbage(self, ai, st, objs):
        """at a join: objs are those still reachable"""

    def facts(self, st):
        pass

    coarse_steps = None

    def exact(self, st, leaves):
        """leaves that are never widened"""
        return ()

    def coarse(self, st, leaves):
        """leaves that are widened at once, to the coarse steps"""
        return ()

    def done(self, ai, st, val, unwinding):
        pass


class Fork:
    """several outcomes of a call: each a function of (state) -> value, or raising Dead / Unwind"""

    def __init__(self, *outs):
        self.outs = outs


class Unwind(Exception):
    pass


class Entered(Exception):
    """the model pushed a frame itself"""


class AI:
    def __init__(self, P, env, models=None, limit=2000000):
        self.P = P
        self.env = env
        self.env.ai = self
        self.otype = {}
        self.uid = 0
        self.alarms = {}
        self.steps = 0
        self.limit = limit
        self.fns = set()
        self.models = models or {}
        self.globals = {}
        self.acc = {}
        self.joins = 0
        self.widen_after = 6
        self.thresholds = [0, 1, 255, 65535, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1]
        self.tyr = {}
        self.maxdisj = 0
        self.entry_count = 0
        self.modelcache = {}
        self.debug = False
        self.instr_seen = set()
        self.ticks = self.ticket = 0
        self.origins = False
        self.edges = {}

    # ---- reports ---------------------------------------------------------------------------------
    def where(self, st):
        out = []
        for f in reversed(st.frames):
            if f.body is not None:
                inf = self.P.inst(f.inst)
                bl = f.body.blocks[f.bb]
                line = bl["s"][f.si][1] if f.si < len(bl["s"]) else bl["line"]
                fl = f.body.file.split("/repo/")[-1]
                out.append("%s (%s:%s)" % (canon_name(inf["name"]), fl, line))
        return out

    def owner(self, st):
        for f in reversed(st.frames):
            if f.body is not None and self.P.inst(f.inst)["krate"] == "miniserde":
                return canon_name(self.P.inst(f.inst)["path"])
        return "?"

    def trace(self, st):
        out = []
        t = st.trace
        while t:
            out.append(t[1])
            t = t[0]
        return list(reversed(out))[-40:]

    def alarm(self, st, kind, what):
        key = (kind, "%s in %s" % (what, self.owner(st)))
        if key not in self.alarms:
            self.alarms[key] = "%s: %s\n  at %s\n  after: %s" % (kind, what, "\n     ".join(self.where(st)[:12]),
                                                              "; ".join(self.trace(st)))

    def note(self, st, text):
        st.trace = (st.trace, text)

    # ---- types -----------------------------------------------------------------------------------
    def ty(self, t):
        return self.P.ty(t)

    def range_of(self, t):
        r = self.tyr.get(t)
        if r is None:
            d = self.P.ty(t)
            k = d["k"]
            if k == "uint":
                r = (0, (1 << d["bits"]) - 1)
            elif k == "int":
                r = (-(1 << (d["bits"] - 1)), (1 << (d["bits"] - 1)) - 1)
            elif k == "char":
                r = (0, 0x10FFFF)
            elif k == "bool":
                r = (0, 1)
            elif k == "adt" and len(d["variants"]) >= 1:
                r = (0, 255)
            else:
                r = None
            self.tyr[t] = r
        return r

    def pointee(self, t):
        d = self.P.ty(t)
        if d["k"] in ("ref", "ptr"):
            return d["elem"]
        if d["k"] == "pat":
            return self.pointee(d["elem"])
        if d["k"] == "adt":
            a = [x for x in d["args"] if isinstance(x, int)]
            if a and d["def"].split("::")[-1] in ("Box", "NonNull", "Unique", "ManuallyDrop", "Pin"):
                if d["def"].split("::")[-1] in ("ManuallyDrop", "Pin"):
                    return self.pointee(a[0])
                return a[0]
            if d["variants"]:
                for _, f in d["variants"][0]["fields"]:
                    r = self.pointee(f)
                    if r is not None:
                        return r
        return None

    def is_zst(self, t):
        return self.P.ty(t)["size"] == 0

    def fields(self, t, variant=0):
        d = self.P.ty(t)
        if d["k"] == "adt":
            return [f for _, f in d["variants"][variant]["fields"]]
        if d["k"] == "tuple":
            return d["elems"]
        if d["k"] == "closure":
            return self.P.ty(d["ups"])["elems"] if d["ups"] is not None else []
        return []

    def is_union(self, t):
        d = self.P.ty(t)
        return d["k"] == "adt" and d["adt"] == "Union"

    # ---- objects ---------------------------------------------------------------------------------
    def new_obj(self, st, val, ty, kind="h"):
        self.uid += 1
        o = (kind, self.uid)
        st.heap[o] = val
        self.otype[o] = ty
        return o

    def ptr(self, obj, path=(), meta=None):
        return ("p", obj, path, meta)

    def global_obj(self, key):
        """immutable compiled data, loaded on demand"""
        g = self.globals.get(key)
        if g is None:
            if key[0] == "ga":
                _, a, off, ty, meta = key
                q = ["alloc", a, off, ty]
                if meta is not None:
                    q.append(meta)
                v = self.P.q(*q)
                d = self.P.ty(ty)
                if d["k"] == "str":
                    val = ("arr", tuple(int(x) for x in v))
                elif d["k"] == "slice":
                    val = self.const(d["elem"], v, arr=True)
                else:
                    val = self.const(ty, v)
                self.otype[key] = ty
            else:
                s = self.P.q("static", key[1])
                val = self.const(s["ty"], s["val"])
                self.otype[key] = s["ty"]
            g = self.globals[key] = (val,)
        return g[0]

    def changing(self, key):
        """a static whose contents may differ from what they were initialised to"""
        s = self.P.q("static", key)
        return s["mut"] and self.P.ty(s["ty"])["size"] != 0

    def havoc(self, st, ty, v):
        d = self.P.ty(ty)
        if d["k"] in ("uint", "int"):
            return st.num.fresh(*self.range_of(ty))
        if d["k"] == "bool":
            n = st.num.fresh(0, 1)
            return eq(n, 1)
        if v[0] == "a" and d["k"] in ("adt", "tuple") and not self.is_union(ty):
            fs = self.fields(ty, v[1])
            if d["k"] == "tuple" or len(d["variants"]) == 1:
                return ("a", v[1], tuple(self.havoc(st, f, x) for f, x in zip(fs, v[2])))
        if d["size"] == 0:
            return v
        raise Unsupported("a static that may change: %s" % d["k"])

    def const(self, ty, v, arr=False):
        if isinstance(v, dict):
            if "int" in v:
                n = int(v["int"])
                if not arr and self.P.ty(ty)["k"] == "bool":
                    return bool(n)
                return n
            if "arr" in v:
                d = self.P.ty(ty)
                et = ty if arr else d.get("elem")
                return ("arr", tuple(self.const(et, x) for x in v["arr"]))
            if "zst" in v:
                return UNIT
            if "agg" in v:
                var = v.get("var", 0)
                d = self.P.ty(ty)
                if d["k"] == "adt" and d["def"] in ("std::vec::Vec", "alloc::vec::Vec") and False:
                    pass
                fs = self.fields(ty, var)
                return ("a", var, tuple(self.const(f, x) for f, x in zip(fs, v["agg"])))
            if "fbits" in v:
                return self.float_const(int(v["fbits"]), self.P.ty(ty)["bits"])
            if "to" in v:
                meta = v["meta"]
                if isinstance(meta, str):
                    meta = int(meta)
                p = v["p"]
                if isinstance(meta, dict):
                    meta = ("vt", meta["vtable"]) if "vtable" in meta else None
                if p is None:
                    return UNINIT
                d = self.P.ty(v["to"])
                if "alloc" in p:
                    path = ()
                    if d["k"] in ("str", "slice"):
                        path = (("i", 0),)
                    if isinstance(meta, tuple):
                        o = ("ga", p["alloc"], p["off"], meta[1], None)
                    else:
                        o = ("ga", p["alloc"], p["off"], v["to"], meta)
                    return ("p", o, path, meta)
                if "static" in p:
                    if p["off"]:
                        raise Unsupported("pointer into the middle of a static")
                    return ("p", ("gs", p["static"]), (), meta)
                if "addr" in p:
                    return ("n", int(p["addr"]), meta)
                if "fn" in p:
                    return ("f", p["fn"])
                raise Unsupported("constant pointer %s" % p)
            if "fn" in v:
                return ("f", v["fn"])
            if "addr" in v:
                return ("n", int(v["addr"]), None)
            if "uninit" in v:
                return UNINIT
            if "unk" in v and v["unk"] == "union":
                return UNINIT
            if "alloc" in v or "static" in v or "typeid" in v:
                return ("x", "const", str(sorted(v.items())))
        raise Unsupported("constant %s" % (v,))

    _fc = {}

    def float_const(self, bits, width):
        import struct
        if width == 64:
            x = struct.unpack("<d", struct.pack("<Q", bits))[0]
            if x > 0 and x != float("inf"):
                if not self._fc:
                    for k in range(-323, 309):
                        self._fc[float("1e%d" % k)] = k
                if x in self._fc:
                    return ("x", "flt", 1, self._fc[x], 64)
        return ("x", "fc", str(bits), str(width))

    # ---- reading and writing ------------------------------------------------------------------------
    def load(self, st, obj):
        v = st.heap.get(obj)
        if v is None:
            if obj[0] in ("ga", "gs"):
                g = self.global_obj(obj)
                if obj[0] == "gs" and self.changing(obj[1]):
                    g = st.heap[obj] = self.havoc(st, self.otype[obj], g)
                return g
            self.alarm(st, "uaf", "access to memory that has been freed or gone out of scope")
            raise Dead()
        return v

    def idx_const(self, st, k, n):
        """make an index concrete, or split"""
        if isinstance(k, int):
            return k
        k = st.num.norm(k)
        if isinstance(k, int):
            return k
        s = st.num.iset(k)
        if s[0][0] < 0 or s[-1][1] >= n:
            raise Split([("c", "le0", sub(k, n - 1)), ("c", "le0", mul(k, -1))], [("c", "le0", sub(n, k))], [lt(k, 0)])
        vals = [x for a, b in s for x in range(a, b + 1)]
        if len(vals) > 300:
            raise Unsupported("index into a large table of structured values")
        raise Split(*[[eq(k, x)] for x in vals])

    def read(self, st, obj, path):
        v = self.load(st, obj)
        n = len(path)
        for j in range(n):
            e = path[j]
            if isinstance(e, int):
                if v[0] == "a":
                    v = v[2][e]
                elif v == UNINIT:
                    return UNINIT
                else:
                    raise Unsupported("field of %s" % ({"o": "a collection", "t": "an opaque value"}.get(v[0], v[:2]),))
            elif e[0] == "d":
                if v[0] == "a":
                    if v[1] != e[1]:
                        self.alarm(st, "ub", "read of a field of another enum variant")
                        raise Dead()
                elif v != UNINIT:
                    raise Unsupported("variant of %s" % (v[:2],))
            elif e[0] == "i":
                k = e[1]
                if v[0] == "arr":
                    el = v[1]
                    if not isinstance(k, int):
                        k = st.num.norm(k)
                    if isinstance(k, int):
                        if not 0 <= k < len(el):
                            self.alarm(st, "oob", "memory access outside an array")
                            raise Dead()
                        v = el[k]
                    else:
                        v = self.table(st, el, k)
                elif v[0] in ("seq", "txt", "reg", "mseq"):
                    return self.read_seq(st, obj, path[:j], v, k, path[j + 1:])
                elif v == UNINIT:
                    return UNINIT
                else:
                    if not isinstance(k, int):
                        k = st.num.norm(k)
                    if k != 0:
                        self.alarm(st, "oob", "memory access outside an object")
                        raise Dead()
            else:
                raise Unsupported("reinterpreted memory read %s" % (e,))
        return v

    def table(self, st, el, k):
        s = st.num.iset(k)
        if s[0][0] < 0 or s[-1][1] >= len(el):
            c1, c2 = lt(k, 0), le(len(el), k)
            if st.num.evalc(c1) is None:
                raise Split([c1], [neg(c1)])
            if st.num.evalc(c2) is None:
                raise Split([c2], [neg(c2)])
            if st.num.evalc(c1) or st.num.evalc(c2):
                self.alarm(st, "oob", "table index out of bounds")
                raise Dead()
            s = iinter(s, ((0, len(el) - 1),))
        groups = {}
        for a, b in s:
            for i in range(a, b + 1):
                v = el[i]
                if isinstance(v, tuple) and v[0] == "x" and v[1] == "flt" and v[2] == 1:
                    g = ("pow", v[3] - i)
                else:
                    g = v if not (isinstance(v, int) and not isinstance(v, bool)) else ("int", v)
                groups.setdefault((type(g), g), []).append(i)
        if len(groups) > 12:
            # linear pieces of integers?
            lg = {}
            for a, b in s:
                for i in range(a, b + 1):
                    v = el[i]
                    if isinstance(v, int) and not isinstance(v, bool):
                        lg.setdefault(v - i, []).append(i)
                    else:
                        raise Unsupported("symbolic index into a large table")
            if len(lg) > 40:
                raise Unsupported("symbolic index into a large table")
            if len(lg) == 1:
                return add(k, list(lg)[0])
            raise Split(*[[("in", k, iset(*[(i, i) for i in ix]))] for ix in lg.values()])
        if len(groups) == 1:
            (_, g), ix = list(groups.items())[0]
            if isinstance(g, tuple) and g[0] == "pow":
                return ("x", "flt", 1, add(k, g[1]), 64)
            return el[ix[0]]
        raise Split(*[[("in", k, iset(*[(i, i) for i in ix]))] for ix in groups.values()])

    # sequences --------------------------------------------------------------------------------------
    def seq_len(self, st, v):
        if v[0] == "arr":
            return len(v[1])
        if v[0] == "reg":
            return st.num.norm(v[2])
        n = 0
        for it in v[1]:
            n = add(n, self.item_len(st, it))
        return st.num.norm(n)

    def item_len(self, st, it):
        if isinstance(it, tuple) and it and it[0] == "pre":
            return it[2]
        if isinstance(it, tuple) and it and it[0] == "P":
            return self.piece_len(st, it)
        return 1

    def piece_len(self, st, p):
        # ('P', kind, ...)
        k = p[1]
        if k == "lit":
            return len(p[2])
        if k == "sl":
            return p[4]
        if k == "by":
            return 1
        if k == "ch":
            c = st.num.norm(p[2])
            lo, hi = st.num.bounds(c)

            def cl(x):
                return 1 if x < 0x80 else 2 if x < 0x800 else 3 if x < 0x10000 else 4
            if cl(lo) == cl(hi):
                return cl(lo)
            key = ("u8len", c)
            if key not in st.num.memo:
                st.num.memo[key] = st.num.fresh(cl(lo), cl(hi))
            return st.num.norm(st.num.memo[key])
        return p[-1]

    def read_seq(self, st, obj, path, v, k, rest):
        if v[0] == "reg":
            if rest:
                raise Unsupported("structured region")
            return self.env.region_read(self, st, v[1], k)
        if v[0] == "seq":
            j, it = self.seq_at(st, v, k)
            for e in rest:
                if isinstance(e, int):
                    if it == UNINIT:
                        return UNINIT
                    it = it[2][e]
                elif e[0] == "d":
                    if it[1] != e[1]:
                        self.alarm(st, "ub", "read of a field of another enum variant")
                        raise Dead()
                elif e[0] == "i" and it[0] == "arr":
                    it = it[1][self.idx_const(st, e[1], len(it[1]))]
                else:
                    raise Unsupported("path in vector element")
            return it
        if v[0] == "txt":
            if len(v[1]) == 1 and v[1][0][1] == "lit":
                return self.table(st, tuple(v[1][0][2]), k) if not isinstance(k, int) else v[1][0][2][k]
            off = 0
            if len(v[1]) == 1 and v[1][0][1] == "sl":
                return self.env.region_read(self, st, v[1][0][2], st.num.norm(add(v[1][0][3], k)))
            for p in v[1]:
                if st.num.evalc(eq(k, off)) is True and p[1] in ("by",):
                    return p[2]
                if p[1] == "ch" and st.num.evalc(le(p[2], 127)) is True and st.num.evalc(eq(k, off)) is True:
                    return p[2]
                off = add(off, self.piece_len(st, p))
            # any byte
            return st.num.fresh(0, 255)
        raise Unsupported("read of " + v[0])

    def seq_at(self, st, v, k):
        items = v[1]
        k = st.num.norm(k)
        off = 0
        for j, it in enumerate(items):
            ln = self.item_len(st, it)
            if isinstance(it, tuple) and it and it[0] == "pre":
                c = lt(k, add(off, ln))
                e = st.num.evalc(c)
                if e is True:
                    if hasattr(self.env, "unfold"):
                        self.env.unfold(self, st, v, j, st.num.norm(sub(k, off)), ln)
                    m = self.env.materialise(self, st, it, sub(k, off), ln) if hasattr(self.env, "materialise") else None
                    if m is not None:
                        return j, m
                    raise Unsupported("element of a summarised sequence")
                if e is None:
                    raise Split([c], [neg(c)])
            else:
                c = eq(k, off)
                e = st.num.evalc(c)
                if e is True:
                    return j, it
                if e is None:
                    raise Split([c], [neg(c)])
            off = add(off, ln)
        self.alarm(st, "oob", "vector index out of bounds")
        raise Dead()

    def step_ty(self, ty, e, variant):
        d = self.P.ty(ty)
        if isinstance(e, int):
            if d["k"] == "adt" and d["adt"] == "Union":
                return d["variants"][0]["fields"][-1][1]
            fs = self.fields(ty, variant or 0)
            return fs[e]
        if e[0] == "i":
            return d.get("elem", ty)
        return ty

    def expand(self, ty, variant):
        """uninitialised value of a type, one level expanded"""
        if ty is None:
            raise Unsupported("partial write to memory of unknown type")
        d = self.P.ty(ty)
        if d["k"] == "array":
            return ("arr", (UNINIT,) * d["len"])
        if d["k"] == "adt" and d["adt"] == "Union":
            for _, f in d["variants"][0]["fields"]:
                if not self.is_zst(f):
                    return self.expand(f, variant)
        if d["k"] == "adt" and d["def"].split("::")[-1] == "ManuallyDrop" and False:
            pass
        return ("a", variant or 0, (UNINIT,) * len(self.fields(ty, variant or 0)))

    def strip_union(self, ty):
        """a union is represented by its payload, without any wrapper around that"""
        r = self.stripped.get(ty)
        if r is not None:
            return r
        t = ty
        while t is not None and self.is_union(t):
            for _, f in self.P.ty(t)["variants"][0]["fields"]:
                if not self.is_zst(f):
                    t = f
                    break
            else:
                break
            while True:
                d = self.P.ty(t)
                if d["k"] == "adt" and d["adt"] == "Struct" and d["def"].split("::")[-1] in ("ManuallyDrop", "MaybeDangling"):
                    t = self.single_field(t)[1] if self.single_field(t) else t
                    continue
                break
        self.stripped[ty] = t
        return t

    stripped = {}

    def setp(self, st, v, path, j, val, ty, variant=None, old=None):
        if j == len(path):
            return val
        e = path[j]
        ty = self.strip_union(ty)
        if isinstance(e, int):
            if v == UNINIT:
                v = self.expand(ty, variant)
            if v[0] != "a":
                raise Unsupported("write into field of %s" % (v[:1],))
            fs = v[2]
            if e >= len(fs):
                raise Unsupported("write to missing field")
            nt = None
            if ty is not None:
                try:
                    nt = self.fields(ty, v[1])[e]
                except IndexError:
                    nt = None
            nv = self.setp(st, fs[e], path, j + 1, val, nt)
            return ("a", v[1], fs[:e] + (nv,) + fs[e + 1:])
        if e[0] == "d":
            if v == UNINIT:
                v = self.expand(ty, e[1])
            if v[0] == "a" and v[1] != e[1]:
                raise Unsupported("write to a field of another variant")
            return self.setp(st, v, path, j + 1, val, ty, e[1])
        if e[0] == "i":
            k = st.num.norm(e[1])
            if v == UNINIT:
                if ty is not None and self.P.ty(ty)["k"] != "array":
                    if k == 0:
                        return self.setp(st, v, path, j + 1, val, ty)
                v = self.expand(ty, None)
            if v[0] == "arr":
                el = v[1]
                k = self.idx_const(st, k, len(el))
                if not 0 <= k < len(el):
                    self.alarm(st, "oob", "memory write outside an array")
                    raise Dead()
                nt = self.P.ty(ty).get("elem") if ty is not None else None
                nv = self.setp(st, el[k], path, j + 1, val, nt)
                return ("arr", el[:k] + (nv,) + el[k + 1:])
            if v[0] == "seq":
                p, it = self.seq_at(st, v, k)
                nv = self.setp(st, it, path, j + 1, val, v[2] if len(v) > 2 else None)
                return ("seq", v[1][:p] + (nv,) + v[1][p + 1:]) + v[2:]
            if v[0] == "txt":
                return self.txt_set(st, v, k, val)
            if v[0] == "reg":
                raise Unsupported("write to a region")
            if k == 0:
                return self.setp(st, v, path, j + 1, val, ty)
            self.alarm(st, "oob", "memory write outside an object")
            raise Dead()
        raise Unsupported("write through reinterpreted memory %s" % (e,))

    def txt_set(self, st, v, k, val):
        off = 0
        ps = list(v[1])
        for j, p in enumerate(ps):
            if p[1] == "by" and st.num.evalc(eq(k, off)) is True:
                ps[j] = ("P", "by", val)
                return ("txt", tuple(ps))
            off = add(off, self.piece_len(st, p))
        raise Unsupported("write into text")

    def write(self, st, obj, path, val):
        if obj[0] in ("ga",):
            raise Unsupported("write to constant memory")
        if obj[0] == "zst":
            return
        while path and isinstance(path[-1], tuple) and path[-1][0] == "v":
            val = self.transmute(st, val, path[-1][2], path[-1][1])
            path = path[:-1]
        v = self.load(st, obj)
        st.heap[obj] = self.setp(st, v, path, 0, val, self.otype.get(obj))

    # ---- places -----------------------------------------------------------------------------------
    def place(self, st, fr, p):
        """-> obj, path, meta, type"""
        l = p[0]
        obj = ("l", fr.uid, l)
        path = ()
        meta = None
        ty = fr.body.locals[l]
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.read(st, obj, path)
                ty2 = self.pointee(ty)
                v = self.unwrap_ptr(v)
                if v[0] == "p":
                    obj, path, meta = v[1], v[2], v[3]
                elif v[0] == "n":
                    if ty2 is not None and (self.is_zst(ty2) or v[2] == 0 or self.P.ty(ty2)["k"] in ("dyn", "slice", "str")):
                        obj, path, meta = ("zst", v[1]), (), v[2]
                        if obj not in st.heap:
                            st.heap[obj] = ("arr", ()) if self.P.ty(ty2)["k"] in ("slice", "str") else UNIT
                            self.otype[obj] = ty2
                        if self.P.ty(ty2)["k"] in ("slice", "str"):
                            path = (("i", 0),)
                    else:
                        self.alarm(st, "uaf", "dereference of a dangling address")
                        raise Dead()
                elif v == UNINIT:
                    self.alarm(st, "uninit", "dereference of an uninitialised or moved pointer")
                    raise Dead()
                else:
                    raise Unsupported("dereference of %s" % (v[:2],))
                ty = ty2
            elif k == "f":
                if self.is_union(ty):
                    if self.is_zst(e[2]):
                        # writing the unit field of a union: leave the memory as it is
                        obj, path = ("zst", 0), ()
                        st.heap.setdefault(obj, UNIT)
                    else:
                        S = self.strip_union(ty)
                        if S != e[2]:
                            path = path + (("v", S, e[2]),)
                    ty = e[2]
                    continue
                path = self.field_path(path, ty, e[1], e[2])
                ty = e[2]
            elif k == "dc":
                path = path + (("d", e[1]),)
            elif k == "i":
                i = self.read(st, ("l", fr.uid, e[1]), ())
                d = self.P.ty(ty)
                if d["k"] == "slice" or d["k"] == "str":
                    path = self.offset_path(path, i)
                else:
                    path = path + (("i", st.num.norm(i)),)
                ty = d["elem"]
                meta = None
            elif k == "ci":
                d = self.P.ty(ty)
                if d["k"] == "slice":
                    i = sub(meta, e[1]) if e[3] in (True, "true") else e[1]
                    path = self.offset_path(path, i)
                else:
                    i = d["len"] - e[1] if e[3] in (True, "true") else e[1]
                    path = path + (("i", i),)
                ty = d["elem"]
                meta = None
            elif k == "ss":
                d = self.P.ty(ty)
                if d["k"] != "slice":
                    raise Unsupported("subslice of an array")
                to = sub(meta, e[2]) if e[3] in (True, "true") else e[2]
                path = self.offset_path(path, e[1])
                meta = sub(to, e[1])
            elif k == "oc":
                ty = e[1]
            else:
                raise Unsupported("projection " + k)
        return obj, path, meta, ty

    def field_path(self, path, ty, i, fty):
        if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
            _, S, T = path[-1]
            # field of a wrapper type laid over S
            base = path[:-1]
            if fty == S:
                return base
            return base + (("v", S, fty),)
        return path + (i,)

    def offset_path(self, path, k):
        if path and isinstance(path[-1], tuple) and path[-1][0] == "i":
            return path[:-1] + (("i", add(path[-1][1], k)),)
        if isinstance(k, int) and k == 0:
            return path
        return path + (("i", k),)

    def unwrap_ptr(self, v):
        while isinstance(v, tuple) and v and v[0] == "a" and len(v[2]) >= 1:
            v = v[2][0]
        return v

    # ---- operands ---------------------------------------------------------------------------------
    def operand(self, st, fr, o, moves):
        k = o[0]
        if k == "k":
            t, v = o[1]
            c = self.constcache.get(id(o))
            if c is None:
                if self.P.ty(t)["k"] == "fndef":
                    c = UNIT
                elif isinstance(v, dict) and "unk" in v and self.P.ty(t)["size"] == 0:
                    c = UNIT
                else:
                    c = self.const(t, v)
                self.constcache[id(o)] = c
                self.constkeep.append(o)
            return c
        if k in ("c", "m"):
            p = o[1]
            if not p[1]:
                obj = ("l", fr.uid, p[0])
                v = st.heap.get(obj)
                if v is None:
                    if self.is_zst(fr.body.locals[p[0]]):
                        return UNIT
                    self.load(st, obj)
                if k == "m":
                    moves.append((obj, ()))
                return v
            obj, path, meta, ty = self.place(st, fr, p)
            v = self.read_place(st, obj, path, ty)
            if k == "m":
                moves.append((obj, path))
            return v
        if k == "rc":
            return o[1] == "OverflowChecks"   # a panic that only debug builds have is one
        raise Unsupported("operand " + k)

    constcache = {}
    constkeep = []

    def read_place(self, st, obj, path, ty):
        if ty is not None and self.is_zst(ty) and self.P.ty(ty)["k"] != "array":
            if path and not (self.P.ty(ty)["k"] == "adt"):
                return UNIT
        if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
            return self.read_view(st, obj, path, ty)
        v = self.read(st, obj, path)
        return v

    def read_view(self, st, obj, path, ty):
        _, S, T = path[-1]
        v = self.read(st, obj, path[:-1])
        return self.transmute(st, v, S, ty)

    def operand_ty(self, fr, o):
        if o[0] == "k":
            return o[1][0]
        if o[0] in ("c", "m"):
            t = fr.body.locals[o[1][0]]
            for e in o[1][1]:
                if e[0] == "f":
                    t = e[2]
                elif e[0] == "oc":
                    t = e[1]
                elif e[0] == "*":
                    t = self.pointee(t)
                elif e[0] in ("i", "ci"):
                    t = self.P.ty(t)["elem"]
            return t
        return None

    def do_moves(self, st, moves):
        for obj, path in moves:
            if not path:
                if obj in st.heap:
                    st.heap[obj] = UNINIT
            elif isinstance(path[-1], tuple) and path[-1][0] in ("v",):
                pass
            else:
                if obj[0] in ("ga", "gs", "zst"):
                    continue
                self.write(st, obj, path, UNINIT)

    # ---- rvalues ----------------------------------------------------------------------------------
    def rvalue(self, st, fr, r, dty, moves):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1], moves)
        if k in ("ref", "addr"):
            obj, path, meta, ty = self.place(st, fr, r[2])
            return ("p", obj, path, meta)
        if k == "reborrow":
            obj, path, meta, ty = self.place(st, fr, r[2])
            return ("p", obj, path, meta)
        if k == "agg":
            vals = tuple(self.operand(st, fr, o, moves) for o in r[2])
            kk = r[1]
            if kk[0] == "array":
                return ("arr", vals)
            if kk[0] == "adt":
                if self.is_union(kk[1]):
                    fi = kk[3]
                    fty = self.P.ty(kk[1])["variants"][0]["fields"][fi][1]
                    return UNINIT if self.is_zst(fty) else self.transmute(st, vals[0], fty, self.strip_union(kk[1]))
                return ("a", kk[2], vals)
            if kk[0] in ("tuple", "closure"):
                return ("a", 0, vals)
            if kk[0] == "rawptr":
                p = self.unwrap_ptr(vals[0])
                m = vals[1]
                if p[0] == "p":
                    if m == UNIT:
                        m = None
                    path = p[2]
                    el = self.P.ty(self.pointee(dty))
                    if el["k"] in ("slice", "str") and not (path and isinstance(path[-1], tuple) and path[-1][0] == "i"):
                        path = path + (("i", 0),)
                    return ("p", p[1], path, m)
                if p[0] == "n":
                    return ("n", p[1], m if m != UNIT else None)
            raise Unsupported("aggregate %s" % (kk,))
        if k == "repeat":
            v = self.operand(st, fr, r[1], moves)
            if r[2] is None or r[2] > 4096:
                raise Unsupported("huge array")
            return ("arr", (v,) * r[2])
        if k == "discr":
            obj, path, meta, ty = self.place(st, fr, r[1])
            v = self.read(st, obj, path)
            return self.as_tag(st, self.discr(st, v, ty), dty)
        if k == "len":
            obj, path, meta, ty = self.place(st, fr, r[1])
            d = self.P.ty(ty)
            return d["len"] if d["k"] == "array" else meta
        if k in ("bin", "cbin"):
            a = self.operand(st, fr, r[2], moves)
            b = self.operand(st, fr, r[3], moves)
            t = self.operand_ty(fr, r[2])
            return self.binop(st, r[1], a, b, t, k == "cbin", dty)
        if k == "un":
            a = self.operand(st, fr, r[2], moves)
            return self.unop(st, r[1], a, self.operand_ty(fr, r[2]))
        if k == "cast":
            a = self.operand(st, fr, r[2], moves)
            return self.cast(st, r[1], a, self.operand_ty(fr, r[2]), r[3])
        raise Unsupported("rvalue " + k)

    def uninhabited(self, t):
        d = self.P.ty(t)
        if d["k"] == "never":
            return True
        if d["k"] == "adt" and d["adt"] != "Union":
            return all(any(self.uninhabited(f) for f in self.fields(t, i)) for i in range(len(d["variants"])))
        return False

    def as_tag(self, st, x, ty):
        """discriminants are listed as unsigned bit patterns"""
        d = self.P.ty(ty)
        if isinstance(x, int) and d["k"] == "int" and x >> (d["bits"] - 1):
            x -= 1 << d["bits"]
        return x

    def discr(self, st, v, ty):
        if v == UNINIT and self.P.ty(ty)["k"] == "adt" and self.is_zst(ty):
            vs = self.P.ty(ty)["variants"]
            live = [i for i in range(len(vs)) if not any(self.uninhabited(f) for f in self.fields(ty, i))]
            if len(live) == 1:
                return int(vs[live[0]]["discr"])
        if v == UNINIT:
            self.alarm(st, "uninit", "use of an uninitialised or moved value")
            raise Dead()
        if v[0] != "a":
            m = getattr(self.env, "expand_token", None)
            if m is not None:
                m(self, st, v, ty)
            raise Unsupported("discriminant of %s" % (v[:2],))
        d = self.P.ty(ty)
        if d["k"] != "adt":
            return 0
        return int(d["variants"][v[1]]["discr"])

    def num(self, st, v, what="value"):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, Lin)):
            return st.num.norm(v)
        if v == UNINIT:
            self.alarm(st, "uninit", "use of an uninitialised or moved value")
            raise Dead()
        if isinstance(v, tuple) and v[0] == "c":
            e = st.num.evalc(v)
            if e is None:
                raise Split([v], [neg(v)])
            return int(e)
        raise Unsupported("arithmetic on %s" % (v[:2],))

    def wrap(self, st, r, t, flag=False):
        """value of r in machine type t (and whether it overflowed)"""
        lo, hi = self.range_of(t)
        a, b = st.num.bounds(r)
        if lo <= a and b <= hi:
            return (r, False) if flag else r
        c1, c2 = lt(r, lo), lt(hi, r)
        e1, e2 = st.num.evalc(c1), st.num.evalc(c2)
        if e1 is None:
            raise Split([c1], [neg(c1)])
        if e2 is None:
            raise Split([c2], [neg(c2)])
        if not e1 and not e2:
            return (r, False) if flag else r
        m = hi - lo + 1
        q = (a - lo) // m
        if (b - lo) // m == q:
            v = sub(r, q * m)
        else:
            qs = range((a - lo) // m, (b - lo) // m + 1)
            if b - a > 4 * m:
                v = st.num.fresh(lo, hi)
            else:
                raise Split(*[[le(lo + q * m, r), le(r, hi + q * m)] for q in qs])
        return (v, True) if flag else v

    def pw(self, st, f, a, t):
        """piecewise linear function of one small-range value"""
        a = st.num.norm(a)
        if isinstance(a, int):
            return f(a)
        s = st.num.iset(a)
        if icount(s) > 300:
            return None
        lg = {}
        vals = {}
        for x, y in s:
            for i in range(x, y + 1):
                v = f(i)
                lg.setdefault(v - i, []).append(i)
                vals.setdefault(v, []).append(i)
        if len(lg) == 1:
            return add(a, list(lg)[0])
        if len(vals) == 1:
            return list(vals)[0]
        g = lg if len(lg) <= len(vals) else vals
        raise Split(*[[("in", a, iset(*[(i, i) for i in ix]))] for ix in g.values()])

    def binop(self, st, op, a, b, t, checked, dty):
        fl = op.endswith("Unchecked") or op in ("Offset", "OffsetUnchecked")
        o = op.replace("Unchecked", "")
        d = self.P.ty(t)
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, o, a, b, t)
        if d["k"] == "float":
            return self.fbin(st, o, a, b)
        if o == "Offset":
            return self.ptr_add(st, a, self.num(st, b))
        if d["k"] == "bool":
            if o in ("BitAnd", "BitOr", "BitXor"):
                x, y = bool(self.num(st, a)), bool(self.num(st, b))
                return (x and y) if o == "BitAnd" else (x or y) if o == "BitOr" else x != y
        if o == "Cmp":
            x, y = self.num(st, a), self.num(st, b)
            e = st.num.evalc(lt(x, y))
            if e is None:
                raise Split([lt(x, y)], [neg(lt(x, y))])
            if e:
                return ("a", 0, ())
            e = st.num.evalc(eq(x, y))
            if e is None:
                raise Split([eq(x, y)], [neg(eq(x, y))])
            return ("a", 1, ()) if e else ("a", 2, ())
        if isinstance(a, tuple) and a and a[0] in ("p", "n") or isinstance(b, tuple) and b and b[0] in ("p", "n"):
            raise Unsupported("integer arithmetic on addresses")
        x, y = self.num(st, a), self.num(st, b)
        if o in ("Add", "Sub", "Mul"):
            if o == "Add":
                r = add(x, y)
            elif o == "Sub":
                r = sub(x, y)
            else:
                if isinstance(y, int):
                    r = mul(x, y)
                elif isinstance(x, int):
                    r = mul(y, x)
                else:
                    r = self.nonlinear(st, "mul", x, y, t)
            if checked:
                v, ov = self.wrap(st, r, t, True)
                return ("a", 0, (v, ov))
            if fl:
                lo, hi = self.range_of(t)
                l2, h2 = st.num.bounds(r)
                if l2 < lo or h2 > hi:
                    v, ov = self.wrap(st, r, t, True)
                    if ov:
                        self.alarm(st, "ub", "unchecked arithmetic overflows")
                        raise Dead()
                    return v
                return r
            return self.wrap(st, r, t)
        if o in ("Div", "Rem"):
            if isinstance(y, int) and y > 0:
                lo, hi = st.num.bounds(x)
                if lo < 0:
                    if hi <= 0:
                        q, m = st.num.divmod_(mul(x, -1), y)
                        return mul(q, -1) if o == "Div" else mul(m, -1)
                    raise Split([le(0, x)], [lt(x, 0)])
                q, m = st.num.divmod_(x, y)
                return q if o == "Div" else m
            if isinstance(x, int) and isinstance(y, int) and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if o == "Div" else x - q * y
            e = st.num.evalc(eq(y, 0))
            if e is not False:
                raise Split([eq(y, 0)], [neg(eq(y, 0))]) if e is None else Unsupported("division by zero")
            return self.nonlinear(st, "div" if o == "Div" else "rem", x, y, t)
        if o in ("Shl", "Shr"):
            bits = {"uint": d.get("bits"), "int": d.get("bits")}[d["k"]]
            if not isinstance(y, int):
                s = st.num.iset(y)
                if icount(s) <= 64:
                    raise Split(*[[eq(y, i)] for p, q in s for i in range(p, q + 1)])
                raise Unsupported("shift by an unknown amount")
            if checked:
                ov = not 0 <= y < bits
            y %= bits
            if o == "Shl":
                r = mul(x, 1 << y)
                lo, hi = self.range_of(t)
                l2, h2 = st.num.bounds(r)
                if l2 < lo or h2 > hi:
                    # bits shifted out: low part only
                    q, m = st.num.divmod_(x, 1 << (bits - y)) if y else (0, x)
                    r = mul(m, 1 << y)
                    if d["k"] == "int":
                        r = self.wrap(st, r, t)
            else:
                r, _ = st.num.divmod_(x, 1 << y)
            return ("a", 0, (r, ov)) if checked else r
        if o in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(st, o, x, y, t)
        raise Unsupported("operator " + op)

    def nonlinear(self, st, op, x, y, t):
        key = (op, x, y)
        if key not in st.num.memo:
            if op == "mul":
                a, b = st.num.bounds(x)
                c, d = st.num.bounds(y)
                ps = [a * c, a * d, b * c, b * d]
                st.num.memo[key] = st.num.fresh(max(min(ps), -INF), min(max(ps), INF))
            else:
                lo, hi = self.range_of(t)
                st.num.memo[key] = st.num.fresh(lo, hi)
        return st.num.norm(st.num.memo[key])

    def bitop(self, st, o, x, y, t):
        if isinstance(x, int) and isinstance(y, int):
            d = self.P.ty(t)
            m = (1 << d["bits"]) - 1
            r = {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o]
            return r
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            lo, hi = st.num.bounds(x)
            if o == "BitAnd" and y >= 0:
                if (y & (y + 1)) == 0 and lo >= 0:
                    return st.num.divmod_(x, y + 1)[1]
            if o in ("BitOr", "BitXor") and y == 0:
                return x
            f = {"BitAnd": lambda i: i & y, "BitOr": lambda i: i | y, "BitXor": lambda i: i ^ y}[o]
            if o in ("BitOr", "BitXor") and lo >= 0 and y > 0:
                # disjoint bits: x multiple of 2^k > y
                r = self.disjoint(st, x, y)
                if r is not None:
                    return r
            r = self.pw(st, f, x, t)
            if r is not None:
                return r
            if lo >= 0 and y >= 0:
                return st.num.fresh(0, (1 << max(hi.bit_length(), y.bit_length())) - 1)
            return st.num.fresh(*self.range_of(t))
        if o in ("BitOr", "BitXor"):
            r = self.disjoint(st, x, y)
            if r is not None:
                return r
        lo, hi = st.num.bounds(x)
        lo2, hi2 = st.num.bounds(y)
        if lo >= 0 and lo2 >= 0:
            return st.num.fresh(0, (1 << max(hi.bit_length(), hi2.bit_length())) - 1)
        return st.num.fresh(*self.range_of(t))

    def disjoint(self, st, x, y):
        for p, q in ((x, y), (y, x)):
            lo, hi = st.num.bounds(q)
            if lo < 0:
                continue
            k = 1 << hi.bit_length()
            if isinstance(p, int):
                if p % k == 0:
                    return add(p, q)
            elif p.c % k == 0 and all(c % k == 0 for _, c in p.t) and st.num.bounds(p)[0] >= 0:
                return add(p, q)
        return None

    def compare(self, st, o, a, b, t):
        d = self.P.ty(t)
        if d["k"] == "float":
            return self.fcmp(st, o, a, b)
        a0 = self.unwrap_ptr(a) if d["k"] in ("ptr", "ref", "fnptr") else a
        b0 = self.unwrap_ptr(b) if d["k"] in ("ptr", "ref", "fnptr") else b
        if isinstance(a0, tuple) and a0 and a0[0] in ("p", "n", "f"):
            return self.pcmp(st, o, a0, b0)
        if d["k"] == "bool":
            x, y = self.num(st, a), self.num(st, b)
        else:
            x, y = self.num(st, a), self.num(st, b)
        if o == "Eq":
            c = eq(x, y)
        elif o == "Ne":
            c = neg(eq(x, y))
        elif o == "Lt":
            c = lt(x, y)
        elif o == "Le":
            c = le(x, y)
        elif o == "Gt":
            c = lt(y, x)
        else:
            c = le(y, x)
        e = st.num.evalc(c)
        return c if e is None else e

    def pcmp(self, st, o, a, b):
        if a[0] == "p" and b[0] == "p":
            pa, pb = a[2], b[2]
            if a[1] == b[1]:
                ia = pa[-1][1] if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "i" else 0
                ib = pb[-1][1] if pb and isinstance(pb[-1], tuple) and pb[-1][0] == "i" else 0
                ra = pa[:-1] if pa and isinstance(pa[-1], tuple) and pa[-1][0] == "i" else pa
                rb = pb[:-1] if pb and isinstance(pb[-1], tuple) and pb[-1][0] == "i" else pb
                if ra == rb:
                    c = {"Eq": eq(ia, ib), "Ne": neg(eq(ia, ib)), "Lt": lt(ia, ib), "Le": le(ia, ib),
                         "Gt": lt(ib, ia), "Ge": le(ib, ia)}[o]
                    e = st.num.evalc(c)
                    return c if e is None else e
            if o == "Eq":
                return False
            if o == "Ne":
                return True
        if a[0] == "n" and b[0] == "n":
            return {"Eq": a[1] == b[1], "Ne": a[1] != b[1]}[o]
        if o in ("Eq", "Ne"):
            return o == "Ne"
        raise Unsupported("pointer comparison")

    def ptr_add(self, st, p, n):
        p0 = self.unwrap_ptr(p)
        if p0[0] == "p":
            path = p0[2]
            if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
                if n == 0:
                    return p0
                raise Unsupported("offset of a reinterpreted pointer")
            return ("p", p0[1], self.offset_path(path, n), p0[3])
        if p0[0] == "n" and n == 0:
            return p0
        raise Unsupported("pointer arithmetic on %s" % (p0[:1],))

    def unop(self, st, op, a, t):
        if op == "Not":
            if self.P.ty(t)["k"] == "bool":
                if isinstance(a, bool):
                    return not a
                if isinstance(a, tuple) and a[0] == "c":
                    return neg(a)
                return not self.num(st, a)
            d = self.P.ty(t)
            x = self.num(st, a)
            if d["k"] == "uint":
                return sub((1 << d["bits"]) - 1, x)
            return sub(-1, x)
        if op == "Neg":
            if self.P.ty(t)["k"] == "float":
                return self.fneg(a)
            return self.wrap(st, mul(self.num(st, a), -1), t)
        if op == "PtrMetadata":
            v = self.unwrap_ptr(a)
            m = v[3] if v[0] == "p" else v[2]
            return m if m is not None else UNIT
        raise Unsupported("operator " + op)

    # ---- floats: decimal-scaled terms ----------------------------------------------------------------
    def as_flt(self, a):
        if a[0] == "x" and a[1] == "flt":
            return a
        if a[0] == "x" and a[1] == "i2f" and a[3] == "64":
            return ("x", "flt", a[2], 0, 64)
        if a == ("x", "fc", "0", "64"):
            return ("x", "flt", 0, 0, 64)
        return None

    def fneg(self, a):
        if a[0] == "x" and a[1] == "fneg":
            return a[2]
        if a == ("x", "fc", "0", "64"):
            return ("x", "fneg", a)
        return ("x", "fneg", a)

    def fbin(self, st, o, a, b):
        x, y = self.as_flt(a), self.as_flt(b)
        if x and y and o == "Mul" and (y[2] == 1 or x[2] == 1):
            s = x[2] if y[2] == 1 else y[2]
            return ("x", "flt", s, add(x[3], y[3]), 64)
        if x and y and o == "Div" and y[2] == 1:
            return ("x", "flt", x[2], sub(x[3], y[3]), 64)
        return ("x", "f" + o, a, b)

    def pred(self, st, name, *args):
        args = tuple(self.normv(st, a) for a in args)
        key = ("pred", name, args)
        for k, v in st.num.memo.items():
            if k[0] == "pred" and k[1] == name and (k[2] == args or tuple(self.normv(st, a) for a in k[2]) == args):
                return v
        raise Split([("pred", key, True)], [("pred", key, False)])

    def normv(self, st, v):
        if isinstance(v, Lin):
            return st.num.norm(v)
        if isinstance(v, tuple):
            return tuple(self.normv(st, x) for x in v)
        return v

    def fcmp(self, st, o, a, b):
        h = getattr(self.env, "fcmp", None)
        if h is not None:
            r = h(self, st, o, a, b)
            if r is not None:
                return r
        if o == "Ne":
            return not self.pred(st, "Eq", a, b)
        return self.pred(st, o, a, b)

    # ---- casts ------------------------------------------------------------------------------------
    def cast(self, st, kind, a, S, T):
        if kind == "IntToInt":
            if isinstance(a, tuple) and a and a[0] == "a":
                a = int(self.P.ty(S)["variants"][a[1]]["discr"])
            x = self.num(st, a)
            return self.wrap(st, x, T)
        if kind in ("PtrToPtr", "MutToConstPointer", "FnPtrToPtr"):
            return self.ptr_cast(st, a, S, T)
        if kind == "Unsize":
            return self.unsize(st, a, S, T)
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, a, S, T)
        if kind == "IntToFloat":
            return ("x", "i2f", self.num(st, a), str(self.P.ty(T)["bits"]))
        if kind == "FloatToFloat":
            if S == T:
                return a
            return ("x", "f2f", a, str(self.P.ty(T)["bits"]))
        if kind == "FloatToInt":
            key = ("f2i", self.normv(st, a), T)
            if key not in st.num.memo:
                st.num.memo[key] = st.num.fresh(*self.range_of(T))
            return st.num.norm(st.num.memo[key])
        if kind == "ReifyFnPointer":
            i = self.P.ty(S).get("inst")
            return ("f", i)
        if kind == "ClosureFnPointer":
            return ("f", self.P.q("closure", S, "once"))
        if kind in ("UnsafeFnPointer", "Subtype"):
            return a
        if kind == "ArrayToPointer":
            v = self.unwrap_ptr(a)
            return ("p", v[1], v[2] + (("i", 0),), None)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance"):
            v = self.unwrap_ptr(a)
            if v[0] == "n":
                return v[1]
        if kind in ("PointerWithExposedProvenance",):
            return ("n", self.num(st, a), None)
        raise Unsupported("cast " + kind)

    def ptr_cast(self, st, a, S, T):
        v = self.unwrap_ptr(a)
        if v[0] != "p":
            if v[0] == "n":
                return v
            if v == UNINIT:
                return v
            raise Unsupported("pointer cast of %s" % (v[:2],))
        s, t = self.pointee(S), self.pointee(T)
        return self.repoint(st, v, s, t)

    def repoint(self, st, v, s, t):
        if s == t or s is None or t is None:
            return v
        ds, dt = self.P.ty(s), self.P.ty(t)
        obj, path, meta = v[1], v[2], v[3]
        if dt["k"] in ("uint", "int") and dt.get("bits") == 8 and ds["k"] == "str":
            return ("p", obj, path, None)
        if ds["k"] in ("slice", "str", "dyn") and dt["k"] in ("slice", "str", "dyn"):
            return v
        if ds["k"] in ("slice", "str"):
            # thin pointer to the first element
            if dt["size"] is not None:
                el = ds.get("elem")
                p = ("p", obj, path, None)
                if el is None or el == t:
                    return p
                return self.repoint(st, p, el, t)
        if ds["k"] == "dyn":
            return ("p", obj, path, None)
        if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
            base = path[:-1]
            s = path[-1][1]
            if s == t:
                return ("p", obj, base, meta)
            return self.repoint(st, ("p", obj, base, meta), s, t)
        if ds["k"] == "array" and ds["elem"] == t:
            return ("p", obj, path + (("i", 0),), meta)
        if dt["k"] == "array" and dt["elem"] == s and path and isinstance(path[-1], tuple) and path[-1][0] == "i" and path[-1][1] == 0:
            return ("p", obj, path[:-1], meta)
        if dt["k"] == "array" and self.transparent(dt["elem"]) == self.transparent(s) and path and path[-1] == ("i", 0):
            try:
                w = self.read(st, obj, path[:-1])
            except (Split, Unsupported, Dead):
                w = None
            if w is not None and w[0] == "arr" and len(w[1]) == dt["len"]:
                return ("p", obj, path[:-1], meta)
        if self.transparent(s) == self.transparent(t) and self.same_shape(s, t):
            return v
        # one wraps the other
        if self.wraps(s, t):
            return ("p", obj, self.unwrap_path(path, s, t), meta)
        if ds["k"] == "opaque" or dt["size"] == 0:
            return v
        return ("p", obj, path + (("v", s, t),), meta)

    def transparent(self, t):
        """type below MaybeUninit/ManuallyDrop-like unions and arrays of them"""
        d = self.P.ty(t)
        while d["k"] == "adt" and d["adt"] == "Union":
            n = self.strip_union(t)
            if n == t:
                break
            t = n
            d = self.P.ty(t)
            if d["k"] == "adt" and d["def"].split("::")[-1] in ("ManuallyDrop", "MaybeDangling") and d["adt"] == "Struct":
                pass
        if d["k"] == "array":
            return ("array", self.transparent(d["elem"]), d["len"])
        return t

    def same_shape(self, s, t):
        return True

    def single_field(self, t):
        d = self.P.ty(t)
        if d["k"] == "adt" and d["adt"] == "Struct":
            fs = [(i, f) for i, (_, f) in enumerate(d["variants"][0]["fields"]) if not self.is_zst(f)]
            if len(fs) == 1:
                return fs[0]
        return None

    def wraps(self, s, t):
        for _ in range(6):
            if s == t:
                return True
            if self.is_union(s):
                s2 = self.strip_union(s)
                if s2 == s:
                    return False
                s = s2
                continue
            f = self.single_field(s)
            if f is None:
                return False
            s = f[1]
        return s == t

    def unwrap_path(self, path, s, t):
        while s != t:
            if self.is_union(s):
                s = self.strip_union(s)
                continue
            i, f = self.single_field(s)
            path = path + (i,)
            s = f
        return path

    def transmute(self, st, v, S, T):
        if S == T or v == UNINIT:
            return v
        a, b = self.P.ty(S), self.P.ty(T)
        isp = ("ptr", "ref", "fnptr")
        if b["k"] in isp:
            p = self.unwrap_ptr(v) if not isinstance(v, (int, Lin, bool)) else v
            if isinstance(p, (int, Lin)):
                return ("n", p, None)
            s, t = self.pointee(S), self.pointee(T)
            if p[0] == "p" and s is not None and t is not None:
                return self.repoint(st, p, s, t)
            return p
        if b["k"] == "pat":
            return self.transmute(st, v, S, b["elem"])
        if a["k"] == "pat":
            return self.transmute(st, v, a["elem"], T)
        if self.transparent(S) == self.transparent(T):
            return v
        # unwrap the source
        if self.is_union(S):
            return self.transmute(st, v, self.strip_union(S), T)
        if self.is_union(T):
            return self.transmute(st, v, S, self.strip_union(T))
        if b["k"] == "adt" and b["adt"] == "Struct":
            f = self.single_field(T)
            if f is not None and not (a["k"] == "adt" and a["def"] == b["def"]):
                if not (a["k"] == "adt" and self.wraps(S, T)):
                    inner = self.transmute(st, v, S, f[1])
                    n = len(b["variants"][0]["fields"])
                    fs = [UNIT] * n
                    fs[f[0]] = inner
                    return ("a", 0, tuple(fs))
        if a["k"] == "adt" and a["adt"] == "Struct" and v[0] == "a":
            f = self.single_field(S)
            if f is not None and not (b["k"] == "adt" and a["def"] == b["def"]):
                return self.transmute(st, v[2][f[0]], f[1], T)
        if a["k"] == "adt" and b["k"] == "adt" and a["def"] == b["def"]:
            # same generic type at different (lifetime-like) arguments: same layout by construction
            return self.rewrap(st, v, S, T)
        if a["k"] in ("uint", "int", "char", "bool") and b["k"] in ("uint", "int", "char"):
            x = self.num(st, v)
            return self.wrap(st, x, T)
        if a["k"] in ("uint", "int") and b["k"] == "bool":
            x = self.num(st, v)
            c = eq(x, 1)
            e = st.num.evalc(c)
            return c if e is None else e
        if a["k"] == "float" or b["k"] == "float":
            return ("x", "bits", v, str(T))
        if a["k"] in isp and b["k"] in ("uint", "int"):
            p = self.unwrap_ptr(v)
            if p[0] == "n":
                return p[1]
            return ("x", "addr", p)
        if a["k"] == "tuple" and b["k"] == "tuple" and len(a["elems"]) == len(b["elems"]):
            return ("a", 0, tuple(self.transmute(st, x, s, t) for x, s, t in zip(v[2], a["elems"], b["elems"])))
        if a["k"] == "array" and b["k"] == "array" and a["len"] == b["len"]:
            return ("arr", tuple(self.transmute(st, x, a["elem"], b["elem"]) for x in v[1]))
        if a["k"] in ("uint", "int") and b["k"] == "adt" and b["adt"] == "Enum":
            x = self.idx_const(st, self.num(st, v), 256)
            for i, vv in enumerate(b["variants"]):
                if (int(vv["discr"]) - x) % (1 << a["bits"]) == 0:
                    return ("a", i, ())
            self.alarm(st, "ub", "invalid enum value")
            raise Dead()
        raise Unsupported("transmute %s -> %s" % (a["name"], b["name"]))

    def rewrap(self, st, v, S, T):
        if not (isinstance(v, tuple) and v and v[0] == "a"):
            return v
        fs, ft = self.fields(S, v[1]), self.fields(T, v[1])
        if fs == ft:
            return v
        return ("a", v[1], tuple(self.transmute(st, x, s, t) for x, s, t in zip(v[2], fs, ft)))

    def unsize(self, st, a, S, T):
        s, t = self.pointee(S), self.pointee(T)
        ds, dt = self.P.ty(s), self.P.ty(t)

        def go(v):
            if v[0] == "a":
                for i, x in enumerate(v[2]):
                    if isinstance(x, tuple) and x and x[0] in ("a", "p", "n"):
                        y = go(x)
                        if y is not None:
                            return ("a", v[1], v[2][:i] + (y,) + v[2][i + 1:])
                return None
            if v[0] == "p":
                if dt["k"] == "slice" and ds["k"] == "array":
                    return ("p", v[1], v[2] + (("i", 0),), ds["len"])
                if ds["k"] == dt["k"] == "adt" and ds["def"] == dt["def"] and ds["adt"] == "Struct":
                    # the length travels with the pointer to the struct that ends in the array
                    n, w, z = s, t, 0
                    while n is not None and self.P.ty(n)["k"] == "adt" and z < 6:
                        fs, gs = self.fields(n, 0), self.fields(w, 0)
                        n, w, z = (fs[-1], gs[-1], z + 1) if fs and gs else (None, None, z)
                    if n is not None and self.P.ty(n)["k"] == "array" and self.P.ty(w)["k"] == "slice":
                        return ("p", v[1], v[2], self.P.ty(n)["len"])
                if dt["k"] == "dyn":
                    if ds["k"] == "dyn":
                        return v
                    return ("p", v[1], v[2], ("vt", s))
            if v[0] == "n":
                if dt["k"] == "dyn":
                    return ("n", v[1], v[2] if ds["k"] == "dyn" else ("vt", s))
                if dt["k"] == "slice":
                    return ("n", v[1], ds.get("len"))
            return None
        r = go(a)
        if r is None:
            raise Unsupported("unsize %s -> %s" % (ds["name"], dt["name"]))
        return r

    # ---- control ----------------------------------------------------------------------------------
    def push(self, st, inst, args, dest, target, unwind, tag=None):
        b = self.P.body(inst)
        inf = self.P.inst(inst)
        if b is None:
            raise Unsupported("function without a body: " + canon_name(inf["name"]))
        if len(st.frames) > 200:
            raise Unsupported("recursion in " + canon_name(inf["name"]))
        if self.nest_limit and sum(1 for f in st.frames if f.inst == inst) >= self.nest_limit:
            self.env.recursion(self, st, inst)
        self.fns.add(inst)
        self.uid += 1
        f = Frame()
        f.inst, f.body, f.bb, f.si, f.uid = inst, b, 0, 0, self.uid
        f.dest, f.target, f.unwind, f.data, f.tag = dest, target, unwind, None, tag
        if b.spread is not None:
            # the caller hands the arguments over as a tuple already
            if len(args) != b.argc:
                args = list(args[:b.spread - 1]) + [("a", 0, tuple(args[b.spread - 1:]))]
        elif len(args) == 2 and b.argc == 2 and inf["kind"] == "item" and self.is_closure(b.locals[1]):
            if not (isinstance(args[1], tuple) and args[1][0] == "a" and len(args[1][2]) == 1):
                raise Unsupported("arguments of " + canon_name(inf["name"]))
            args = [args[0], args[1][2][0]]
        elif len(args) != b.argc:
            if len(args) == 2 and isinstance(args[1], tuple) and args[1][0] == "a" and 1 + len(args[1][2]) == b.argc:
                args = [args[0]] + list(args[1][2])
            else:
                raise Unsupported("argument count of " + canon_name(inf["name"]))
        for i, a in enumerate(args):
            o = ("l", f.uid, i + 1)
            st.heap[o] = a
            self.otype[o] = b.locals[i + 1]
        for l in range(len(args) + 1, b.nlocals):
            o = ("l", f.uid, l)
            st.heap[o] = UNINIT
            self.otype[o] = b.locals[l]
        o = ("l", f.uid, 0)
        st.heap[o] = UNINIT
        self.otype[o] = b.locals[0]
        st.frames.append(f)

    def push_native(self, st, name, data, dest=None, target=None, unwind="continue"):
        f = Frame()
        self.uid += 1
        f.inst, f.body, f.bb, f.si, f.uid = None, None, 0, 0, self.uid
        f.dest, f.target, f.unwind, f.data, f.tag = dest, target, unwind, data, name
        st.frames.append(f)

    def is_closure(self, t):
        d = self.P.ty(t)
        while d["k"] in ("ref", "ptr"):
            d = self.P.ty(d["elem"])
        return d["k"] == "closure"

    def pop_frame(self, st):
        f = st.frames.pop()
        if f.body is not None:
            for l in range(f.body.nlocals):
                st.heap.pop(("l", f.uid, l), None)
        return f

    def ret(self, st):
        f = st.frames[-1]
        v = st.heap.get(("l", f.uid, 0), UNIT)
        if v == UNINIT and self.is_zst(f.body.locals[0]):
            v = UNIT
        self.pop_frame(st)
        self.deliver(st, f, v)

    def deliver(self, st, f, v):
        """callee frame f finished with value v"""
        if not st.frames:
            raise Finished(v)
        c = st.frames[-1]
        if c.body is None:
            c.data = self.native_next(st, c, v)
            return
        if f.dest is not None:
            self.write(st, f.dest[1], f.dest[2], v)
        if f.target is None:
            raise Dead()
        c.bb, c.si = f.target, 0

    def unwind(self, st):
        """propagate a panic to the innermost cleanup"""
        st.unwinding = True
        while True:
            f = st.frames[-1]
            u = f.unwind
            if f.body is None and isinstance(f.data, tuple) and f.data and f.data[0] == "drops" and f.data[1]:
                # keep dropping the remaining elements, then go on unwinding
                f.data = f.data[:2] + (True,) + f.data[3:]
                return
            self.pop_frame(st)
            if not st.frames:
                raise Finished(None)
            if u == "continue":
                continue
            if isinstance(u, int):
                c = st.frames[-1]
                if c.body is None:
                    continue
                c.bb, c.si = u, 0
                return
            if u == "unreachable":
                self.alarm(st, "ub", "panic where none may happen")
                raise Dead()
            raise Dead()        # terminate: abort

    def unwind_edge(self, st, u):
        """unwinding out of a call made by the top frame with unwind action u"""
        st.unwinding = True
        if isinstance(u, int):
            c = st.frames[-1]
            c.bb, c.si = u, 0
            return
        if u == "continue":
            self.unwind(st)
            return
        raise Dead()

    def native_next(self, st, fr, v):
        return fr.data

    def native_step(self, st, fr):
        d = fr.data
        if d[0] == "drops":
            if not d[1]:
                for o in (d[3] or ()) if len(d) > 3 else ():
                    st.heap.pop(o, None)
                if d[2]:
                    fr.data = ("done",)
                    self.unwind(st)
                    return
                self.pop_frame(st)
                self.deliver(st, fr, UNIT)
                return
            (ptr, ty), rest = d[1][0], d[1][1:]
            fr.data = ("drops", rest) + d[2:]
            try:
                if ptr[0] == "pre":
                    r = self.env.drop_pre(self, st, ptr[1])
                    if isinstance(r, Fork):
                        raise ForkReq(r, lambda s, v: None, "continue")
                    return
                self.drop_value(st, ptr, ty, None, None, "continue")
            except Split:
                fr.data = d            # the step is redone
                raise
            return
        raise Unsupported("native frame")

    # run the drop glue of *ptr; afterwards control continues in the top frame at `target`
    def drop_value(self, st, ptr, ty, dest, target, unwind):
        d = self.P.ty(ty)

        def go():
            c = st.frames[-1]
            if c.body is not None:
                c.bb, c.si = target, 0
        if d["k"] == "dyn":
            m = ptr[3]
            if m is None or m == UNIT:
                raise Unsupported("drop of trait object without vtable")
            if m[0] == "vt":
                self.drop_value(st, ("p", ptr[1], ptr[2], None), m[1], dest, target, unwind)
                return
            r = self.env.drop_dyn(self, st, m, ptr)
            if isinstance(r, Fork):
                raise ForkReq(r, lambda s, v: (self._go(s, target)), unwind)
            go()
            return
        r = self.env.drop(self, st, ty, ptr)
        if r:
            if isinstance(r, Fork):
                raise ForkReq(r, lambda s, v: (self._go(s, target)), unwind)
            if isinstance(r, tuple):
                self.push_native(st, "drop", ("drops", tuple(r), False, ()), None, target, unwind)
            else:
                go()
            return
        h = self.dropmodels.get(canon_name(d["def"])) if d["k"] == "adt" else None
        if h is not None:
            items = h(self, st, ptr, ty)
            if items:
                self.push_native(st, "drop", ("drops", tuple(items[0]), False, items[1]), None, target, unwind)
            else:
                go()
            return
        i = self.P.q("drop", ty)
        if i is None:
            go()
            return
        self.push(st, i, [ptr], None, target, unwind)

    def _go(self, st, target):
        c = st.frames[-1]
        if c.body is not None:
            c.bb, c.si = target, 0

    dropmodels = {}
    nest_limit = None       # how often one function may be on the call stack (env.recursion is told about more)

    def step_block(self, st):
        """run the top frame until its block's terminator has been executed"""
        fr = st.frames[-1]
        if fr.body is None:
            self.native_step(st, fr)
            return
        self.steps += 1
        if self.steps > self.limit:
            raise Unsupported("analysis budget exceeded")
        bl = fr.body.blocks[fr.bb]
        ss = bl["s"]
        while fr.si < len(ss):
            s = ss[fr.si]
            k = s[0]
            if k == "=":
                moves = []
                dp = s[2]
                dty = fr.body.locals[dp[0]] if not dp[1] else None
                if dp[1]:
                    dobj, dpath, _, dty = self.place(st, fr, dp)
                    v = self.rvalue(st, fr, s[3], dty, moves)
                    if moves:
                        self.do_moves(st, moves)
                    self.write(st, dobj, dpath, v)
                else:
                    v = self.rvalue(st, fr, s[3], dty, moves)
                    if moves:
                        self.do_moves(st, moves)
                    st.heap[("l", fr.uid, dp[0])] = v
            elif k == "live" or k == "dead":
                st.heap[("l", fr.uid, s[2])] = UNINIT
                if k == "dead":
                    st.heap.pop(("l", fr.uid, s[2]), None)
            elif k == "sd":
                obj, path, meta, ty = self.place(st, fr, s[2])
                v = self.read(st, obj, path)
                if v == UNINIT:
                    v = self.expand(ty, s[3])
                self.write(st, obj, path, ("a", s[3], v[2] if v[1] == s[3] else self.expand(ty, s[3])[2]))
            elif k == "assume":
                m = []
                c = self.operand(st, fr, s[2], m)
                if isinstance(c, tuple):
                    st.num.assume(c)
            elif k == "copyno":
                m = []
                src = self.unwrap_ptr(self.operand(st, fr, s[2], m))
                dst = self.unwrap_ptr(self.operand(st, fr, s[3], m))
                n = self.num(st, self.operand(st, fr, s[4], m))
                self.copy_mem(st, src, dst, n)
            fr.si += 1
        self.terminator(st, fr, bl)

    def copy_mem(self, st, src, dst, n):
        if n == 0:
            return
        if n == 1:
            v = self.read(st, src[1], src[2])
            self.write(st, dst[1], dst[2], v)
            return
        if isinstance(n, int) and n <= 64:
            vs = [self.read(st, src[1], self.offset_path(src[2], i)) for i in range(n)]
            for i, v in enumerate(vs):
                self.write(st, dst[1], self.offset_path(dst[2], i), v)
            return
        raise Unsupported("copy of an unknown number of elements")

    def terminator(self, st, fr, bl):
        t = bl["t"]
        k = t[0]
        if k == "goto":
            fr.bb, fr.si = t[1], 0
        elif k == "switch":
            self.switch(st, fr, t)
        elif k == "return":
            self.ret(st)
        elif k == "call":
            self.call(st, fr, t)
        elif k == "drop":
            obj, path, meta, ty = self.place(st, fr, t[1])
            if t[2] is None and self.P.ty(ty)["k"] != "dyn":
                fr.bb, fr.si = t[3], 0
                return
            if path and isinstance(path[-1], tuple) and path[-1][0] == "v":
                raise Unsupported("drop of reinterpreted memory")
            self.drop_value(st, ("p", obj, path, meta), ty, None, t[3], t[4])
        elif k == "assert":
            self.assertion(st, fr, t)
        elif k == "resume":
            self.unwind(st)
        elif k == "unreachable":
            self.alarm(st, "ub", "code marked unreachable is reached")
            raise Dead()
        else:
            raise Unsupported("terminator " + k)

    def switch(self, st, fr, t):
        m = []
        v = self.operand(st, fr, t[1], m)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            ty = None
            for val, bb in t[2]:
                if v >= 0:
                    if int(val) == v:
                        fr.bb, fr.si = bb, 0
                        return
                else:
                    d = self.P.ty(self.operand_ty(fr, t[1]))
                    if int(val) == v & ((1 << d["bits"]) - 1):
                        fr.bb, fr.si = bb, 0
                        return
            fr.bb, fr.si = t[3], 0
            return
        if v == UNINIT:
            self.alarm(st, "uninit", "use of an uninitialised or moved value")
            raise Dead()
        if isinstance(v, tuple) and v[0] == "c":
            e = st.num.evalc(v)
            if e is None:
                raise Split([v], [neg(v)])
            self.switch_to(fr, t, int(e))
            return
        if isinstance(v, tuple) and v[0] == "x" and v[1] == "addr":
            self.switch_to(fr, t, 1 << 60)
            return
        v = self.num(st, v)
        if isinstance(v, int):
            self.switch_to(fr, t, v)
            return
        s = st.num.iset(v)
        groups = {}
        rest = s
        ty = self.P.ty(self.operand_ty(fr, t[1]))
        for val, bb in t[2]:
            x = int(val)
            if ty["k"] == "int" and x >= 1 << (ty["bits"] - 1):
                x -= 1 << ty["bits"]
            if iinter(s, ((x, x),)):
                groups.setdefault(bb, []).append((x, x))
            rest = iminus(rest, ((x, x),))
        if not groups:
            fr.bb, fr.si = t[3], 0
            return
        for bb in list(groups):
            groups[bb] = iset(*groups[bb])
        if rest:
            groups[t[3]] = iunion(groups.get(t[3], ()), rest) if t[3] in groups else rest
        if len(groups) == 1:
            fr.bb, fr.si = list(groups)[0], 0
            return
        raise Split(*[[("in", v, g)] for g in groups.values()])

    def switch_to(self, fr, t, v):
        if v < 0:
            # targets are listed as unsigned bit patterns
            v &= (1 << self.P.ty(self.operand_ty(fr, t[1]))["bits"]) - 1
        for val, bb in t[2]:
            if int(val) == v:
                fr.bb, fr.si = bb, 0
                return
        fr.bb, fr.si = t[3], 0

    def assertion(self, st, fr, t):
        m = []
        c = self.operand(st, fr, t[1], m)
        want = t[2]
        if isinstance(c, (int, Lin)) and not isinstance(c, bool):
            c = bool(self.num(st, c))
        e = st.num.evalc(c) if not isinstance(c, bool) else c
        if e is None:
            raise Split([c], [neg(c)])
        if e == bool(want):
            fr.bb, fr.si = t[4], 0
            return
        self.env.panic(self, st, {"bounds": "index out of bounds", "overflow": "arithmetic overflow",
                                  "overflowneg": "negation overflow"}.get(t[3][0], "assertion failure"))
        self.unwind_edge(st, t[5])

    # ---- calls ------------------------------------------------------------------------------------
    def call(self, st, fr, t):
        moves = []
        fo = t[1]
        args = [self.operand(st, fr, o, moves) for o in t[2]]
        dest = None
        obj, path, meta, dty = self.place(st, fr, t[3])
        dest = ("p", obj, path, None)
        if fo[0] == "k":
            d = self.P.ty(fo[1][0])
            inst = d.get("inst") if d["k"] == "fndef" else None
            if inst is None:
                v = self.operand(st, fr, fo, [])
                if isinstance(v, tuple) and v[0] == "f":
                    inst = v[1]
                else:
                    raise Unsupported("call of " + d["name"])
        else:
            d = self.P.ty(self.operand_ty(fr, fo))
            if d["k"] == "fndef" and d.get("inst") is not None:
                inst = d["inst"]
            else:
                v = self.operand(st, fr, fo, moves)
                if v[0] != "f":
                    raise Unsupported("call through %s" % (v[:1],))
                inst = v[1]
        self.invoke(st, fr, inst, args, t[2], dest, dty, t[4], t[5], moves)

    def invoke(self, st, fr, inst, args, argops, dest, dty, target, unwind, moves):
        inf = self.P.inst(inst)
        if inf["kind"] == "virtual":
            v = args[0]
            p = self.unwrap_ptr(v)
            meta = p[3] if p[0] == "p" else p[2]
            if p == UNINIT or meta is None:
                self.alarm(st, "uninit", "virtual call through an uninitialised or moved pointer")
                raise Dead()
            dt = self.pointee(self.operand_ty(fr, argops[0]))
            if meta[0] == "vt":
                real = self.P.q("vt", dt, meta[1], inf["idx"])
                if real is None:
                    raise Unsupported("virtual method of " + str(meta))
                p2 = (p[0], p[1], p[2], None) if p[0] == "p" else (p[0], p[1], None)
                self.invoke(st, fr, real, [p2] + args[1:], argops, dest, dty, target, unwind, moves)
                return
            snap = self.snapshot(st)
            try:
                r = self.env.virtual(self, st, meta, dt, canon_name(inf["path"]), inf["idx"], args)
            except Split:
                self.restore(st, snap)
                raise
            self.finish_call(st, r, dest, target, unwind, moves)
            return
        m = self.modelcache.get(inst)
        if m is None:
            m = self.find_model(inst, inf)
            self.modelcache[inst] = m
        if m is not False:
            snap = self.snapshot(st)
            c = CallInfo(self, inst, inf, argops, fr, dest, dty, target, unwind, moves)
            try:
                r = m(self, st, args, c)
            except Split:
                self.restore(st, snap)
                raise
            except Entered:
                return
            if r is not NotImplemented:
                self.finish_call(st, r, dest, target, unwind, moves)
                return
            self.restore(st, snap)
        if inf["kind"] == "shim" and inf["path"].endswith(("drop_glue", "drop_in_place")):
            ty = inf["args"][0]
            self.do_moves(st, moves)
            p = self.unwrap_ptr(args[0])
            self.drop_value(st, p, ty, None, target, unwind)
            return
        c = self.constructor(inf, dty)
        if c is not None:
            self.finish_call(st, ("a", c, tuple(args)), dest, target, unwind, moves)
            return
        self.do_moves(st, moves)
        self.push(st, inst, args, dest, target, unwind)

    def constructor(self, inf, dty):
        """the variant that a tuple constructor used as a function builds"""
        if inf["kind"] != "item" or inf["body"] and self.P.body(inf["id"]) is not None:
            return None
        d = self.P.ty(dty)
        if d["k"] != "adt":
            return None
        name = canon_name(inf["path"]).split("::")[-1]
        for i, (v, f) in enumerate((x["name"], x["fields"]) for x in d["variants"]):
            if v.split("::")[-1] == name:
                return i
        return None

    def snapshot(self, st):
        return (dict(st.heap), st.num.copy(), dict(st.gh), st.trace, len(st.frames))

    def restore(self, st, s):
        st.heap, st.num, st.gh, st.trace = s[0], s[1], s[2], s[3]
        del st.frames[s[4]:]

    def finish_call(self, st, r, dest, target, unwind, moves):
        if isinstance(r, Fork):
            raise ForkReq(r, lambda s, v: self.complete(s, v, dest, target, moves), unwind)
        self.complete(st, r, dest, target, moves)

    def complete(self, st, v, dest, target, moves):
        self.do_moves(st, moves)
        if v is DIVERGE:
            raise Dead()
        self.write(st, dest[1], dest[2], v)
        if target is None:
            raise Dead()
        c = st.frames[-1]
        if c.body is not None:
            c.bb, c.si = target, 0

    def find_model(self, inst, inf):
        path = canon_name(inf["path"])
        e = self.env.model(path, inst, inf) if hasattr(self.env, "model") else None
        if e is not None:
            return e
        m = self.models.get(path)
        if m is not None:
            return m
        if inf["kind"] == "intrinsic" or inf["intrinsic"]:
            m = self.models.get("intrinsic:" + str(inf["intrinsic"]))
            if m is not None:
                return m
            if self.P.body(inst) is None:
                raise Unsupported("intrinsic " + str(inf["intrinsic"]))
        f = self.models.get("*")
        if f is not None:
            m = f(self, path, inst, inf)
            if m is not None:
                return m
        return False

    # ---- exploration -----------------------------------------------------------------------------
    def start(self, inst, args, setup=None):
        st = State()
        st.frames, st.heap, st.num, st.gh, st.unwinding, st.trace = [], {}, Store(), {}, False, None
        if setup:
            args = setup(st)
        self.push(st, inst, args, None, 0, "continue")
        return st

    def explore(self, states):
        """run all states to a fixpoint"""
        work = list(states)
        pending = []
        self.pending = pending
        while work or pending:
            self.ticks += 1
            if self.ticks % 64 == 0:
                self.budget(work, pending)
                if not work and not pending:
                    return
            if not work:
                key = heapq.heappop(pending)[-1]
                e = self.acc[key]
                e["queued"] = False
                st = e["state"].copy()
                if e["n"] > self.widen_after:
                    self.clamp(st)
                self.env.facts(st)
                if self.origins:
                    st.org = (key, self.env.measures(self, st))
                work.append((st, True))
            x = work.pop()
            st, resumed = x if isinstance(x, tuple) else (x, False)
            self.run(st, resumed, work)

    def budget(self, work, pending):
        """an analysis that does not settle is given up; with a finding in hand the rest is not needed"""
        t = time.process_time() - T0
        n = len(self.acc)
        if t > 420 or n > 20000 or ((self.alarms or getattr(self.env, "finds", None)) and (t > 150 or n > 8000)):
            st = work[-1] if work else None
            st = st[0] if isinstance(st, tuple) else st
            if st is None:
                st = self.acc[pending[0][-1]]["state"]
            if not (self.alarms or getattr(self.env, "finds", None)):
                self.alarm(st, "unsupported", "no fixpoint within the limits")
            del work[:], pending[:]

    def run(self, st, resumed, work):
        while True:
            # a loop head?
            fr = st.frames[-1] if st.frames else None
            if fr is not None and fr.body is not None and fr.si == 0 and fr.bb in fr.body.heads and not resumed:
                try:
                    self.arrive(st)
                except Split as e:
                    self.fork_split(st, e, work)
                except Infeasible:
                    pass
                except Dead:
                    pass
                except Unsupported as e:
                    self.alarm(st, "unsupported", str(e))
                return
            resumed = False
            try:
                self.step_block(st)
            except Split as e:
                self.fork_split(st, e, work)
                return
            except ForkReq as e:
                self.fork_outs(st, e, work)
                return
            except (Infeasible, Dead):
                return
            except Unsupported as e:
                self.alarm(st, "unsupported", str(e))
                return
            except Finished as e:
                try:
                    r = self.env.done(self, st, e.val, st.unwinding)
                    if isinstance(r, list):
                        work.extend(r)
                except Split as s:
                    self.alarm(st, "unsupported", "undecided final state")
                except (Infeasible, Dead):
                    pass
                except Unsupported as e:
                    self.alarm(st, "unsupported", str(e))
                return
            except Unwind:
                raise
            if not st.frames:
                return

    def assume_all(self, st, alt):
        for c in alt:
            if callable(c):
                c(st)
            elif c[0] == "in":
                self.assume_in(st, c[1], c[2])
            elif c[0] == "pred":
                st.num.memo[c[1]] = c[2]
            else:
                st.num.assume(c)

    def assume_in(self, st, v, s):
        v = st.num.norm(v)
        if isinstance(v, int):
            if not iinter(s, ((v, v),)):
                raise Infeasible()
            return
        if len(v.t) == 1 and v.t[0][1] in (1, -1):
            z, k = v.t[0]
            r = tuple((a - v.c, b - v.c) for a, b in s) if k == 1 else tuple((v.c - b, v.c - a) for a, b in reversed(s))
            st.num._setr(z, iinter(st.num.rng[z], r))
            return
        st.num.assume(le(s[0][0], v))
        st.num.assume(le(v, s[-1][1]))

    def fork_split(self, st, e, work):
        for alt in self.strict(st, e.alts):
            c = st.copy()
            try:
                self.assume_all(c, alt)
            except Infeasible:
                continue
            except KeyError:
                self.alarm(c, "unsupported", "a case distinction about an unknown that has no lasting name")
                continue
            work.append(c)

    def strict(self, st, alts):
        """x != y over several unknowns is not representable: x < y or x > y"""
        for alt in alts:
            for i, c in enumerate(alt):
                if isinstance(c, tuple) and c[0] == "c" and c[1] == "ne0":
                    v = st.num.norm(c[2])
                    if not isinstance(v, int) and len(v.t) > 1:
                        yield alt[:i] + [le(add(v, 1), 0)] + alt[i + 1:]
                        yield alt[:i] + [le(1, v)] + alt[i + 1:]
                        break
            else:
                yield alt

    def fork_outs(self, st, e, work):
        for f in e.fork.outs:
            c = st.copy()
            try:
                v = f(c)
                e.cont(c, v)
            except Unwind:
                try:
                    self.unwind_edge(c, e.unwind)
                except Dead:
                    continue
                except Finished as x:
                    self.env.done(self, c, None, True)
                    continue
            except (Infeasible, Dead):
                continue
            except Split as s:
                raise Unsupported("split inside an outcome")
            except Unsupported as x:
                self.alarm(c, "unsupported", str(x))
                continue
            work.append(c)

    # ---- joining ----------------------------------------------------------------------------------
    def arrive(self, st):
        self.env.prejoin(self, st)
        key, leaves, objs = Canon(self, st).run()
        self.env.garbage(self, st, objs)
        leaves = [st.num.norm(v) for v in leaves]
        if st.org is not None:
            self.edge(st, key)
        e = self.acc.get(key)
        if e is None:
            e = self.acc[key] = {"state": None, "leaves": None, "n": 0, "queued": False}
            st2, lv = rebuild_state(self, st, leaves, st.num, objs)
            e["state"], e["leaves"], e["objs"] = st2, lv, objs
            changed = True
        elif self.seen_before(e, st, leaves):
            changed = False
        else:
            changed = self.join(e, st, leaves, objs)
        if changed:
            e["n"] += 1
            self.joins += 1
            if e["n"] > 400:
                raise Unsupported("no fixpoint")
            if not e["queued"]:
                e["queued"] = True
                self.queue(st, key)

    def queue(self, st, key):
        pos = ()
        for f in st.frames:
            if f.body is not None:
                o = f.body.order or wto(f.body)
                pos += o.get(f.bb, (0,))
            else:
                pos += (0,)
        self.ticket += 1
        heapq.heappush(self.pending, (pos, self.ticket, key))

    def clamp(self, st):
        """numbers whose bounds a join gave up are at least within their machine types"""
        def go(v, t, depth):
            if isinstance(v, Lin):
                r = self.range_of(t)
                if r is not None and self.P.ty(t)["k"] in ("uint", "int", "char"):
                    lo, hi = st.num.bounds(v)
                    if lo < r[0]:
                        st.num.assume(le(r[0], v))
                    if hi > r[1]:
                        st.num.assume(le(v, r[1]))
            elif isinstance(v, tuple) and v and v[0] == "a" and isinstance(v[1], int) and depth < 4:
                d = self.P.ty(t)
                if d["k"] == "adt" and v[1] < len(d["variants"]) or d["k"] == "tuple":
                    fs = self.fields(t, v[1]) if d["k"] == "adt" else d["elems"]
                    if len(fs) == len(v[2]):
                        for x, y in zip(v[2], fs):
                            go(x, y, depth + 1)
        for o, v in list(st.heap.items()):
            t = self.otype.get(o)
            if t is not None and o[0] == "l":
                go(v, t, 0)

    def edge(self, st, key):
        """what one run from loop state to loop state does to the measures"""
        src, old = st.org
        new = self.env.measures(self, st)
        m = {}
        for k, v in new.items():
            if k in old:
                d = st.num.norm(sub(v, old[k]))
                hi = d if isinstance(d, int) else st.num.bounds(d)[1]
                if hi <= 0:
                    m[k] = "dec" if hi < 0 else "same"
        e = self.edges.get((src, key))
        if e is not None:
            m = {k: ("dec" if v == "dec" and e[k] == "dec" else "same") for k, v in m.items() if k in e}
        self.edges[(src, key)] = m

    def seen_before(self, e, st, leaves):
        """the same state up to the names of unknowns has been joined already"""
        num = st.num
        names = {}

        def nm(s):
            n = names.get(s)
            if n is None:
                n = names[s] = (len(names), num.rng.get(s))
            return n[0]

        def form(v):
            return v if isinstance(v, int) else (v.c, tuple([(nm(s), k) for s, k in v.t]))
        lv = tuple([form(v) for v in leaves])
        cons = []
        todo = list(num.cons)
        more = True
        while more and todo:
            more = False
            for c in list(todo):
                if any(s in names for s, _ in c.t):
                    todo.remove(c)
                    more = True
                    cons.append((c.c, tuple(sorted((nm(s), k) for s, k in c.t))))
        sig = (lv, frozenset(cons), tuple([r for _, r in names.values()]))
        seen = e.setdefault("sigs", set())
        if sig in seen:
            return True
        seen.add(sig)
        return False

    def join(self, e, st, leaves, objs):
        S, A = e["state"], e["leaves"]
        sa, sb = S.num, st.num
        A = [sa.norm(v) for v in A]
        r = hull(A, sa, leaves, sb)
        if r is None:
            return False
        num, newleaves, changed = combine(self, r, A, sa, leaves, sb, e["n"] > self.widen_after,
                                          e.setdefault("lost", set()) if e["n"] > 2 * self.widen_after + 6 else None,
                                          self.env.exact(S, A), self.env.coarse(S, A))
        if not changed:
            return False
        st2, lv = rebuild_state(self, S, newleaves, num, e["objs"])
        st2.trace = st.trace
        e["state"], e["leaves"] = st2, lv
        return True


class CallInfo:
    __slots__ = ("ai", "inst", "inf", "argops", "fr", "dest", "dty", "target", "unwind", "moves")

    def __init__(self, *a):
        (self.ai, self.inst, self.inf, self.argops, self.fr, self.dest, self.dty, self.target, self.unwind, self.moves) = a

    def argty(self, i):
        return self.ai.operand_ty(self.fr, self.argops[i])

    def enter(self, st, inst, args):
        """continue with another function in place of the called one"""
        self.ai.do_moves(st, self.moves)
        self.ai.push(st, inst, args, self.dest, self.target, self.unwind)
        raise Entered()


class ForkReq(Exception):
    def __init__(self, fork, cont, unwind):
        self.fork, self.cont, self.unwind = fork, cont, unwind


class Finished(Exception):
    def __init__(self, val):
        self.val = val


class _Div:
    pass


DIVERGE = _Div()


# ---- canonical form of a state ----------------------------------------------------------------------
class Canon:
    def __init__(self, ai, st):
        self.ai, self.st = ai, st
        self.leaves = []
        self.objs = {}
        self.toks = {}
        self.queue = []
        self.anch = [st.num.norm(a) for a in ai.env.anchors(st)]

    def obj(self, o):
        if o[0] in ("ga", "gs", "zst", "in"):
            return o
        n = self.objs.get(o)
        if n is None:
            n = self.objs[o] = len(self.objs)
            self.queue.append(o)
        return n

    def leaf(self, v):
        v = self.st.num.norm(v)
        for i, a in enumerate(self.anch):
            d = sub(v, a)
            if isinstance(d, int) and -4 <= d <= 4 and not (isinstance(a, int)):
                self.leaves.append(v)
                return ("@", i, d)
        self.leaves.append(v)
        return "#"

    def val(self, v):
        if v is None or isinstance(v, (bool, str)):
            return v
        if isinstance(v, (int, Lin)):
            return self.leaf(v)
        if isinstance(v, tuple):
            if not v:
                return v
            k = v[0]
            if k == "a":
                return ("a", v[1], tuple([self.val(x) for x in v[2]]))
            if k == "uninit" or k == "K":
                return v
            if k == "p":
                return ("p", self.obj(v[1]), tuple([e if isinstance(e, int) or e[0] != "i" else ("i", self.val(e[1])) for e in v[2]]),
                        self.meta(v[3]))
            if k == "n":
                return ("n", v[1], self.meta(v[2]) if not isinstance(v[2], int) else v[2])
            if k == "t":
                n = self.toks.get(v[1])
                if n is None:
                    n = self.toks[v[1]] = len(self.toks)
                return ("t", n) + tuple(self.val(x) for x in v[2:])
            if k == "c":
                e = self.st.num.evalc(v)
                if e is None:
                    raise Split([v], [neg(v)])
                return e
            if k == "f":
                return v
            if k == "o":
                return ("o", self.obj(v[1]))
            if k == "P" and v[1] == "lit":
                return v
            if k == "x" and v[1] == "flt":
                # a float scaled down is another state than one scaled up or not at all
                return tuple([self.val(x) for x in v]) + (self.st.num.evalc(lt(v[3], 0)),)
            return tuple([self.val(x) for x in v])
        if isinstance(v, bytes):
            return v
        raise Unsupported("value %r in a joined state" % (v,))

    def meta(self, m):
        if m is None or isinstance(m, str):
            return m
        if isinstance(m, tuple) and m and m[0] == "vt":
            return m
        return self.val(m)

    def run(self):
        st = self.st
        out = [st.unwinding]
        fl = []
        for d, f in enumerate(st.frames):
            top = d == len(st.frames) - 1
            fl.append(self.live(st, d, f, top) if f.body is not None else ())
        # ghost first so that its leaves become the parameters
        g = []
        for k in sorted(st.gh):
            g.append((k, self.val(st.gh[k])))
        out.append(tuple(g))
        keep = set()
        for d, f in enumerate(st.frames):
            top = d == len(st.frames) - 1
            out.append((f.inst, f.bb, f.si if not top else 0, f.target if d else None, f.unwind if d else None, f.tag,
                        self.val(f.dest) if f.dest is not None else None))
            if f.body is None:
                out.append(self.native(f.data))
                continue
            vs = []
            for l in sorted(fl[d]):
                o = ("l", f.uid, l)
                if o in st.heap:
                    n = self.objs.get(o)
                    if n is None:
                        n = self.objs[o] = len(self.objs)
                        keep.add(o)
                        vs.append((l, n, self.val(st.heap[o])))
                    else:
                        vs.append((l, n))
            out.append(tuple(vs))
        hs = []
        done = set(keep)
        while self.queue:
            o = self.queue.pop(0)
            if o in done:
                continue
            done.add(o)
            v = st.heap.get(o)
            if v is None:
                hs.append((self.objs[o], "freed"))
                continue
            # a local of a live frame is identified by its position, others by number only
            pos = None
            if o[0] == "l":
                for d, f in enumerate(st.frames):
                    if f.uid == o[1]:
                        pos = (d, o[2])
            hs.append((self.objs[o], pos, self.val(v)))
        out.append(tuple(hs))
        # statics that were written
        gs = []
        for o in sorted((o for o in st.heap if o[0] == "gs"), key=str):
            gs.append((o, self.val(st.heap[o])))
        out.append(tuple(gs))
        while self.queue:
            o = self.queue.pop(0)
            if o in done:
                continue
            done.add(o)
            v = st.heap.get(o)
            out.append((self.objs[o], self.val(v) if v is not None else "freed"))
        return tuple(out), self.leaves, dict(self.objs)

    def native(self, data):
        return (tuple([(self.val(p), ty) for p, ty in data[1]]), data[2], tuple([self.obj(o) for o in data[3] or ()]))

    def live(self, st, d, f, top):
        b = f.body
        if top:
            return set(b.live_in[f.bb])
        c = st.frames[d + 1]
        s = set()
        if c.target is not None:
            s |= b.live_in[c.target]
        if isinstance(c.unwind, int):
            s |= b.live_in[c.unwind]
        return s


def rebuild_state(ai, st, leaves, num, objs):
    """copy of st holding only what the canonical form reached, with the given leaf values"""
    it = iter(leaves)
    out = State()
    out.num = num
    out.unwinding, out.trace = st.unwinding, st.trace
    lv = []
    can = Canon(ai, st)

    def nxt():
        v = next(it)
        lv.append(v)
        return v

    def val(v):
        if v is None or isinstance(v, (bool, str, bytes)):
            return v
        if isinstance(v, (int, Lin)):
            return nxt()
        k = v[0] if v else None
        if not v:
            return v
        if k == "a":
            return ("a", v[1], tuple([val(x) for x in v[2]]))
        if k in ("uninit", "K", "f"):
            return v
        if k == "p":
            see(v[1])
            return ("p", v[1], tuple([e if isinstance(e, int) or e[0] != "i" else ("i", val(e[1])) for e in v[2]]), meta(v[3]))
        if k == "n":
            return ("n", v[1], meta(v[2]) if not isinstance(v[2], int) else v[2])
        if k == "t":
            return ("t", v[1]) + tuple(val(x) for x in v[2:])
        if k == "c":
            return st.num.evalc(v)
        if k == "o":
            see(v[1])
            return v
        if k == "P" and v[1] == "lit":
            return v
        return tuple([val(x) for x in v])

    def meta(m):
        if m is None or isinstance(m, str):
            return m
        if isinstance(m, tuple) and m and m[0] == "vt":
            return m
        return val(m)

    seen, queue = set(), []

    def see(o):
        if o[0] in ("ga", "gs", "zst", "in"):
            return
        if o not in seen:
            seen.add(o)
            queue.append(o)
    heap = {}
    gh = {}
    for k in sorted(st.gh):
        gh[k] = val(st.gh[k])
    frames = []
    done = set()
    for d, f in enumerate(st.frames):
        top = d == len(st.frames) - 1
        live = can.live(st, d, f, top) if f.body is not None else ()
        c = f.copy()
        if f.dest is not None:
            c.dest = val(f.dest)
        if f.body is None:
            its = tuple([(val(p), ty) for p, ty in f.data[1]])
            for o in f.data[3] or ():
                see(o)
            c.data = (f.data[0], its) + f.data[2:]
            frames.append(c)
            continue
        for l in sorted(live):
            o = ("l", f.uid, l)
            if o in st.heap:
                if o not in seen:
                    seen.add(o)
                    done.add(o)
                    heap[o] = val(st.heap[o])
        frames.append(c)
    while queue:
        o = queue.pop(0)
        if o in done:
            continue
        done.add(o)
        v = st.heap.get(o)
        if v is not None:
            heap[o] = val(v)
    for o in sorted((o for o in st.heap if o[0] == "gs"), key=str):
        heap[o] = val(st.heap[o])
    while queue:
        o = queue.pop(0)
        if o in done:
            continue
        done.add(o)
        v = st.heap.get(o)
        if v is not None:
            heap[o] = val(v)
    for o in st.heap:
        if o[0] in ("zst", "in"):
            heap[o] = st.heap[o]
    # locals that exist but are dead are reinitialised on demand
    for d, f in enumerate(frames):
        for l in range(f.body.nlocals if f.body is not None else 0):
            o = ("l", f.uid, l)
            if o not in heap and o in st.heap:
                heap[o] = UNINIT
    out.frames, out.heap, out.gh = frames, heap, gh
    return out, lv


# ---- joining of leaf vectors -------------------------------------------------------------------------
from fractions import Fraction


def hull(A, sa, B, sb):
    """Affine hull of two families of leaf vectors.  Returns for each leaf either ('const', c), ('pivot', i) or
    ('aff', {pivot: coef}, const)."""
    n = len(A)
    # columns: directions of A's symbols, of B's symbols, and the difference of the base points
    cols = {}
    for i in range(n):
        a = A[i]
        if not isinstance(a, int):
            for s, k in a.t:
                cols.setdefault(("a", s), {})[i] = k
        b = B[i]
        if not isinstance(b, int):
            for s, k in b.t:
                cols.setdefault(("b", s), {})[i] = k
        ca = a if isinstance(a, int) else a.c
        cb = b if isinstance(b, int) else b.c
        if ca != cb:
            cols.setdefault("d", {})[i] = cb - ca
    vecs = list(cols.values())
    # reduce to column echelon form in leaf order
    basis = []      # (pivot leaf, vector with vector[pivot] == 1)
    for v in vecs:
        v = dict(v)
        for p, b in basis:
            if p in v:
                k = v[p]
                for i, x in b.items():
                    y = v.get(i, 0) - k * x
                    if y:
                        v[i] = y
                    else:
                        v.pop(i, None)
        if not v:
            continue
        p = min(v)
        k = v[p]
        if k == -1:
            v = {i: -x for i, x in v.items()}
        elif k != 1:
            v = {i: Fraction(x, k) for i, x in v.items()}
        nb = []
        for q, b in basis:
            if p in b:
                k = b[p]
                b = dict(b)
                for i, x in v.items():
                    y = b.get(i, 0) - k * x
                    if y:
                        b[i] = y
                    else:
                        b.pop(i, None)
            nb.append((q, b))
        nb.append((p, v))
        basis = nb
    # re-echelon so that pivots are the earliest leaves
    basis.sort(key=lambda x: x[0])
    out = [None] * n
    piv = {p: b for p, b in basis}
    for i in range(n):
        if i in piv:
            out[i] = ("pivot", i)
            continue
        co = {p: b[i] for p, b in basis if i in b}
        ca = A[i]
        # leaf_i = const + sum co[p] * leaf_p ; constant from A's base point
        base = ca if isinstance(ca, int) else ca.c
        for p, k in co.items():
            ap = A[p]
            base -= k * (ap if isinstance(ap, int) else ap.c)
        if not co:
            out[i] = ("const", int(base))
        elif base.denominator == 1 and all(k.denominator == 1 for k in co.values()):
            out[i] = ("aff", {p: int(k) for p, k in co.items()}, int(base))
        else:
            out[i] = ("pivot", i)
    return out


def combine(ai, h, A, sa, B, sb, widen, lost=None, exact=(), coarse=()):
    """joined store and leaves from the hull description; also whether it is larger than A.
    lost: bounds that kept growing; they are given up for good (what remains follows from the others)"""
    num = Store()
    new = [None] * len(h)
    changed = False
    # was A already of this form? (its hull with itself)
    ha = hull(A, sa, A, sa)
    if [x if x[0] != "aff" else (x[0], tuple(sorted(x[1].items())), x[2]) for x in ha] != \
       [x if x[0] != "aff" else (x[0], tuple(sorted(x[1].items())), x[2]) for x in h]:
        changed = True
    pivots = [i for i, x in enumerate(h) if x[0] == "pivot"]
    for i in pivots:
        ra, rb = sa.iset(A[i]), sb.iset(B[i])
        if lost is not None and i not in exact:
            lo, cl = give(ai, lost, (i, i), -1, ra[0][0], rb[0][0])
            hi, ch = give(ai, lost, (i, i), 1, ra[-1][1], rb[-1][1])
            changed = changed or cl or ch
            if (lo, hi) != (ra[0][0], ra[-1][1]):
                new[i] = num.fresh(lo, hi)
                continue
        if isub(rb, ra):
            r = ra
        else:
            changed = True
            r = iunion(ra, rb)
            if i in coarse:
                r = widen_set(ai, ra, r, ai.env.coarse_steps)
            elif widen and i not in exact:
                r = widen_set(ai, ra, r)
        if len(r) == 1 and r[0][0] == r[0][1]:
            new[i] = r[0][0]
        else:
            new[i] = num.fresh_set(r)
    for i, x in enumerate(h):
        if x[0] == "const":
            new[i] = x[1]
        elif x[0] == "aff":
            v = x[2]
            for p, k in x[1].items():
                v = add(v, mul(new[p], k))
            new[i] = v
    # relational information: bounds of every affine leaf and of pivot differences
    tmpl = []
    seen = set()
    for i, x in enumerate(h):
        if x[0] == "aff" and new[i] not in seen and not isinstance(new[i], int) and len(new[i].t) > 1:
            seen.add(new[i])
            tmpl.append(((i,), new[i], A[i], B[i]))
    pv = [i for i in pivots if not isinstance(new[i], int)]
    forms = {new[i] for i in pv}
    rel = list(pv)
    for i, x in enumerate(h):
        if x[0] == "aff" and len(x[1]) > 1 and not isinstance(new[i], int):
            f = sub(new[i], new[i].c)
            if f not in forms:
                forms.add(f)
                rel.append(i)
    if len(rel) > 14:
        rel = pv
    if len(rel) <= 14:
        for x in range(len(rel)):
            for y in range(x + 1, len(rel)):
                i, j = rel[x], rel[y]
                tmpl.append(((i, j), sub(new[i], new[j]), sub(A[i], A[j]), sub(B[i], B[j])))
                if ai.env_sums and i not in coarse and j not in coarse:
                    tmpl.append(((i, j, "+"), add(new[i], new[j]), add(A[i], A[j]), add(B[i], B[j])))
    for key, t, a, b in tmpl:
        t = num.norm(t)
        if isinstance(t, int):
            continue
        la, ua = sa.bounds(a)
        lb, ub = sb.bounds(b)
        if lost is not None:
            lo, cl = give(ai, lost, key, -1, la, lb)
            hi, ch = give(ai, lost, key, 1, ua, ub)
            changed = changed or cl or ch
            if hi < num._iv(t)[1]:
                num._le0(sub(t, hi))
            t = num.norm(t)
            if lo > num._iv(t)[0]:
                num._le0(sub(lo, t))
            continue
        lo, hi = min(la, lb), max(ua, ub)
        steps = ai.env.coarse_steps if any(i in coarse for i in key) else None
        l0, h0 = num._iv(t)
        if hi < h0:
            if ub > ua:
                changed = True
                if widen or steps:
                    hi = wid_up(ai, hi, steps)
            if hi < h0:
                num._le0(sub(t, hi))
        elif ua < h0 and ub > ua:
            changed = True
        if lo > l0:
            if lb < la:
                changed = True
                if widen or steps:
                    lo = wid_dn(ai, lo, steps)
            if lo > l0:
                num._le0(sub(lo, t))
        elif la > l0 and lb < la:
            changed = True
    new = [num.norm(v) for v in new]
    return num, new, changed


def give(ai, lost, key, side, a, b):
    """bound of the join of two sides; after a few increases it is given up. A bound that had been granted
    before, and that others kept tight, does not count again"""
    if (key, side) in lost:
        return side * INF, False
    if b <= a if side > 0 else b >= a:
        return a, False
    c = (wid_up if side > 0 else wid_dn)(ai, b)
    for k in range(3):
        for rep in range(8):
            if (key, side, k, rep, c) not in lost:
                if rep == 0 and any(x[:3] == (key, side, k) for x in lost):
                    break
                lost.add((key, side, k, rep, c))
                return c, True
    lost.add((key, side))
    return side * INF, True


def wid_up(ai, x, steps=None):
    for t in sorted(steps or ai.thresholds):
        if t >= x:
            return t
    return INF


def wid_dn(ai, x, steps=None):
    for t in sorted(steps or ai.thresholds, reverse=True):
        if 0 <= t <= x:
            return t
    for t in sorted(steps or ai.thresholds):
        if -t <= x:
            return -t
    return -INF


def widen_set(ai, old, new, steps=None):
    lo = old[0][0] if new[0][0] >= old[0][0] else wid_dn(ai, new[0][0], steps)
    hi = old[-1][1] if new[-1][1] <= old[-1][1] else wid_up(ai, new[-1][1], steps)
    # gaps survive that were there before or lie beyond the old set
    gaps = [(x[1] + 1, y[0] - 1) for x, y in zip(new, new[1:])]
    was = set((x[1] + 1, y[0] - 1) for x, y in zip(old, old[1:]))
    out, cur = [], lo
    for g in gaps:
        if g in was or g[0] > old[-1][1] or g[1] < old[0][0]:
            out.append((cur, g[0] - 1))
            cur = g[1] + 1
    out.append((cur, hi))
    return iset(*out)


AI.env_sums = False
