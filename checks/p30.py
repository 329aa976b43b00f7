"""P30: memory is reinterpreted only between types of guaranteed identical layout."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from build import Server
from prog import Prog
from normal import canon_name

SAME_AS_CONTENT = {"std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::cell::UnsafeCell", "std::cell::Cell", "std::num::Wrapping"}
POINTERS = {"std::ptr::NonNull", "std::boxed::Box", "std::ptr::Unique"}
ERASED = {"u8", "i8", "()", "std::ffi::c_void", "std::mem::MaybeUninit<u8>"}
CASTS = re.compile(r"::(cast|cast_mut|cast_const|cast_init|cast_uninit)$")
TRANSMUTE = re.compile(r"::(transmute|transmute_copy|transmute_unchecked)$")


class Layouts:
    def __init__(self, P):
        self.P = P

    def strip(self, t):
        n = canon_name(self.P.ty(t)["name"])
        n = re.sub(r"\bfor<[^>]*> ?", "", n)
        n = re.sub(r"'[A-Za-z_]\w*( \+ |, | )?", "", n)
        return re.sub(r" \+ (?=[>),]|$)|<>|, (?=>)|\s+\+\s*$", "", n).replace("(dyn ", "dyn ").replace(")", "").replace("(", "")

    def same(self, a, b):
        return a == b or self.strip(a) == self.strip(b)

    def zst(self, t):
        d = self.P.ty(t)
        if d["k"] == "adt" and d["def"].endswith("::PhantomData"):
            return True
        return d["k"] == "tuple" and not d["elems"] or d["size"] == 0 and d["align"] == 1

    def content(self, t):
        """the one type whose layout this wrapper is guaranteed to have, or None"""
        d = self.P.ty(t)
        if d["k"] == "adt" and d["adt"] == "Struct":
            if canon_name(d["def"]) in SAME_AS_CONTENT:
                a = [x for x in d["args"] if isinstance(x, int)]
                return a[0]
            if d["reprt"] or (d["reprc"] and "pack: None" in d["repr"] and "align: None" in d["repr"]):
                fs = [f[1] for f in d["variants"][0]["fields"] if not self.zst(f[1])]
                if len(fs) == 1:
                    return self.subst(fs[0], d)
        if d["k"] == "adt" and d["adt"] == "Union" and canon_name(d["def"]) in SAME_AS_CONTENT:
            return [x for x in d["args"] if isinstance(x, int)][0]
        return None

    def subst(self, f, d):
        # field types of a generic struct mentioned inside generic code are given in the struct's own parameters
        self.maps = None
        return ("in", f, tuple(x for x in d["args"]))

    def name(self, t):
        if isinstance(t, tuple):
            n = self.strip(t[1])
            own = [self.strip(x) if isinstance(x, int) else str(x) for x in t[2]]
            d = self.params(t[1])
            for idx, pn in d:
                if idx < len(own):
                    n = re.sub(r"\b%s\b" % re.escape(pn), lambda m: own[idx], n)
            return n
        return self.strip(t)

    def params(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        d = self.P.ty(t)
        if d["k"] == "param":
            return [(d["index"], d["name"])]
        out = []
        for x in (d.get("args") or []) + (d.get("elems") or []) + [d.get("elem")]:
            if isinstance(x, int):
                out += self.params(x, seen)
        return out

    def forms(self, t):
        out = [self.name(t)]
        while not isinstance(t, tuple):
            c = self.content(t)
            if c is None:
                d = self.P.ty(t)
                if d["k"] == "array":
                    for f in self.forms(d["elem"])[1:]:
                        out.append("[%s; %s" % (f, out[0].rsplit("; ", 1)[1]))
                break
            t = c
            out.append(self.name(t))
        return out

    def plain(self, t, n=0):
        """a number, a bool, a char, bytes: no pointers, no type parameters"""
        d = self.P.ty(t)
        if d["k"] in ("int", "uint", "float", "bool", "char"):
            return True
        return d["k"] == "array" and self.plain(d["elem"])

    def compat(self, a, b):
        if not isinstance(a, tuple) and not isinstance(b, tuple):
            if {self.strip(a), self.strip(b)} == {"str", "[u8]"}:
                return True
            if self.plain(a) and self.plain(b) and self.P.ty(a)["size"] == self.P.ty(b)["size"]:
                return True
        return bool(set(self.forms(a)) & set(self.forms(b)))

    def pointee(self, t):
        d = self.P.ty(t)
        if d["k"] in ("ptr", "ref"):
            return d["elem"]
        if d["k"] == "adt" and canon_name(d["def"]) in POINTERS:
            return [x for x in d["args"] if isinstance(x, int)][0]
        return None


def place_ty(P, j, p):
    t = j["locals"][p[0]]
    for e in p[1]:
        if e[0] == "f":
            t = e[2]
        elif e[0] == "oc":
            t = e[1]
        elif e[0] in ("*", "i", "ci"):
            d = P.ty(t)
            t = d.get("elem") if d.get("elem") is not None else (d.get("args") or [None])[0]
            if not isinstance(t, int):
                return None
    return t


def op_ty(P, j, o):
    if o[0] in ("c", "m"):
        return place_ty(P, j, o[1])
    if o[0] == "k":
        return o[1][0]
    return None


def origins(P, L, j):
    """local -> type of the pointer it was first made from, looking through pointer casts"""
    defs = {}
    for b in j["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and not s[2][1]:
                defs.setdefault(s[2][0], []).append(s[3])
        if b["t"][0] == "call" and not b["t"][3][1]:
            defs.setdefault(b["t"][3][0], []).append(b["t"])

    def org(o, n=0):
        t = op_ty(P, j, o)
        if o[0] not in ("c", "m") or o[1][1] or n > 20:
            return t
        ds = defs.get(o[1][0], [])
        if len(ds) != 1:
            return t
        r = ds[0]
        if r[0] == "use":
            return org(r[1], n + 1)
        if r[0] == "cast" and r[1] == "PtrToPtr":
            return org(r[2], n + 1)
        if r[0] == "call" and r[1][0] == "k" and len(r[2]) == 1:
            d = P.ty(r[1][1][0])
            if d["k"] == "fndef" and (CASTS.search(d["def"]) or re.search(r"NonNull<T>.*::(as_ptr|from|new)$|::into_raw$", canon_name(d["def"]))):
                return org(r[2][0], n + 1)
        return t
    return org


def bodies(s):
    for k in ("miniserde", ""):
        for name, j in s.q("gbodies", k):
            yield name, j


def check(r):
    s = Server()
    P = Prog(s)
    L = Layouts(P)
    control = {}
    for name, j in bodies(s):
        r.count("functions_scanned")
        org = origins(P, L, j)

        def report(what, src, dst, line, isptr):
            r.count("reinterpretations")
            if "control_cast" in name:
                control[name.rsplit("::", 1)[1]] = False
                return
            r.violation("%s in %s" % (what, name), "%s (%s:%s): %s from `%s` to `%s`, which are not guaranteed to have the same layout"
                        % (name, j["file"], line, what, P.ty(src)["name"], P.ty(dst)["name"]))

        def ok(src, dst):
            r.count("reinterpretations")
            if not L.same(src, dst):
                r.count("between_different_types")
            if "control_cast" in name:
                control.setdefault(name.rsplit("::", 1)[1], True)

        def pointers(src, now, dst, line, what):
            a, b = L.pointee(src), L.pointee(dst)
            if b is None or a is None:
                report(what, src, dst, line, True)
                return
            if L.strip(b) in {x.replace("(", "").replace(")", "") for x in ERASED}:
                return
            d = P.ty(b) if not isinstance(b, tuple) else {"k": None}
            # a pointer to the first element of an array is one to the array: layout is not in question
            el = d["elem"] if d["k"] == "array" else None
            if L.compat(a, b) or (el is not None and L.compat(a, el)) or (now is not None and L.pointee(now) is not None and L.compat(L.pointee(now), b)):
                ok(a, b)
            else:
                report(what, src, dst, line, True)
        for b in j["blocks"]:
            for st in b["s"]:
                if st[0] != "=":
                    continue
                rv = st[3]
                for p in [st[2]]:
                    t = j["locals"][p[0]]
                    for e in p[1]:
                        d = P.ty(t) if t is not None else None
                        if e[0] == "f" and d and d["k"] == "adt" and d["adt"] == "Union" and d["krate"] in ("miniserde", "witness"):
                            r.violation("union in " + name, "%s uses a union to reinterpret memory" % name)
                        t = e[2] if e[0] == "f" else None
                if rv[0] != "cast":
                    continue
                if rv[1] == "PtrToPtr":
                    pointers(org(rv[2]), op_ty(P, j, rv[2]), rv[3], st[1], "pointer cast")
                elif rv[1] == "Transmute":
                    a, c = op_ty(P, j, rv[2]), rv[3]
                    if L.compat(a, c):
                        ok(a, c)
                    elif L.pointee(a) is not None and L.pointee(c) is not None:
                        pointers(a, None, c, st[1], "transmute")
                    else:
                        report("transmute", a, c, st[1], False)
                elif rv[1] in ("PointerWithExposedProvenance",):
                    report("integer to pointer cast", op_ty(P, j, rv[2]), rv[3], st[1], True)
            t = b["t"]
            if t[0] == "call" and t[1][0] == "k" and t[2]:
                d = P.ty(t[1][1][0])
                if d["k"] != "fndef" or d["krate"] in ("miniserde", "witness"):
                    continue
                dst = place_ty(P, j, t[3])
                if CASTS.search(d["def"]) and L.pointee(dst) is not None:
                    pointers(org(t[2][0]), op_ty(P, j, t[2][0]), dst, b["line"], "pointer cast")
                elif TRANSMUTE.search(d["def"]):
                    a = op_ty(P, j, t[2][0])
                    if d["def"].endswith("transmute_copy"):
                        a = L.pointee(a)
                    if L.compat(a, dst):
                        ok(a, dst)
                    elif L.pointee(a) is not None and L.pointee(dst) is not None:
                        pointers(a, None, dst, b["line"], "transmute")
                    else:
                        report("transmute", a, dst, b["line"], False)
    s.close()
    if control != {"control_cast_good": True, "control_cast_bad": False}:
        raise common.Anchor("positive controls were not decided as expected: %s" % control)
    r.floor("functions_scanned", 400)
    r.floor("between_different_types", 25)
    r.cov["explanation"] = ("every pointer cast, .cast() call and transmute in generic library code, in the code of the exported macro and in "
                            "derived code: source and target must be the same type up to lifetimes, or differ only by repr(C)/repr(transparent) "
                            "wrappers with a single non-zero-sized field (or MaybeUninit, ManuallyDrop, UnsafeCell, arrays of such)")
    r.assumptions += ["layout guarantees of repr(C), repr(transparent) and of core wrapper types as documented by Rust",
                      "derived code is represented by the 18 shapes of the witness program; the derive emits the same cast for every shape"]


if __name__ == "__main__":
    sys.exit(common.run("P30", check))
