"""Canonical form of a function body: type numbers replaced by type names, constants expanded, no line
numbers - so that bodies from two compilations can be compared."""
import re
from prog import Prog


def canon_name(s):
    return re.sub(r"\b(?:witness::)?(core|alloc|std)::", "std::", s)


class Norm:
    def __init__(self, P):
        self.P = P
        self.depth = 0

    def ty(self, t):
        return canon_name(self.P.ty(t)["name"])

    def place(self, p):
        out = []
        for e in p[1]:
            if e[0] == "f":
                out.append(("f", e[1], self.ty(e[2])))
            elif e[0] == "oc":
                out.append(("oc", self.ty(e[1])))
            else:
                out.append(tuple(e))
        return (p[0], tuple(out))

    def const(self, v):
        if isinstance(v, dict):
            if "to" in v:
                p = v["p"]
                if p and "alloc" in p and self.depth < 4:
                    self.depth += 1
                    a = ["alloc", p["alloc"], p["off"], v["to"]]
                    if v["meta"] is not None:
                        a.append(v["meta"])
                    r = self.P.q(*a) if not isinstance(v["meta"], dict) else "dyn"
                    r = self.const(r)
                    self.depth -= 1
                    return ("ptr", r, str(v["meta"]) if not isinstance(v["meta"], dict) else self.const(v["meta"]))
                return ("ptr", self.const(p), self.const(v["meta"]))
            if "static" in v:
                return ("static", canon_name(self.P.q("static", v["static"])["name"]), v["off"])
            if "fn" in v:
                return ("fn", canon_name(self.P.inst(v["fn"])["name"]))
            if "vtable" in v:
                return ("vt", self.ty(v["vtable"]))
            if "unk" in v:
                return ("unk", canon_name(re.sub(r"\b(DefId|id|Span|AdtDef|def_id)\b[^,)]*|\d+", "", str(v["unk"]))))
            return tuple((k, self.const(x)) for k, x in sorted(v.items()))
        if isinstance(v, list):
            return tuple(self.const(x) for x in v)
        return v

    def op(self, o):
        if o[0] in ("c", "m"):
            return (o[0], self.place(o[1]))
        if o[0] == "k":
            t = self.P.ty(o[1][0])
            if t["k"] == "fndef":
                return ("fn", canon_name(t["name"]))
            return ("k", canon_name(t["name"]), self.const(o[1][1]))
        return tuple(o)

    def rv(self, r):
        k = r[0]
        if k == "use":
            return (k, self.op(r[1]))
        if k in ("bin", "cbin"):
            return (k, r[1], self.op(r[2]), self.op(r[3]))
        if k == "un":
            return (k, r[1], self.op(r[2]))
        if k == "cast":
            return (k, r[1], self.op(r[2]), self.ty(r[3]))
        if k == "agg":
            kk = r[1]
            if kk[0] in ("array", "closure", "rawptr"):
                kk = (kk[0], self.ty(kk[1]))
            elif kk[0] == "adt":
                kk = ("adt", self.ty(kk[1]), kk[2], kk[3])
            return (k, tuple(kk), tuple(self.op(o) for o in r[2]))
        if k == "repeat":
            return (k, self.op(r[1]), r[2])
        if k in ("ref", "addr"):
            return (k, r[1], self.place(r[2]))
        if k == "reborrow":
            return (k, self.ty(r[1]), self.place(r[2]))
        if k in ("discr", "len"):
            return (k, self.place(r[1]))
        return tuple(str(x) for x in r)

    def body(self, j):
        out = [tuple(self.ty(t) for t in j["locals"]), j["argc"]]
        for b in j["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    out.append(("=", self.place(s[2]), self.rv(s[3])))
                elif s[0] == "sd":
                    out.append(("sd", self.place(s[2]), s[3]))
                elif s[0] in ("live", "dead"):
                    out.append((s[0], s[2]))
                elif s[0] == "assume":
                    out.append(("assume", self.op(s[2])))
                elif s[0] == "copyno":
                    out.append(("copyno",) + tuple(self.op(o) for o in s[2:]))
            t = b["t"]
            k = t[0]
            if k == "switch":
                out.append((k, self.op(t[1]), tuple(tuple(x) for x in t[2]), t[3]))
            elif k == "drop":
                out.append((k, self.place(t[1]), t[3], t[4]))
            elif k == "call":
                out.append((k, self.op(t[1]), tuple(self.op(o) for o in t[2]), self.place(t[3]), t[4], t[5]))
            elif k == "assert":
                out.append((k, self.op(t[1]), t[2], t[3][0], t[4], t[5]))
            else:
                out.append(tuple(t))
        return tuple(out)


def types_of_body(P, j, seen=None):
    """all type ids reachable from the types of the body's locals"""
    seen = seen if seen is not None else set()
    todo = list(j["locals"])
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        d = P.ty(t)
        for x in d.get("args") or []:
            if isinstance(x, int):
                todo.append(x)
        for x in d.get("elems") or []:
            todo.append(x)
        if isinstance(d.get("elem"), int):
            todo.append(d["elem"])
    return seen
