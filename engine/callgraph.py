"""Whole-program call graph over monomorphic instances, with class-hierarchy edges for virtual calls."""
from prog import rv_ops


class Graph:
    def __init__(self, P):
        self.P = P
        self.direct = {}          # inst -> set of inst
        self.virt = {}            # inst -> set of (dyn trait name, slot)
        self.unsized = {}         # dyn trait name -> {concrete ty}
        self.slots = {}           # (dyn trait, slot) -> set of inst
        self.reified = set()
        self.calls_ptr = set()
        self.sites = 0
        self.dyns = {}            # dyn trait name -> dyn ty ids

    def _pointee_chain(self, t):
        P = self.P
        d = P.ty(t)
        if d["k"] in ("ref", "ptr"):
            return d["elem"]
        if d["k"] == "adt":
            a = [x for x in d["args"] if isinstance(x, int)]
            if a and d["variants"]:
                return a[0]
        return None

    def dyn_name(self, t):
        d = self.P.ty(t)
        if d["k"] == "dyn":
            return d["traits"][0] if d["traits"] else "?"
        return None

    def note_unsize(self, src, dst):
        P = self.P
        for _ in range(4):
            a, b = self._pointee_chain(src), self._pointee_chain(dst)
            if a is None or b is None:
                return
            n = self.dyn_name(b)
            if n is not None:
                if self.dyn_name(a) is None:
                    self.unsized.setdefault(n, {})[a] = b
                return
            src, dst = a, b

    def op_ty(self, b, o):
        P = self.P
        if o[0] == "k":
            return o[1][0]
        if o[0] in ("c", "m"):
            t = b.locals[o[1][0]]
            for e in o[1][1]:
                if e[0] in ("f", ):
                    t = e[2]
                elif e[0] == "oc":
                    t = e[1]
                elif e[0] in ("*", "i", "ci"):
                    d = P.ty(t)
                    t = d.get("elem")
                    if t is None:
                        t = [x for x in d.get("args", []) if isinstance(x, int)][0]
            return t
        return None

    def target(self, i, out, virt, b, args):
        inf = self.P.inst(i)
        if inf["kind"] == "virtual":
            # receiver: first argument is a pointer to dyn
            t = self.op_ty(b, args[0])
            n = None
            for _ in range(5):
                t2 = self._pointee_chain(t)
                if t2 is None:
                    break
                n = self.dyn_name(t2)
                if n is not None:
                    break
                t = t2
            virt.add((n or "?", inf["idx"]))
        else:
            out.add(i)

    def visit(self, i, skip):
        P = self.P
        if i in self.direct:
            return []
        out, virt = set(), set()
        self.direct[i], self.virt[i] = out, virt
        if skip(i):
            return []
        b = P.body(i)
        if b is None:
            return []
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                r = s[3]
                if r[0] == "cast" and r[1] == "Unsize":
                    self.note_unsize(self.op_ty(b, r[2]), r[3])
                for o in rv_ops(r):
                    self.mention(o, out)
            t = bl["t"]
            if t[0] == "call":
                self.sites += 1
                if t[1][0] == "k":
                    d = P.ty(t[1][1][0])
                    if d["k"] == "fndef" and d["inst"] is not None:
                        self.target(d["inst"], out, virt, b, t[2])
                else:
                    self.calls_ptr.add(i)
                for o in t[2]:
                    self.mention(o, out)
            elif t[0] == "drop":
                self.sites += 1
                if t[2] is not None:
                    inf = P.inst(t[2])
                    if inf["kind"] == "virtual":
                        virt.add((self.dyn_name(t[5]) or "?", "drop"))
                    else:
                        d = P.ty(t[5])
                        if d["k"] == "dyn":
                            virt.add((self.dyn_name(t[5]), "drop"))
                        else:
                            out.add(t[2])
        return list(out)

    def mention(self, o, out):
        # a function item passed as a value: the callee may call it
        if o[0] == "k":
            d = self.P.ty(o[1][0])
            if d["k"] == "fndef" and d["inst"] is not None and self.P.inst(d["inst"])["kind"] != "virtual":
                out.add(d["inst"])
                self.reified.add(d["inst"])

    def build(self, roots, skip=lambda i: False):
        todo = list(roots)
        while True:
            while todo:
                i = todo.pop()
                todo += self.visit(i, skip)
            # class hierarchy: every concrete type turned into this trait object
            for n, cs in list(self.unsized.items()):
                for c, dy in list(cs.items()):
                    if (n, c) in self.dyns:
                        continue
                    self.dyns[n, c] = True
                    if n.rsplit("::", 1)[-1] in ("Fn", "FnMut", "FnOnce"):
                        m = self.P.q("closure", c, "mut") if self.P.ty(c)["k"] == "closure" else None
                        ms = [(k, m) for k in range(3, 7)] if m is not None else []
                    else:
                        ms = self.P.q("vtall", dy, c)
                    for k, m in ms:
                        self.slots.setdefault((n, k), set()).add(m)
                        todo.append(m)
                    d = self.P.q("drop", c)
                    if d is not None:
                        self.slots.setdefault((n, "drop"), set()).add(d)
                        todo.append(d)
            if not todo:
                break

    def edges(self, i, virtual=True, cut=()):
        out = set(self.direct.get(i, ()))
        if virtual:
            for v in self.virt.get(i, ()):
                if (i, v) not in cut:
                    out |= self.slots.get(v, set())
        if i in self.calls_ptr:
            out |= self.reified
        return out

    def reach(self, roots, **kw):
        seen, todo, par = set(roots), list(roots), {}
        while todo:
            i = todo.pop()
            for j in self.edges(i, **kw):
                if j not in seen:
                    seen.add(j)
                    par[j] = i
                    todo.append(j)
        return seen, par


def sccs(nodes, succ):
    idx, low, on, st, out, c = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(succ(r)))]
        idx[r] = low[r] = c[0]; c[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop(); on.discard(w); comp.append(w)
                        if w == v:
                            break
                    out.append(comp)
    return out
