"""The type-checked program as the analysis sees it (lazily fetched from the analysis server)."""
import json
from build import Server


class Body:
    __slots__ = ("argc", "spread", "locals", "blocks", "file", "line", "names", "nlocals", "heads", "loops", "order",
                 "live", "addr", "preds", "live_in", "inst")


class Prog:
    def __init__(self, server):
        self.s = server
        self._ty = {}
        self._inst = {}
        self._body = {}
        self._q = {}
        self.entries = {}
        for n, k, i in server.q("locals"):
            if i is not None:
                self.entries[n] = i

    def q(self, *a):
        r = self._q.get(a)
        if r is None and a not in self._q:
            r = self._q[a] = self.s.q(*a)
        return r

    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self.s.q("ty", t)
            r["id"] = t
        return r

    def inst(self, i):
        r = self._inst.get(i)
        if r is None:
            r = self._inst[i] = self.s.q("inst", i)
            r["id"] = i
        return r

    def body(self, i):
        if i in self._body:
            return self._body[i]
        j = self.s.q("body", i)
        b = None
        if j is not None:
            b = Body()
            b.inst = i
            b.argc = j["argc"]
            b.spread = j["spread"]
            b.locals = j["locals"]
            b.nlocals = len(b.locals)
            b.blocks = j["blocks"]
            b.file = j["file"]
            b.line = j["line"]
            b.names = {l: n for l, n in j["names"]}
            analyse(b)
        self._body[i] = b
        return b

    def entry(self, name):
        k = "witness::" + name if not name.startswith("<") else name
        if k not in self.entries:
            raise KeyError("anchor %s not found in witness" % name)
        return self.entries[k]


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[3]] + ([t[4]] if isinstance(t[4], int) else [])
    if k == "call":
        return ([t[4]] if t[4] is not None else []) + ([t[5]] if isinstance(t[5], int) else [])
    if k == "assert":
        return [t[4]] + ([t[5]] if isinstance(t[5], int) else [])
    return []


def _op_uses(o, use):
    if o[0] in ("c", "m"):
        _place_uses(o[1], use)


def _place_uses(p, use):
    use.add(p[0])
    for e in p[1]:
        if e[0] == "i":
            use.add(e[1])


def wto(b):
    """position of every block in a weak topological order: within a loop its head comes last, after a loop its exits.
    Processing the least position first settles inner loops before outer ones and loops before what follows them"""
    succ = [list(succs(x["t"])) for x in b.blocks]
    END = 1 << 30
    pos = {}
    # (nodes, prefix): order the strongly connected components topologically, then each without its head
    todo = [(list(range(len(b.blocks))), (), 0)]
    while todo:
        nodes, prefix, entry = todo.pop()
        inside = set(nodes)
        index, low, on, st, comps = {}, {}, set(), [], []
        for root in [entry] + nodes:
            if root in index or root not in inside:
                continue
            index[root] = low[root] = len(index)
            st.append(root)
            on.add(root)
            call = [(root, iter(succ[root]))]
            while call:
                u, it = call[-1]
                for v in it:
                    if v not in inside:
                        continue
                    if v not in index:
                        index[v] = low[v] = len(index)
                        st.append(v)
                        on.add(v)
                        call.append((v, iter(succ[v])))
                        break
                    if v in on:
                        low[u] = min(low[u], index[v])
                else:
                    call.pop()
                    if call:
                        w = call[-1][0]
                        low[w] = min(low[w], low[u])
                    if low[u] == index[u]:
                        c = []
                        while True:
                            v = st.pop()
                            on.discard(v)
                            c.append(v)
                            if v == u:
                                break
                        comps.append(c)
        comps.reverse()
        for i, c in enumerate(comps):
            h = c[-1]            # entered first
            if len(c) == 1 and h not in succ[h]:
                pos[h] = prefix + (i,)
            else:
                pos[h] = prefix + (i, END)
                rest = c[:-1]
                if rest:
                    e = [v for v in succ[h] if v in c and v != h]
                    todo.append((rest, prefix + (i,), e[0] if e else rest[0]))
    b.order = pos
    return pos


def analyse(b):
    """CFG facts: predecessors, loop heads (targets of back edges), natural loops, live locals at block
    entry, and which locals ever have their address taken."""
    n = len(b.blocks)
    b.preds = [[] for _ in range(n)]
    for i, bl in enumerate(b.blocks):
        for s in succs(bl["t"]):
            b.preds[s].append(i)
    color = [0] * n
    backs = []
    st = [(0, iter(succs(b.blocks[0]["t"])))]
    color[0] = 1
    while st:
        u, it = st[-1]
        for v in it:
            if color[v] == 0:
                color[v] = 1
                st.append((v, iter(succs(b.blocks[v]["t"]))))
                break
            elif color[v] == 1:
                backs.append((u, v))
        else:
            color[u] = 2
            st.pop()
    b.heads = set(v for _, v in backs)
    b.loops = {}
    for u, v in backs:
        L = b.loops.setdefault(v, {v})
        w = [u]
        while w:
            x = w.pop()
            if x in L:
                continue
            L.add(x)
            w.extend(b.preds[x])
    b.order = None
    # address taken
    addr = set()

    def rv_addr(r):
        if r[0] in ("ref", "addr", "reborrow") and not any(e[0] == "*" for e in r[2][1]):
            addr.add(r[2][0])
    gen = []
    for bl in b.blocks:
        uses, defs = set(), set()

        def use_op(o):
            s = set()
            _op_uses(o, s)
            uses.update(s - defs)

        def use_place(p):
            s = set()
            _place_uses(p, s)
            uses.update(s - defs)

        def def_place(p):
            if not p[1]:
                defs.add(p[0])
            else:
                s = set()
                _place_uses(p, s)
                uses.update(s - defs)
        for s in bl["s"]:
            if s[0] == "=":
                r = s[3]
                rv_addr(r)
                for o in rv_ops(r):
                    use_op(o)
                for p in rv_places(r):
                    use_place(p)
                def_place(s[2])
            elif s[0] == "sd":
                use_place(s[2])
            elif s[0] in ("live", "dead"):
                defs.add(s[2])
            elif s[0] == "assume":
                use_op(s[2])
            elif s[0] == "copyno":
                for o in s[2:]:
                    use_op(o)
        t = bl["t"]
        if t[0] == "switch":
            use_op(t[1])
        elif t[0] == "drop":
            use_place(t[1])
            if not t[1][1] or True:
                addr_p = t[1]
        elif t[0] == "call":
            use_op(t[1])
            for o in t[2]:
                use_op(o)
            # destination is defined only on the return edge; treat as def if plain
            if t[3][1]:
                s = set()
                _place_uses(t[3], s)
                uses.update(s - defs)
        elif t[0] == "assert":
            use_op(t[1])
            for o in t[3][1:]:
                if isinstance(o, list):
                    use_op(o)
        elif t[0] == "return":
            if 0 not in defs:
                uses.add(0)
        gen.append((uses, defs))
    b.addr = addr
    live_in = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            t = b.blocks[i]["t"]
            for s in succs(t):
                if t[0] == "call" and s == t[4] and not t[3][1]:
                    out |= live_in[s] - {t[3][0]}
                else:
                    out |= live_in[s]
            u, d = gen[i]
            nl = u | (out - d)
            if nl != live_in[i]:
                live_in[i] = nl
                ch = True
    b.live_in = live_in


def rv_ops(r):
    k = r[0]
    if k == "use":
        return [r[1]]
    if k in ("bin", "cbin"):
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "cast":
        return [r[2]]
    if k == "agg":
        return r[2]
    if k == "repeat":
        return [r[1]]
    return []


def rv_places(r):
    if r[0] in ("ref", "addr", "reborrow"):
        return [r[2]]
    if r[0] in ("discr", "len"):
        return [r[1]]
    return []


# ---- readable dump -----------------------------------------------------------------------------
def pp_place(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "dc":
            s += "@%d" % e[1]
        else:
            s += str(e)
    return s


def pp_op(P, o):
    if o[0] == "c":
        return pp_place(o[1])
    if o[0] == "m":
        return "move " + pp_place(o[1])
    if o[0] == "k":
        t = P.ty(o[1][0])
        if t["k"] == "fndef":
            i = t["inst"]
            return "fn:" + (P.inst(i)["name"] if i is not None else t["name"])
        return "const %s:%s" % (json.dumps(o[1][1])[:80], t["name"])
    return str(o)


def dump(P, i, out=print):
    b = P.body(i)
    out("fn", P.inst(i)["name"], "argc", b.argc, "spread", b.spread)
    for l, t in enumerate(b.locals):
        out("   _%d: %s %s" % (l, P.ty(t)["name"], b.names.get(l, "")))
    for n, bl in enumerate(b.blocks):
        out(" bb%d%s" % (n, " (loop head)" if n in b.heads else ""))
        for s in bl["s"]:
            if s[0] == "=":
                r = s[3]
                out("    %s = %s %s" % (pp_place(s[2]), r[0], [pp_op(P, x) for x in rv_ops(r)] + [pp_place(x) for x in rv_places(r)] + [x for x in r[1:] if isinstance(x, (str, int))]))
            else:
                out("    ", s)
        t = bl["t"]
        if t[0] == "call":
            out("    %s = call %s(%s) -> %s unwind %s" % (pp_place(t[3]), pp_op(P, t[1]), ", ".join(pp_op(P, o) for o in t[2]), t[4], t[5]))
        elif t[0] == "switch":
            out("    switch", pp_op(P, t[1]), t[2], t[3])
        elif t[0] == "drop":
            out("    drop", pp_place(t[1]), t[2], t[3:])
        else:
            out("    ", t[:1], [pp_op(P, x) if isinstance(x, list) and x and x[0] in ("c", "m", "k") else x for x in t[1:]])


if __name__ == "__main__":
    import sys
    s = Server()
    P = Prog(s)
    seen = set()
    todo = [P.entry(a) for a in sys.argv[2:]]
    names = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if sys.argv[1] == "dump":
            dump(P, i)
        b = P.body(i)
        if b is None:
            continue
        for bl in b.blocks:
            t = bl["t"]
            c = None
            if t[0] == "call" and t[1][0] == "k":
                c = P.ty(t[1][1][0]).get("inst")
            if t[0] == "drop":
                c = t[2]
            if c is not None:
                inf = P.inst(c)
                names.add((inf["krate"], inf["path"], inf["kind"], inf["name"]))
                if inf["krate"] in ("miniserde", "witness"):
                    todo.append(c)
    for n in sorted(names):
        print(n)
    s.close()
