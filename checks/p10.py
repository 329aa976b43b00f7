"""P10: nothing on the parse and print paths re-enters itself for nested data."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common
from build import Server
from prog import Prog
from callgraph import Graph, sccs
from normal import canon_name

OWN = ("miniserde", "witness")
TRAITS = ("miniserde::de::Visitor", "miniserde::de::Seq", "miniserde::de::Map", "miniserde::Serialize", "miniserde::ser::Seq", "miniserde::ser::Map")


def check(r):
    s = Server()
    P = Prog(s)
    G = Graph(P)
    entries = {n: i for n, i in P.entries.items()}
    roots = [P.entry("parse"), P.entry("print")]
    lib = [i for n, i in entries.items() if re.match(r"witness::(de_begin|de_default|se_begin)", n) or n.endswith("::ignore")
           or re.match(r"witness::[vsmx]_", n)]
    ctl = P.entry("control_recurse")

    def skip(i):
        # tearing down a JSON tree is P11's subject
        inf = P.inst(i)
        if inf["kind"] == "shim" and inf["args"] and isinstance(inf["args"][0], int) and re.search(r"drop_(glue|in_place)$", inf["path"]):
            d = P.ty(inf["args"][0])
            return d["k"] == "adt" and d["krate"] == "miniserde" and d["def"].split("::")[-1] in ("Value", "Array", "Object")
        return False
    G.build(roots + lib + [ctl], skip)
    r.cov["functions"] = len(G.direct)
    r.cov["call_and_drop_sites"] = G.sites
    r.cov["trait_object_types"] = {n: len(c) for n, c in sorted(G.unsized.items()) if "miniserde" in n}
    own = lambda i: P.inst(i)["krate"] in OWN
    nm = lambda i: canon_name(P.inst(i)["name"])

    # the drivers: what parse and print run themselves, as far as it calls back
    cb = {v for v in {x for vs in G.virt.values() for x in vs} if v[0] in TRAITS and v[1] != "drop"}
    reach0, _ = G.reach(roots, virtual=False)
    drivers = {i for i in reach0 if P.inst(i)["krate"] == "miniserde" and G.virt.get(i, set()) & cb}
    r.cov["drivers"] = sorted(nm(i) for i in drivers)
    if len(drivers) < 2:
        raise common.Anchor("parse and print drivers not found: %s" % r.cov["drivers"])
    impls = {m for v in G.slots for m in G.slots[v] if v[0] in TRAITS} | set(lib)
    r.cov["callback_implementations"] = len(impls)
    for m in sorted(impls):
        seen, par = G.reach([m])
        for d in sorted(drivers & seen):
            path = [d]
            while path[-1] in par:
                path.append(par[path[-1]])
            r.violation("callback %s reaches %s" % (nm(m), nm(d)),
                        "the library callback %s can start the parse/print loop again for nested data: %s" %
                        (nm(m), " -> ".join(nm(x) for x in reversed(path))))
    # pure delegation: an implementation of a trait method passing the call on to the same method of what it wraps
    cut = set()
    for v, ms in G.slots.items():
        for m in ms:
            seen, _ = G.reach([m], virtual=False)
            for i in seen:
                if v in G.virt.get(i, ()):
                    cut.add((i, v))
    r.cov["delegation_edges"] = len(cut)
    bad = sccs(list(G.direct), lambda i: [j for j in G.edges(i, cut=cut) if j in G.direct])
    hit = False
    for comp in bad:
        if len(comp) == 1 and comp[0] not in G.edges(comp[0], cut=cut):
            continue
        r.count("cycles_examined")
        if comp == [ctl]:
            hit = True
            continue
        o = sorted(nm(i) for i in comp if own(i))
        if o:
            r.violation("recursion " + o[0], "these functions can call themselves again: %s" % ", ".join(sorted(nm(i) for i in comp))[:1500])
    s.close()
    if not hit:
        raise common.Anchor("positive control: the recursive control function was not recognised")
    r.floor("functions", 500)
    r.floor("callback_implementations", 150)
    r.cov["explanation"] = ("call graph over every monomorphic instance reachable from from_str, to_string and every library callback "
                            "(direct calls, drop glue, function values, and for virtual calls every concrete type turned into that trait object): "
                            "no cycle through library or generated code, and no callback reaches the parse or print loop")
    r.assumptions += ["delegation of a trait method to the same method of a wrapped inner value is bounded by the nesting of Rust types, not of data",
                      "user callbacks do not call from_str or to_string on the nested data themselves",
                      "drop glue of Value, Array and Object is judged by P11"]


if __name__ == "__main__":
    sys.exit(common.run("P10", check))
