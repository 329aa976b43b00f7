"""P32: the no-default-features build needs no std and offers the same functions and impls."""
import sys, os, json, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common, build
from build import Server, BuildError
from prog import Prog
from normal import Norm, canon_name, types_of_body

# impls that only exist with std although they name no std-only type, with the reason
STD_ONLY_IMPLS = {("std::error::Error", "miniserde::Error"): "the trait moved to core only after the crate's minimum Rust version"}


def is_std_ty(P, t):
    d = P.ty(t)
    return d["k"] == "adt" and d["krate"] in ("std", "hashbrown")


def bodies(s, P):
    n = Norm(P)
    out = {}
    for name, j in s.q("gbodies", "miniserde"):
        out.setdefault(canon_name(name), []).append((n.body(j), any(is_std_ty(P, t) for t in types_of_body(P, j))))
    return out


def statics(s, P):
    n = Norm(P)
    out = {}
    for k in s.q("crate", "miniserde"):
        for i in k["statics"]:
            d = s.q("static", i)
            out[canon_name(d["name"])] = (canon_name(P.ty(d["ty"])["name"]), n.const(d["val"]), d["mut"])
    return out


def impls(s):
    out = {}
    for k in s.q("crate", "miniserde"):
        for tr, ty, ms in k["impls"]:
            out.setdefault((canon_name(tr), canon_name(ty)), set()).update(ms)
    return out


def check(r):
    build.deps(True)                       # the default configuration must build at all
    try:
        build.deps(False)
        b = Server(std=False)
    except BuildError as e:
        r.violation("no-std build", "with default features disabled the crate (or a program using all of its offer) "
                    "does not build:\n" + str(e)[-1500:])
        r.cov["explanation"] = "the no-default-features build is the first obligation"
        return
    a = Server(std=True)
    Pa, Pb = Prog(a), Prog(b)
    names = b.q("crates")
    r.cov["crates_linked_without_std"] = names
    if "miniserde" not in names or "core" not in names:
        raise common.Anchor("crate list incomplete: %s" % names)
    if "std" not in a.q("crates"):
        raise common.Anchor("positive control: the default build links std, but it is not listed")
    for n in names:
        if n in ("std", "test", "proc_macro"):
            r.violation("links " + n, "with default features disabled the crate still links `%s`" % n)
    A, B = bodies(a, Pa), bodies(b, Pb)
    r.cov["functions_default"] = len(A)
    r.cov["functions_no_std"] = len(B)
    for n in sorted(B):
        if n not in A:
            r.violation("only without std: " + n, "%s exists only with default features disabled" % n)
            continue
        r.count("bodies_compared")
        if [x[0] for x in A[n]] != [x[0] for x in B[n]]:
            r.violation("differs: " + n, "%s is compiled to different code with and without the std feature" % n)
    stdfns = [n for n in A if any(x[1] for x in A[n])]
    for n in sorted(A):
        if n in B:
            continue
        r.count("std_only_functions")
        # nested items of a std-only function or impl count as belonging to it
        if not any(x[1] for x in A[n]) and "HashMap" not in n and not any(n.startswith(m + "::") for m in stdfns):
            r.violation("missing: " + n, "%s is missing without the std feature although it involves no std-only type" % n)
    SA, SB = statics(a, Pa), statics(b, Pb)
    for n in SB:
        r.count("statics_compared")
        if SA.get(n) != SB[n]:
            r.violation("static differs: " + n, "static %s differs between the configurations" % n)
    IA, IB = impls(a), impls(b)
    r.cov["impls_default"] = len(IA)
    for k in sorted(IA):
        if k in IB:
            r.count("impls_compared")
            if IA[k] != IB[k]:
                r.violation("impl differs: %s for %s" % k, "impl %s for %s defines %s with std and %s without" %
                            (k[0], k[1], sorted(IA[k]), sorted(IB[k])))
        elif k not in STD_ONLY_IMPLS and "HashMap" not in k[1] and not k[0].startswith("std::clone::TrivialClone"):
            r.violation("impl missing: %s for %s" % k, "impl %s for %s is missing without the std feature" % k)
    for k in IB:
        if k not in IA:
            r.violation("impl only without std: %s for %s" % k, "impl %s for %s exists only without std" % k)
    r.floor("bodies_compared", 200)
    r.floor("impls_compared", 100)
    r.cov["explanation"] = ("the crate is compiled in both configurations; the no-std crate graph must not contain std, and every "
                            "function body (MIR), static and impl offered without std must be identical to the default one; "
                            "everything missing must involve a std-only type")
    a.close()
    b.close()


if __name__ == "__main__":
    sys.exit(common.run("P32", check))
