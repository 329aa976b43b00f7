"""P31: no mutable state is shared between threads, and JSON values may cross threads."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import common, compilefail
from build import Server
from prog import Prog

SENDABLE = ["json::Value", "json::Array", "json::Object", "json::Number", "miniserde::Error"]
PROCESS_WIDE = re.compile(r"^std::(env|fs|process|io|net|thread|os|sys|panic::(set_hook|take_hook))\b")


def scan(r, s, P, krate, own):
    for c in s.q("crate", krate):
        tls = set()
        bodies = s.q("gbodies", krate) if krate else []
        for name, j in bodies:
            r.count("functions_scanned")
            for b in j["blocks"]:
                for st in b["s"]:
                    if st[0] == "=" and st[3][0] == "tls":
                        tls.add(st[3][1])
                t = b["t"]
                if t[0] == "asm":
                    r.violation("asm " + name, "%s contains inline assembly, whose effects on shared state are unknown" % name)
                if t[0] == "call" and t[1][0] == "k":
                    d = P.ty(t[1][1][0])
                    r.count("call_sites_scanned")
                    if d["k"] == "fndef":
                        n = d["def"]
                        if PROCESS_WIDE.match(n):
                            r.violation("process-wide %s in %s" % (n, name), "%s (%s:%s) calls %s, which acts on state shared by all threads"
                                        % (name, b["file"], b["line"], n))
                        i = d.get("inst")
                        if i is not None and P.inst(i)["foreign"]:
                            r.violation("foreign %s in %s" % (n, name), "%s (%s:%s) calls the foreign function %s" % (name, b["file"], b["line"], n))
        for i in c["statics"]:
            d = s.q("static", i)
            r.count("statics")
            if d["name"].endswith(("CONTROL_STATIC", "CONTROL_ATOMIC")):
                if d["mut"]:
                    r.count("positive_controls_matched")
                continue
            if d["mut"] and P.ty(d["ty"])["size"] != 0 and d["name"] not in tls:
                r.violation("static " + d["name"], "static %s: %s is mutable state shared by every thread" % (d["name"], P.ty(d["ty"])["name"]))
            if d["mut"]:
                r.count("mutable_statics_of_size_zero")
        for t, x, m in c["impls"]:
            r.count("impls_scanned")
            if own and re.search(r"(^|::)(Send|Sync)$", t):
                r.violation("unsafe impl %s for %s" % (t, x), "a hand-written impl of %s for %s overrides the compiler's own thread-safety analysis" % (t, x))


def check(r):
    s = Server()
    P = Prog(s)
    have = s.q("crates")
    if "miniserde" not in have:
        raise common.Anchor("miniserde is not linked")
    # every crate the library brings in besides the standard library's own graph
    r.cov["crates"] = [k for k in ("miniserde", "itoa", "ryu") if k in have]
    for k in r.cov["crates"]:
        scan(r, s, P, k, True)
    scan(r, s, P, "", True)                        # code generated by the derives and the exported macro
    s.close()
    head = "#![allow(warnings)]\nuse miniserde::json;\nfn need<T: Send + Sync + 'static>() {}\n"
    cases = [("good " + t, head + "pub fn f() { need::<%s>() }\n" % t) for t in SENDABLE]
    cases.append(("bad control", head + "pub fn f() { need::<std::cell::Cell<u8>>() }\n"))
    res = compilefail.check_all(cases)
    for t in SENDABLE:
        r.count("send_sync_witnesses")
        rc, errs = res["good " + t]
        if rc:
            r.violation("not thread safe: " + t, "%s is not Send + Sync any more: %s" % (t, errs[0]["msg"] if errs else "?"))
    if res["bad control"][0] == 0:
        raise common.Anchor("control program is accepted: the Send/Sync witnesses decide nothing")
    r.floor("functions_scanned", 300)
    r.floor("statics", 3)
    r.floor("positive_controls_matched", 2)
    r.floor("call_sites_scanned", 600)
    r.cov["explanation"] = ("every static of miniserde, its formatting dependencies and generated code: the compiler's own verdict on whether its "
                            "memory is mutable (static mut or interior mutability) must be no unless it has size zero or is thread-local; no "
                            "hand-written Send/Sync, no inline assembly, foreign call or process-wide std call; witnesses that JSON values are Send and Sync")
    r.assumptions += ["core, alloc and std keep no unsynchronised shared state of their own",
                      "user callbacks synchronise their own state"]


if __name__ == "__main__":
    sys.exit(common.run("P31", check))
