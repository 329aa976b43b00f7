#!/usr/bin/env python3
"""tools/seed.py check ID...: confirm each seeded change in a scratch copy (applies, builds, passes the repository's tests,
demo tells it apart) and report which checks catch it.   tools/seed.py fast ID...: only run the property's check."""
import sys, os, subprocess, json, shutil, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
V = os.path.abspath(V)
S = "/tmp/seedscratch-%d" % os.getpid()


def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=t)


def copy():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s" % S, shell=True)


def demo(i):
    d = "/tmp/seeddemo-%d" % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, "seeded", i), d)
    for f in os.listdir(d):
        if f.endswith((".diff", ".patch")) or f == "meta.json":
            os.remove(os.path.join(d, f))
    r = sh("bash %s/demo.sh" % d, S, t=300)
    shutil.rmtree(d, ignore_errors=True)
    return r


def checks(i, ids):
    out = {}
    for p in ids:
        r = sh("python3 checks/%s.py" % p.lower(), V, {"MINISERDE_REPO": S})
        m = "VIOLATION property=%s" % p in r.stdout
        out[p] = "CAUGHT" if r.returncode == 1 and m else ("quiet" if r.returncode == 0 else "ERROR rc=%d" % r.returncode)
        if r.returncode == 1:
            print("   ", "\n    ".join(l[:230] for l in r.stdout.splitlines() if l.startswith("  "))[:900])
        elif r.returncode:
            print(r.stdout[-500:], r.stderr[-1500:])
    return out


mode, ids = sys.argv[1], sys.argv[2:]
if not ids:
    ids = sorted(os.listdir(os.path.join(V, "seeded")))
try:
    for i in ids:
        meta = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        copy()
        if mode == "check":
            r = demo(i)
            print(i, "demo on base:", r.returncode, "" if r.returncode == 0 else (r.stdout[-800:] + r.stderr[-800:]))
        r = sh("git apply --unsafe-paths %s" % os.path.join(V, "seeded", i, "patch.diff"), S)
        r = sh("patch -p1 --dry-run < %s" % os.path.join(V, "seeded", i, "patch.diff"), S) if r.returncode else r
        if r.returncode:
            print(i, "patch does not apply", r.stderr, r.stdout)
            continue
        if mode == "check":
            r = sh("CARGO_TARGET_DIR=/tmp/seedtarget cargo test --workspace --no-fail-fast --offline 2>&1", S)
            t2 = sh("CARGO_TARGET_DIR=/tmp/seedtarget cargo test -p miniserde --no-default-features --no-fail-fast --offline 2>&1", S)
            fails = re.findall(r"^test .* (?:FAILED|mismatch|error)$", r.stdout + t2.stdout, re.M)
            print(i, "tests rc", r.returncode, t2.returncode, fails[:5], "" if r.returncode == 0 else re.findall(r"^error.*", r.stdout, re.M)[:3])
            r = demo(i)
            print(i, "demo on patched:", r.returncode)
        props = [meta["property"]] if mode != "all" else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        have = [p for p in props if os.path.exists(os.path.join(V, "checks", p.lower() + ".py"))]
        print(i, meta["property"], checks(i, have) if have else "no check yet", flush=True)
finally:
    shutil.rmtree(S, ignore_errors=True)
