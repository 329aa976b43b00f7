"""Compile-fail witnesses: programs that must be rejected, each with a twin that differs only in the
offending line and must be accepted.  Nothing is executed; rustc's front end decides."""
import os, subprocess, json, re
from concurrent.futures import ThreadPoolExecutor
import build
from build import rustc_args, _env, CACHE


def check_one(name, src, std, tmp):
    d = os.path.join(tmp, re.sub(r"\W", "_", name))
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "w.rs")
    with open(f, "w") as fh:
        fh.write(src)
    a = rustc_args(f, std)
    a = [x for x in a if not x.startswith("-Zalways")] + ["--error-format=json", "--out-dir", d]
    p = subprocess.run(a, env=_env(), capture_output=True, text=True)
    errs = []
    for l in p.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            errs.append({"code": None, "lines": [], "msg": l})
            continue
        if m.get("level") == "error" and m.get("spans") is not None:
            errs.append({"code": (m.get("code") or {}).get("code"),
                         "lines": [s["line_start"] for s in m["spans"] if s["is_primary"]],
                         "msg": m["message"]})
    return p.returncode, [e for e in errs if not e["msg"].startswith("aborting")]


def check_all(cases, std=True):
    """cases: list of (name, source).  Returns {name: (rc, errors)}."""
    import shutil
    tmp = os.path.join(CACHE, "cf-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    build.deps(std)
    try:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda c: check_one(c[0], c[1], std, tmp), cases))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {c[0]: r for c, r in zip(cases, rs)}
