"""Shared by all checks: verdicts, evidence, known findings, anchors."""
import json, os, sys, time, hashlib, traceback

from build import BuildError, WitnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
    """Something the rule is about can no longer be found: fail closed."""


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []       # (key, text)
        self.cov = {}
        self.assumptions = []
        self.level = "other"

    def violation(self, key, text):
        if not any(k == key for k, _ in self.violations):
            self.violations.append((key, text))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def floor(self, name, n):
        if self.cov.get(name, 0) < n:
            raise Anchor("%s: analysed %d, expected at least %d" % (name, self.cov.get(name, 0), n))


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "open"]


def finish(r, t0):
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    kn = known(r.pid)
    bad = []
    for k, text in r.violations:
        hit = [x for x in kn if x["key"] == k]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (r.pid, hit[0]["what"]))
        else:
            bad.append((k, text))
    doc = {
        "property": r.pid,
        "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": r.level,
        "coverage": r.cov,
        "assumptions": r.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    with open(os.path.join(ev, r.pid + ".json"), "w") as fh:
        json.dump(doc, fh, indent=1, sort_keys=True)
    if bad:
        rp = os.path.join(ev, r.pid + ".violation.txt")
        with open(rp, "w") as fh:
            for k, text in bad:
                fh.write("[%s]\n%s\n\n" % (k, text))
        for k, text in bad[:20]:
            print("  %s: %s" % (k, text.split("\n")[0]))
        print("VIOLATION property=%s replay=%s" % (r.pid, rp))
        return 1
    print("OK property=%s %s" % (r.pid, json.dumps({k: v for k, v in r.cov.items() if isinstance(v, int)})))
    return 0


def run(pid, fn):
    t0 = time.time()
    r = Report(pid)
    try:
        fn(r)
    except Anchor as e:
        r.violation("anchor", "the construct this property is anchored at is gone or incomplete: %s" % e)
        r.cov.setdefault("explanation", "anchor missing")
    except WitnessError as e:
        r.violation("anchor", "miniserde builds, but the part of its interface this property is about is gone: %s" % e)
        r.cov.setdefault("explanation", "anchor missing")
    except (BuildError, OSError, KeyboardInterrupt):
        raise
    except Exception:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        r.violation("analysis", "the obligations could not be established on this code: the analysis does not cover a construct in it\n" + tb)
        r.cov.setdefault("explanation", "analysis incomplete")
    return finish(r, t0)
