"""Build the analysis server and the analysed program; open a query session on it.

Everything is rebuilt from /repo's current working tree: the cache directory is named after a hash of
all inputs, so a changed tree never meets products of another one."""
import hashlib, json, os, subprocess, sys, fcntl, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MINISERDE_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
TOOLCHAIN = "nightly-x86_64-unknown-linux-gnu"
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off"


class BuildError(Exception):
    pass


class WitnessError(BuildError):
    """miniserde builds, but no longer offers what the witness program uses"""


def _env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=_env(), text=True).strip()


def source_files():
    out = []
    for base in ("src", "derive/src"):
        for d, _, fs in os.walk(os.path.join(REPO, base)):
            for f in sorted(fs):
                out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "derive/Cargo.toml", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def _hash(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def repo_hash():
    return _hash(source_files())


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.p = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(VERIF, "mirserve", "main.rs")
    h = _hash([src], subprocess.check_output(["rustc", "-vV"], env=_env(), text=True))
    out = os.path.join(CACHE, "mirserve-" + h)
    with Lock("mirserve"):
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run(["rustc", "--edition", "2021", "-O", "-Awarnings", src, "-o", tmp],
                               env=_env(), capture_output=True, text=True)
            if r.returncode:
                raise BuildError("analysis driver does not build:\n" + r.stderr[-3000:])
            os.rename(tmp, out)
    return out


def mtime(p):
    try:
        return os.path.getmtime(p)
    except FileNotFoundError:   # pruned by another run meanwhile
        return 0.0


def deps(std=True):
    """Type-check miniserde (with MIR encoded for every function) and return its --extern arguments."""
    wit = os.path.join(VERIF, "witness")
    h = _hash(source_files() + [os.path.join(wit, "Cargo.toml"), os.path.join(wit, "Cargo.lock")],
              FLAGS + str(std) + REPO)
    td = os.path.join(CACHE, "dep-" + h)
    with Lock("dep-" + h):
        man = os.path.join(td, "externs.json")
        if not os.path.exists(man):
            if os.path.exists(td):
                shutil.rmtree(td)
            # keep the cache small: only a few trees
            olds = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)
                           if d.startswith("dep-") and not d.endswith(".lock")), key=mtime)
            for o in olds[:-8]:
                shutil.rmtree(o, ignore_errors=True)
            os.makedirs(os.path.join(td, "w", "src"))
            # a private copy of the manifest, so that cargo never writes next to the sources
            t = open(os.path.join(wit, "Cargo.toml")).read().replace('path = "/repo"', 'path = "%s"' % REPO)
            open(os.path.join(td, "w", "Cargo.toml"), "w").write(t)
            shutil.copy(os.path.join(wit, "Cargo.lock"), os.path.join(td, "w", "Cargo.lock"))
            open(os.path.join(td, "w", "src", "lib.rs"), "w").write("extern crate miniserde;\n")
            env = _env()
            env["RUSTFLAGS"] = FLAGS
            env["CARGO_INCREMENTAL"] = "0"
            env["CARGO_TARGET_DIR"] = os.path.join(td, "t")
            cmd = ["cargo", "check", "--offline", "--message-format=json"]
            if not std:
                cmd.append("--no-default-features")
            r = subprocess.run(cmd, cwd=os.path.join(td, "w"), env=env, capture_output=True, text=True)
            ext = {}
            for line in r.stdout.splitlines():
                try:
                    m = json.loads(line)
                except ValueError:
                    continue
                if m.get("reason") == "compiler-artifact":
                    for f in m["filenames"]:
                        if f.endswith(".rmeta") or f.endswith(".so"):
                            ext[m["target"]["name"]] = f
            if r.returncode or "miniserde" not in ext:
                raise BuildError("miniserde does not build:\n" + r.stderr[-3000:])
            flat = os.path.join(td, "flat")
            os.makedirs(flat)
            for k in list(ext):
                to = os.path.join(flat, os.path.basename(ext[k]))
                shutil.copy(ext[k], to)
                ext[k] = to
            shutil.rmtree(os.path.join(td, "t"), ignore_errors=True)
            tmp = man + ".tmp"
            with open(tmp, "w") as fh:
                json.dump({"externs": ext, "deps": flat}, fh)
            os.rename(tmp, man)
    os.utime(td)
    return json.load(open(man))


def rustc_args(src, std=True, extra=()):
    d = deps(std)
    a = ["rustc", src, "--crate-name=witness", "--crate-type=lib", "--edition=2021", "--emit=metadata",
         "--extern", "miniserde=" + d["externs"]["miniserde"], "-L", "dependency=" + d["deps"],
         "-Awarnings", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-Coverflow-checks=on",
         "-Cdebug-assertions=off"]
    if std:
        a += ["--cfg", 'feature="std"']
    return a + list(extra)


class Server:
    def __init__(self, src=None, std=True, extra=()):
        src = src or os.path.join(VERIF, "witness", "src", "lib.rs")
        env = _env()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
        self.out = "/dev/null"
        args = rustc_args(src, std, extra)
        self.tmp = os.path.join(CACHE, "out-%d" % os.getpid())
        os.makedirs(self.tmp, exist_ok=True)
        self.err = open(os.path.join(self.tmp, "stderr"), "w+")
        self.p = subprocess.Popen([driver()] + args[1:] + ["--out-dir", self.tmp], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  text=True, bufsize=1)
        r = self.p.stdout.readline()
        if r.strip() != '"ready"':
            self.err.seek(0)
            e = self.err.read()
            self.close()
            raise WitnessError("witness program does not type-check against miniserde:\n" + e[-3000:])
        self.n = 0

    def q(self, *a):
        self.n += 1
        self.p.stdin.write("\t".join(str(x) for x in a) + "\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline()
        if not r:
            self.err.seek(0)
            raise BuildError("analysis server died: " + self.err.read()[-2000:])
        return json.loads(r)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        self.err.close()
        shutil.rmtree(self.tmp, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    driver()
    print("driver", time.time() - t)
    deps(True)
    deps(False)
    print("deps", time.time() - t)
    s = Server()
    print("server", time.time() - t)
    ls = s.q("locals")
    print(len(ls), ls[:6])
    for n, k, i in ls:
        if n in sys.argv[1:]:
            print(json.dumps(s.q("inst", i)))
            print(json.dumps(s.q("body", i), indent=None))
    s.close()
