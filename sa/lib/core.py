"""Shared machinery: build the analyser, compile the harness against /repo's working tree, query roots."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SA = f"{VERIF}/sa"
REPO = os.environ.get("UNIC_REPO", "/repo")
TGT = f"{SA}/target"
NIGHTLY = "nightly"
MAXCP = 0x10FFFF


class Inconclusive(Exception):
    """the check cannot give an answer (exit 2)"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "ABSINT_"))}
    e["CARGO_NET_OFFLINE"] = "true"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = run(["rustc", f"+{NIGHTLY}", "--print", "sysroot"], env=base_env()).stdout.strip()
    return _sysroot


class Lock:
    def __init__(self, name):
        os.makedirs(TGT, exist_ok=True)
        self.f = open(f"{TGT}/{name}.lock", "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def sha_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def driver(tool="driver", name="unic-absint"):
    """path of the analyser, rebuilt when its source changed"""
    src = [f"{SA}/{tool}/src/{f}" for f in os.listdir(f"{SA}/{tool}/src")] + [f"{SA}/{tool}/Cargo.toml"]
    key = sha_files(src)[:16]
    out = f"{TGT}/bin/{name}-{key}"
    with Lock(tool):
        if not os.path.exists(out):
            e = base_env()
            e["CARGO_TARGET_DIR"] = f"{TGT}/{tool}"
            r = run(["cargo", f"+{NIGHTLY}", "build", "--release", "--offline"], cwd=f"{SA}/{tool}", env=e)
            if r.returncode:
                raise Inconclusive("the analyser does not build:\n" + r.stdout[-3000:])
            os.makedirs(f"{TGT}/bin", exist_ok=True)
            for f in os.listdir(f"{TGT}/bin"):
                if f.startswith(name):
                    os.unlink(f"{TGT}/bin/{f}")
            shutil.copy2(f"{TGT}/{tool}/release/{name}", out + ".tmp")
            os.rename(out + ".tmp", out)
    return out


def tree_key():
    """content of every file of /repo that can take part in a build, and of the harnesses"""
    fs = []
    for top in (REPO, *(f"{SA}/{h}" for h in os.listdir(SA) if h.startswith("harness"))):
        for dp, dn, fn in os.walk(top):
            dn[:] = [x for x in dn if x not in ("target", ".git")]
            fs += [f"{dp}/{f}" for f in fn if f.endswith((".rs", ".rsv", ".rsd", ".toml", ".lock", ".txt", ".in"))]
    return sha_files([f for f in fs if os.path.isfile(f)])


# std is compiled with its MIR, so that every callee can be analysed
TRIPLE = "x86_64-unknown-linux-gnu"
BUILD_STD = ["-Zbuild-std=std,panic_unwind", "--target", TRIPLE]
FLAGS = "--cap-lints=allow -Zalways-encode-mir -Coverflow-checks=on"


def driver_env():
    e = base_env()
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["RUST_MIN_STACK"] = "4000000000"
    return e


def harness_args(name="harness"):
    """compile the current /repo crates (cargo decides by content, not by mtime) and return the rustc
    command line of the harness crate"""
    d = driver()
    args = f"{TGT}/{name}.args.json"
    with Lock(name):
        e = driver_env()
        e |= {
            "CARGO_TARGET_DIR": f"{TGT}/{name}",
            "RUSTC_WORKSPACE_WRAPPER": d,
            "ABSINT_CRATE": name.replace("-", "_"),
            "ABSINT_ARGS": args,
            "RUSTFLAGS": FLAGS,
        }
        # cargo compares modification times, which an overlaid or restored tree may not advance:
        # forget every artefact of /repo's crates when their contents are not those of the last build
        key, mark = tree_key(), f"{TGT}/{name}.tree"
        old = open(mark).read() if os.path.exists(mark) else ""
        if os.path.exists(args):
            if old == key:
                a = json.load(open(args))
                if a[0] == d and all(os.path.exists(x.split("=", 1)[1]) for x in a if x.startswith("unic=")):
                    return a
            os.unlink(args)
        if old != key:
            if os.path.exists(mark):
                os.unlink(mark)
            b = f"{TGT}/{name}/{TRIPLE}/debug/build"
            for x in os.listdir(b) if os.path.isdir(b) else []:
                if x.startswith("unic") or x.startswith("harness"):
                    shutil.rmtree(f"{b}/{x}")
        # the wrapper leaves no artefact for the harness itself, so cargo always calls it
        r = run(["cargo", f"+{NIGHTLY}", "check", "--offline", *BUILD_STD], cwd=f"{SA}/{name}", env=e)
        if r.returncode == 0:
            open(mark, "w").write(key)
        if r.returncode or not os.path.exists(args):
            raise Inconclusive("/repo or the query harness does not compile:\n" + r.stdout[-4000:])
        return json.load(open(args))


def query(roots, name="harness", budget=None, jobs=None, env=()):
    """run the analyser on the given roots (module::fn, trailing * allowed); dict root -> result"""
    a = harness_args(name)
    d = driver()
    jobs = jobs or 1
    groups = [roots[i::jobs] for i in range(jobs)]
    procs = []
    tmp = f"{TGT}/q.{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    try:
        for i, g in enumerate(groups):
            if not g:
                continue
            e = driver_env()
            e |= {"ABSINT_CRATE": name.replace("-", "_"), "ABSINT_OUT": f"{tmp}/{i}.json", "ABSINT_ROOTS": ",".join(g)}
            e |= {k: os.environ[k] for k in env}
            if budget:
                e["ABSINT_BUDGET"] = str(budget)
            procs.append((i, subprocess.Popen([d] + a[1:], cwd=f"{SA}/{name}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        out = {}
        for i, p in procs:
            log = p.communicate()[0]
            if p.returncode:
                raise Inconclusive("analyser failed:\n" + log[-3000:])
            for line in open(f"{tmp}/{i}.json"):
                r = json.loads(line)
                out[r["root"].split("::", 1)[1]] = r
        return out
    finally:
        for f in os.listdir(tmp):
            os.unlink(f"{tmp}/{f}")
        os.rmdir(tmp)


def effects():
    """the inventory of effects, unsafe operations, statics and types of /repo's library crates"""
    a = harness_args()
    d = driver("effects", "unic-effects")
    tmp = f"{TGT}/e.{os.getpid()}.json"
    e = driver_env()
    e["EFFECTS_OUT"] = tmp
    r = run([d] + a[1:], cwd=f"{SA}/harness", env=e)
    if r.returncode or not os.path.exists(tmp):
        raise Inconclusive("the effect scan failed:\n" + r.stdout[-3000:])
    rows = [json.loads(line) for line in open(tmp)]
    os.unlink(tmp)
    return rows


def restricted(root, seqs, name="harness", jobs=8, budget=60_000_000):
    """the analysis of one root, restricted to single texts: the outcomes"""
    a = harness_args(name)
    d = driver()
    tmp = f"{TGT}/r.{os.getpid()}"
    os.makedirs(tmp, exist_ok=True)
    procs, out = [], []
    try:
        for i in range(jobs):
            part = seqs[i::jobs]
            if not part:
                continue
            with open(f"{tmp}/{i}.txt", "w") as f:
                f.write(";".join(",".join(map(str, s)) for s in part))
            e = driver_env()
            e |= {"ABSINT_CRATE": name.replace("-", "_"), "ABSINT_OUT": f"{tmp}/{i}.json", "ABSINT_ROOTS": root,
                  "ABSINT_SEQS": f"@{tmp}/{i}.txt", "ABSINT_BUDGET": str(budget)}
            procs.append((i, subprocess.Popen([d] + a[1:], cwd=f"{SA}/{name}", env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        for i, p in procs:
            if p.wait():
                continue
            for line in open(f"{tmp}/{i}.json"):
                out += json.loads(line).get("outcomes", [])
        return out
    finally:
        shutil.rmtree(tmp)
