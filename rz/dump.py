"""Keeps an up-to-date MIR dump of /repo's working tree under /verif/.cache.

The dump is produced by the rzdump driver (driver/), which runs as RUSTC_WORKSPACE_WRAPPER inside an ordinary
`cargo check` of the whole workspace.  A package is re-dumped whenever the content of its directory changed since
its last dump (content hash, not mtime); cargo re-checks the packages that depend on it.
"""
import glob, hashlib, json, marshal, os, re, shutil, subprocess, sys, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RZ_REPO", "/repo")
CACHE = os.environ.get("RZ_CACHE", os.path.join(VERIF, ".cache"))
DRIVER = os.path.join(CACHE, "driver", "release", "rzdump")
TARGET = os.path.join(CACHE, "target")
DUMP = os.path.join(CACHE, "dump")

CRATE_OF = {"rez-next-python": ["rez_next_bindings.lib"], "rez-next": ["rez_core.lib", "rez.bin", "rez_next.bin"]}


def packages():
    """{package name: (dir, [workspace deps])}"""
    out = {}
    root = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r"members\s*=\s*\[(.*?)\]", root, re.S)
    dirs = re.findall(r'"([^"]+)"', m.group(1))
    for d in [""] + dirs:
        t = open(os.path.join(REPO, d, "Cargo.toml")).read()
        pk = t[t.index("[package]"):]
        name = re.search(r'^name\s*=\s*"([^"]+)"', pk, re.M).group(1)
        out[name] = d
    return out


def pkg_hash(d, root):
    h = hashlib.sha256()
    files = []
    if root:
        tops = ["src", "Cargo.toml", "Cargo.lock", "rust-toolchain.toml", "build.rs"]
        for t in tops:
            p = os.path.join(REPO, t)
            if os.path.isdir(p):
                for dp, dn, fn in os.walk(p):
                    files += [os.path.join(dp, f) for f in fn]
            elif os.path.exists(p):
                files.append(p)
    else:
        for dp, dn, fn in os.walk(os.path.join(REPO, d)):
            dn[:] = [x for x in dn if x not in ("target", ".git", "node_modules", "__pycache__")]
            files += [os.path.join(dp, f) for f in fn]
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"!")
    return h.hexdigest()


def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    sr = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sr + "/lib"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    stamp = os.path.join(CACHE, "driver.stamp")
    want = hashlib.sha256(open(src, "rb").read() + open(os.path.join(VERIF, "driver", "Cargo.toml"), "rb").read()).hexdigest()
    if os.path.exists(DRIVER) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(CACHE, "driver")
    subprocess.run(["cargo", "+nightly", "build", "--release", "--offline", "--locked", "-q"],
                   cwd=os.path.join(VERIF, "driver"), env=e, check=True)
    open(stamp, "w").write(want)
    # a new driver means every dump is stale
    shutil.rmtree(DUMP, ignore_errors=True)
    st = os.path.join(CACHE, "stamp.json")
    if os.path.exists(st):
        os.unlink(st)


class DumpError(Exception):
    pass


def crate_files(pkg):
    return CRATE_OF.get(pkg) or [pkg.replace("-", "_") + ".lib"]


def ensure():
    """bring the dump up to date with /repo's working tree; returns (dump dir, {pkg: hash}, seconds)"""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    build_driver()
    os.makedirs(DUMP, exist_ok=True)
    pk = packages()
    now = {p: pkg_hash(d, d == "") for p, d in pk.items()}
    sf = os.path.join(CACHE, "stamp.json")
    old = json.load(open(sf)) if os.path.exists(sf) else {}
    missing = {p for p in pk if any(not os.path.exists(os.path.join(DUMP, c + ".json")) for c in crate_files(p))}
    changed = {p for p in pk if old.get(p) != now[p]} | missing
    if changed:
        for p in changed:
            for d in glob.glob(os.path.join(TARGET, "debug", "build", p)) + glob.glob(os.path.join(TARGET, "debug", ".fingerprint", p + "-*")):
                shutil.rmtree(d, ignore_errors=True)
            for c in crate_files(p):
                for ext in (".json", ".marshal"):
                    f = os.path.join(DUMP, c + ext)
                    if os.path.exists(f):
                        os.unlink(f)
        if os.path.exists(sf):
            os.unlink(sf)
        e = env()
        e["RZ_DUMP_DIR"] = DUMP
        e["RUSTC_WORKSPACE_WRAPPER"] = DRIVER
        e["CARGO_TARGET_DIR"] = TARGET
        r = subprocess.run(["cargo", "+nightly", "check", "--workspace", "--offline", "--locked"], cwd=REPO, env=e,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise DumpError("cargo check of /repo failed:\n" + r.stderr[-3000:])
        for p in pk:
            for c in crate_files(p):
                if not os.path.exists(os.path.join(DUMP, c + ".json")):
                    raise DumpError("no dump for %s (%s) after cargo check" % (p, c))
        json.dump(now, open(sf, "w"))
    convert_stale(DUMP)
    lock.close()
    return DUMP, now, time.time() - t0


def fn_refs(blocks):
    """every function constant, closure or coroutine a body mentions"""
    refs = []
    seen = set()

    def add(k):
        key = (k["id"], k.get("rid"), k.get("agg"), tuple(k.get("gc", ())))
        if key not in seen:
            seen.add(key)
            refs.append(k)

    def op(o):
        if o[0] == "k" and "fn" in o[1]:
            add(o[1])

    for b in blocks:
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            if r[0] == "agg":
                if r[1]["k"] in ("closure", "coroutine"):
                    add({"fn": "", "id": r[1]["id"], "agg": 1})
                for o in r[2]:
                    op(o)
            elif r[0] in ("use", "rep"):
                op(r[1])
            elif r[0] == "cast":
                op(r[2])
        t = b["t"]
        if t[0] == "call":
            op(t[1])
            for o in t[2]:
                op(o)
    return refs


def convert(path):
    """json dump -> marshal: an index with per-function lazily decoded bodies"""
    with open(path) as f:
        d = json.load(f)
    for x in d["fns"]:
        bl = x.pop("blocks")
        x["refs"] = fn_refs(bl)
        x["nreal"] = sum(1 for b in bl if not b["c"])
        x["blob"] = marshal.dumps((bl, x.pop("locals"), x.pop("dbg")))
    m = path[:-5] + ".marshal"
    tmp = m + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        marshal.dump(d, f)
    os.replace(tmp, m)
    return d


def load_crate(path):
    m = path[:-5] + ".marshal"
    if os.path.exists(m) and os.path.getmtime(m) >= os.path.getmtime(path):
        with open(m, "rb") as f:
            return marshal.load(f)
    return convert(path)


def convert_stale(d):
    """convert new json dumps in parallel"""
    import multiprocessing
    fs = [f for f in glob.glob(os.path.join(d, "*.json"))
          if not (os.path.exists(f[:-5] + ".marshal") and os.path.getmtime(f[:-5] + ".marshal") >= os.path.getmtime(f))]
    fs.sort(key=lambda f: -os.path.getsize(f))
    if len(fs) > 1:
        with multiprocessing.Pool(min(8, len(fs))) as p:
            p.map(_conv, fs, chunksize=1)
    elif fs:
        convert(fs[0])


def _conv(f):
    import gc
    gc.disable()
    convert(f)


if __name__ == "__main__":
    d, now, s = ensure()
    print("dump of %d packages up to date in %s (%.1fs)" % (len(now), d, s))
