"""P09: a failed write, copy or delete is never reported as success."""
import re
from ..absint import Engine, Monitor, Incomplete, S, ok, err, unk, RES, TRUE, FALSE, E1
from ..models import MODELS
from .. import fx
from ..lib import base_ty

RULE = ("Modular fault analysis. Every file-system mutation, and every workspace function that performs one and can report "
        "failure (Result, or a result struct with a success flag), is assumed to fail at each of its call sites in turn; on every "
        "path from the failure to the function's return, the function itself must report failure (Err, false, success=false, "
        "None, a failure status) or exit non-zero. Because every callee's report is again a fault of its callers, the argument "
        "composes up to the public operations. Branches taken only after testing ErrorKind::NotFound / AlreadyExists / "
        "the fallback of a documented best-effort step are exempt. Obligation = (function, fallible mutating call).")


WRITES = re.compile(r"^core::io::write::Write::(write_all|write_fmt|write)$|^<std::fs::File as core::io::write::Write>::\w+$"
                    r"|^std::fs::File::sync_(all|data)$|BufWriter as core::io::write::Write>::(write_all|write_fmt|flush|write)$"
                    r"|^(alloc|std)::io::copy::copy$|async_write_ext::AsyncWriteExt::(write_all|flush)$|^serde_(json|yaml)::.*to_writer(_pretty)?$"
                    r"|^flate2::.*::(try_)?finish$|^tempfile::.*::persist$|^tokio::io::util::copy::copy$")


def is_fault(n):
    return fx.is_mut(n) or bool(WRITES.search(n))


def flag_structs(P):
    """structs with a boolean success flag"""
    return {a for a, d in P.adts.items() if not d["enum"] and any(f["n"] == "success" and f["ty"] == "bool"
                                                                   for v in d["vars"] for f in v["f"])}


def ret_of(P, f):
    """declared return type, looking through async fn"""
    ty = f.ret_ty()
    if ty.startswith("{async") or "Coroutine" in ty or ty.startswith("core::pin::Pin<alloc::boxed::Box<dyn"):
        for c in P.children.get(f.id, []):
            if c.kind in ("coroutine",) or "closure#0" in c.path:
                return c.ret_ty()
    return ty


# Steps that are best effort by design: what the operation promises does not depend on them.  Keyed by the public operation
# and the primitive (or callee), never by line or helper, with the reason.
BEST_EFFORT = {
    "pkg_cache::ops::clean_cache": ({"remove_dir"}, "pruning of empty directories; whatever stays is found again by the next clean"),
    "pkg_cache::ops::run_daemon": ({"remove_file"}, "a queue file that stays is processed again"),
    "self_update::execute": ({"remove_dir_all"}, "removal of the scratch directory"),
    "BuiltinBinder::bind": ({"bind"}, "tries the next executable; the last result is returned"),
    "selftest_functions::selftest": ({"save"}, "failures are counted, not raised"),
    "selftest_functions::selftest_verbose": ({"save"}, "failures are listed, not raised"),
    "BuildProcess::start": (None, "asynchronous; the outcome is the build's status (property P24)"),
    "env::execute_with_extra_args": ({"remove_file"}, "removal of the temporary activation script and context file"),
    "cmd_builder::run_cmd": ({"execute"}, "the optional flag asks for exactly this"),
    "PythonBuildSystem::configure": ({"execute"}, "version probe"),
    "PythonBuildSystem::test": ({"run_cmd"}, "falls back from pytest to unittest"),
    "ShellExecutor::execute": ({"remove_file"}, "removal of the temporary script"),
    "PackageCache::add_variant": ({"remove_file"}, "a copying flag that stays only hides the entry"),
    "PackageCache::get_cached_root": ({"create", "write_all"}, "last-access stamp"),
    "PackageCache::remove_variant": ({"remove_file", "remove_dir", "rename", "copy", "create_dir_all"},
                                     "metadata without payload is ignored; a failed rename falls back to removal"),
    "PackageCache::clean": (None, "reports how much was deleted, not that everything was"),
    "util_bindings::is_writable_py": ({"remove_file"}, "removal of the probe file"),
    "filesystem::is_writable": ({"remove_file"}, "removal of the probe file"),
}


# the build's steps: their report, not that of the operation that starts them, becomes the build's status
STEPS = "rez_next_build::process::BuildProcess::"


def exempt(f, label):
    for k, (labels, _) in BEST_EFFORT.items():
        if f.path.endswith(k) and (labels is None or label in labels):
            return True
    return False


class M(Monitor):
    init = ("ok",)

    def __init__(self, P, fallible, root, flags, muts=()):
        self.muts = muts
        self.P = P
        self.fal = fallible
        self.root = root
        self.flags = flags
        self.sites = set()

    def event(self, n, k):
        return is_fault(n)

    def inline(self, f):
        # closures, coroutines and private helpers are part of the function under analysis; public functions are summarised
        if self.P.root(f) is self.root:
            return True
        if f.id in self.fal or self.P.root(f).id in self.fal:
            return False
        if f.pub and f.id in self.muts and f.kind in ("fn", "method") and f.ret_ty().startswith(("(", "rez_")):
            return False            # reports in its own way, and is a root of its own
        if any(f.locals[i][0].startswith("&mut ") and f.locals[i][0][5:] in self.flags for i in range(1, f.argc + 1)):
            return True
        return None

    def fork(self, E, st, c, label, ty):
        self.sites.add(label)
        out = []
        asy = c.name.startswith("tokio::") or "async_write_ext" in c.name or (c.k is not None and self.is_async(c))

        def w(v):
            return ("A", "ready", (("0", v),)) if asy else v
        s1 = st.copy()
        if s1.fsm[0] == "F":
            # a later operation: keep it apart from the paths on which the fault has just happened
            s1.fsm = ("F", s1.fsm[1], "later")
        base = ty.split("<")[0]
        if base == "bool":
            out.append((s1, w(TRUE)))
            good, bads = None, [FALSE]
        elif base == RES or ty == "io":
            inner = ty[len(RES) + 1:] if base == RES else ""
            ib = inner.split(",")[0].split("<")[0].strip()
            okv = self.flagged(c, ib, 1) if ib in self.flags else c.fresh("ok")
            out.append((s1, w(ok(okv))))
            bads = [err(c.fresh("err"))]
            if ib in self.flags:
                bads.append("flag")
        elif base in self.flags:
            out.append((s1, w(self.flagged(c, base, 1))))
            bads = ["flag0"]
        else:
            return None
        if st.fsm == ("ok",):
            for b in bads:
                s2 = st.copy()
                s2.fsm = ("F", label)
                if b == "flag":
                    b = ok(self.flagged(c, ib, 0))
                elif b == "flag0":
                    b = self.flagged(c, base, 0)
                out.append((s2, w(b)))
        return out

    def flagged(self, c, adt, v):
        fs = self.P.adts[adt]["vars"][0]["f"]
        return ("A", adt, tuple((f["n"], ("i", v) if f["n"] == "success" else unk(".", c.fresh("flag")[1], f["n"])) for f in fs))

    def is_async(self, c):
        for f in self.P.targets(c.k):
            t = f.ret_ty()
            if t.startswith("{async") or t.startswith("core::pin::Pin<alloc::boxed::Box<dyn"):
                return True
        return False

    def on_call(self, E, st, c):
        if c.name == "std::process::exit":
            v = E.deref(st, c.args[0])
            if st.fsm[0] == "F" and (v[0] != "i" or v[1] == 0):
                E.bad.add((st.fsm[1], "exit(0)" if v[0] == "i" else "exit code that does not depend on it"))
            return []
        if st.fsm[0] == "F" and c.name.endswith("io::error::Error::kind"):
            # the injected fault is one that no "not found / already exists" branch excuses
            return [(st, E1("std::io::error::ErrorKind", "PermissionDenied"))]
        if is_fault(c.name):
            return self.fork(E, st, c, fx.short(c.name), "io")
        if c.k is not None:
            ts = [f for f in self.P.targets(c.k) if f.id in self.fal]
            if ts and all(self.P.root(f) is not self.root for f in ts) or (ts and c.fn is not None and ts[0] is self.root):
                ty = ret_of(self.P, ts[0])
                r = self.fork(E, st, c, ts[0].name, ty)
                if r is not None:
                    return r
        return None


def failure(E, st, v, flags, depth=0):
    """does the returned value report failure on every concretisation?"""
    v = E.deref(st, v)
    vs = E.variants_of(st, v)
    if vs is not None:
        if vs <= {"Err", "None", "Break", "Failed", "Failure", "NotFound", "Error", "Skipped", "Cancelled", "Exception"}:
            return True
        if vs == {"Ok"} or vs == {"Some"} or vs == {"Ready"}:
            return failure(E, st, E.field(st, v, "0", next(iter(vs))), flags, depth + 1)
        if v[0] == "E" and vs <= {"Ok", "Err"}:
            return failure(E, st, E.field(st, v, "0", "Ok"), flags, depth + 1)
    if v[0] == "i":
        return v[1] == 0 and depth >= 0 and True if v == FALSE else v[1] < 0
    if v[0] in ("A", "?"):
        b = v[1] if v[0] == "A" and isinstance(v[1], str) else None
        if b in flags or v[0] == "?":
            t = E.truth(st, E.field(st, v, "success"))
            if t == 0:
                return True
        if b == "tuple" and v[2]:
            return failure(E, st, v[2][0][1], flags, depth + 1)
    return False


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    flags = flag_structs(P)
    muts = P.reaching(lambda f: any(is_fault(P.cname(k)) for k in f.fn_refs() if not k.get("agg")))
    fal = {}
    for i in muts:
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived:
            continue
        ty = ret_of(P, f)
        b = ty.split("<")[0]
        if (f.pub or f.trait) and (b == RES or b in flags):
            fal[i] = ty
    seen = 0
    out = []
    for i in sorted(muts, key=lambda i: P.fns[i].path):
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived or f.crate in ("rez", "rez_next"):
            continue
        if not (f.pub or f.trait) and not (f.path.startswith(STEPS) and ret_of(P, f).startswith(RES)):
            continue
        if f.name.startswith(("__pyfunction_", "__pymethod_")) or f.file.startswith("/"):
            continue
        m = M(P, fal, f, flags, muts)
        E = Engine(P, m, MODELS)
        E.relevant = E0_relevant(ctx, P, E)
        E.root = f
        E.bad = set()
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            if st.fsm[0] == "F" and not failure(E, st, v, flags):
                E.bad.add((st.fsm[1], S.show(E.deref(st, v))[:160]))
        seen += len(m.sites)
        if m.sites:
            r.obligation("%s: %s" % (f.path, ", ".join(sorted(m.sites))), len(m.sites))
        for label, how in sorted(E.bad):
            if exempt(f, label):
                continue
            r.violation("%s swallows failure of %s" % (f.path, label), "%s (%s) can report success (%s) after %s failed" % (f.path, f.file, how, label))
    r.floor("fallible_sites", seen, 50)


def E0_relevant(ctx, P, E):
    return E.relevant
