"""P27: interrupted caching or removal never leaves a partial package looking complete."""
import re
from ..absint import Monitor, S, TRUE, FALSE, NONE, some, ok, err
from ..lib import run_root
from ..transfer import NEXT, LOSSY
from .. import fx

RULE = ("Crash-consistency typestate over the order of file-system effects (every prefix of a path is a crash point). Payload cache: "
        "the in-progress marker is created before the entry's metadata and before any payload file, is removed only after the payload was "
        "copied without a failed or left-out entry, and a lookup or listing yields Found only on paths where the marker was tested "
        "absent and the payload tested present; a removal deletes metadata only after the payload is gone. Repository: a package "
        "directory is deleted only after its ignore marker was written, and the marker is removed only after the deletion succeeded. "
        "Obligation = (operation, effect call site or reported status).")

CACHE = "rez_next_package::package_cache::PackageCache::"
FLAGRE = re.compile(r"\.copying|\.ignore")


def last(E, v):
    """final component of a path value, as text"""
    for _ in range(4):
        if v[0] == "s":
            return v[1].rsplit("/", 1)[-1]
        if v[0] != "?":
            return ""
        k = S.rev[v[1].i]
        if k[0] == "pure" and k[1] in ("join", "with_file_name") and len(k[2]) == 2:
            v = k[2][1]
            continue
        if k[0] == "pure" and k[1] == "with_extension":
            x = k[2][1]
            return "*." + x[1] if x[0] == "s" and x[1] else "*"
        if k[0] == "fmt":
            return "".join(x[1] if x[0] == "s" else "{}" for x in k[1])
        break
    return ""


def name_of(E, st, v):
    """the value that is the final component of a path value"""
    v = E.deref(st, v)
    if v[0] == "?":
        k = S.rev[v[1].i]
        if k[0] == "pure" and k[1] in ("join", "with_file_name") and len(k[2]) == 2:
            return E.deref(st, k[2][1])
    return None


def cls(E, st, v):
    v = E.deref(st, v)
    t = last(E, v)
    if FLAGRE.search(t):
        return "flag"
    if t.endswith("json"):
        return "json"
    if v[0] == "?" and S.rev[v[1].i][0] != "pure":
        return "other"
    return "payload"


class M(Monitor):
    # (flag set, failed, something copied, tests seen, payload removed, entry pending)
    init = (False, False, False, frozenset(), False, False)
    track = True

    def __init__(self, on):
        self.on = on
        self.sites = set()
        self.marks = set()

    def event(self, n, k):
        return fx.is_mut(n) or bool(NEXT.search(n)) or bool(re.search(r"Path(Buf)?::(is_file|is_dir|exists|try_exists)$", n)) \
            or n.endswith("vec::Vec::push")

    def upd(self, st, **kw):
        names = ("flag", "failed", "copied", "tests", "gone", "entry")
        d = dict(zip(names, st.fsm))
        d.update(kw)
        s = st.copy()
        s.fsm = tuple(d[n] for n in names)
        return s

    def on_call(self, E, st, c):
        n = c.name
        flag, failed, copied, tests, gone, entry = st.fsm
        m = re.search(r"^std::path::Path(Buf)?::(is_file|is_dir|exists)$|FileType::is_dir$", n)
        if m and m.group(2):
            k = cls(E, st, c.args[0])
            v = E.deref(st, c.args[0])
            return [(self.upd(st, tests=tests | {(k, True, v)}), TRUE), (self.upd(st, tests=tests | {(k, False, v)}), FALSE)]
        if NEXT.search(n):
            if entry:
                self.on("skip", E, st, c, None)
            copying = E.P.root(c.fn).id in self.muts(E)
            reset = tests if copying else frozenset()
            return [(self.upd(st, entry=False, copied=copied or copying), NONE),
                    (self.upd(st, entry=copying, tests=reset), some(ok(c.fresh("entry")))),
                    (self.upd(st, failed=failed or copying, entry=False, tests=reset), some(err(c.fresh("e"))))]
        if re.search(r"Iterator>?::next$", n) and "ReadDir" in (c.argtys[0] or ""):
            s = self.upd(st, tests=frozenset())
            return [(s.copy(), NONE), (s, some(c.fresh("entry")))]
        if LOSSY.search(n) and c.args and "ReadDir" in (c.argtys[0] or "") and E.P.root(c.fn).id in self.muts(E):
            self.on("lossy", E, st, c, None)
            return None
        if c.k is not None and any(t.id in c.stack for t in E.P.targets(c.k)):
            return [(self.upd(st, copied=True, entry=False), ok(c.fresh("rec"))), (self.upd(st, failed=True, entry=False), err(c.fresh("rece")))]
        if fx.is_mut(n):
            op = fx.short(n)
            kinds = [cls(E, st, a) for a in c.args[:1]] if not op.startswith(("copy", "rename", "symlink", "hard_link")) \
                else ["payload"]
            k = kinds[0] if kinds else "payload"
            self.sites.add((op, k, c.site))
            rm = op.startswith(("remove", "rename"))
            if rm and k == "other":
                k = "payload"
            good = {}
            nm = name_of(E, st, c.args[0]) if k in ("flag", "json") and not rm and c.args else None
            if nm is not None:
                self.marks.add((k, c.site, nm))
            self.on("rm" if rm else "put", E, st, c, k)
            if k == "flag":
                good["flag"] = not rm
            elif k == "payload":
                if rm:
                    good["gone"] = True
                elif op.startswith(("copy", "symlink", "hard_link", "write")):
                    good["copied"] = True
                    good["entry"] = False
            bad = {"failed": True}
            if rm and k == "flag":
                bad["flag"] = None          # tried; what stays only hides the entry
            return [(self.upd(st, **good), ok(c.fresh("ok"))), (self.upd(st, **bad), err(c.fresh("err")))]
        if n.endswith("vec::Vec::push") and len(c.args) == 2:
            self.on("push", E, st, c, c.args[1])
        return None

    _m = None

    def muts(self, E):
        if self._m is None:
            self._m = E.P.reaching(lambda f: any(fx.is_mut(E.P.cname(k)) and re.search(r"copy|symlink|hard_link", E.P.cname(k))
                                                 for k in f.fn_refs() if not k.get("agg")))
            own = [f for f in E.P.fns.values() if f.id in self._m and f.path == E.root.path]
            # only the helper that does the copying, not the operation that calls it
            self._m = {i for i in self._m if E.P.fns.get(i) is not None and E.P.fns[i].path not in self.outer} if self.outer else self._m
        return self._m

    outer = ()


STATUS = "rez_next_package::package_cache::CacheStatus"


def found(v):
    return v[0] == "E" and v[1] == STATUS and any(x[0] == "Found" for x in v[2])


def status_in(E, st, v, depth=0):
    """status values held in a tuple"""
    v = E.deref(st, v)
    if v[0] == "E" and v[1] == STATUS:
        return [v]
    if v[0] == "A" and depth < 3:
        out = []
        for _, x in v[2]:
            out += status_in(E, st, x, depth + 1)
        return out
    return []


def cache(ctx):
    P, r = ctx.P, ctx.r

    def add(kind, E, st, c, k):
        flag, failed, copied, tests, gone, entry = st.fsm
        bad = None
        if kind == "put" and k in ("json", "payload") and not flag and "create_dir" not in c.name:
            bad = "writes the %s before the in-progress marker exists" % ("metadata" if k == "json" else "payload")
        elif kind == "rm" and k == "flag" and flag:
            if failed:
                bad = "removes the in-progress marker after a step failed"
            elif not copied:
                bad = "removes the in-progress marker before the payload was copied"
        elif kind == "rm" and k == "payload" and flag and copied and not failed:
            bad = "removes the payload it just copied"
        elif kind == "skip":
            bad = "an entry of the source can be left out of the cached copy"
        elif kind == "lossy":
            bad = "a directory listing drops entries during the copy"
        if bad:
            E.violation("%s: %s" % (E.root.path, bad), "%s at %s" % (c.name, c.site))

    def look(kind, E, st, c, k):
        flag, failed, copied, tests, gone, entry = st.fsm
        if kind == "push":
            for v in status_in(E, st, k):
                if found(v):
                    seen.append(c.site)
                    need(E, st, "lists", c.site, k)
        if kind == "rm" and k == "json" and not gone:
            E.violation("%s: deletes metadata while the payload may still be there" % E.root.path, "%s at %s" % (c.name, c.site))
        if kind == "rm" and k == "payload" and E.root.name == "remove_variant":
            if not any(k2 == "flag" and not b for k2, b, v in tests) and not gone:
                E.violation("%s: removes a payload without having found it complete" % E.root.path, "%s at %s" % (c.name, c.site))

    def values(E, st, v, depth=0):
        v = E.deref(st, v)
        out = [v]
        if v[0] == "A" and depth < 3:
            for _, x in v[2]:
                out += values(E, st, x, depth + 1)
        if v[0] == "E" and depth < 3:
            for _, fs in v[2]:
                for _, x in fs:
                    out += values(E, st, x, depth + 1)
        return out

    def need(E, st, verb, site, val):
        tests = st.fsm[3]
        vals = values(E, st, val)
        if not any(k == "flag" and not b for k, b, v in tests):
            r.violation("%s: %s an entry as found without having found its in-progress marker absent" % (E.root.path, verb), str(site))
        for k, b, v in tests:
            if k != "flag" or b:
                continue
            nm = name_of(E, st, v)
            for x in vals:
                if nm is None or not any(b2 and v2 == x for k2, b2, v2 in tests) or x[0] != "?":
                    continue
                srcs = {x[1]}
                kx = S.rev[x[1].i]
                if kx[0] == "pure" and kx[1] == "with_extension" and kx[2][0][0] == "?":
                    srcs.add(kx[2][0][1])
                elif kx[0] == "pure" and kx[1] in ("join", "with_file_name"):
                    y = E.deref(st, kx[2][1])
                    if y[0] == "?":
                        srcs.add(y[1])
                if not srcs & E.closure_syms(nm):
                    r.violation("%s: %s an entry as found after testing a marker that is not named after its payload" % (E.root.path, verb), str(site))
        if not any(b and v in vals for k, b, v in tests):
            r.violation("%s: %s an entry as found without having found its payload present" % (E.root.path, verb), str(site))

    ops = {"add_variant": add, "get_cached_root": look, "list_cached": look, "remove_variant": look}
    n = 0
    named = set()
    for name, cb in ops.items():
        f = P.one(CACHE + name)
        if f is None:
            r.violation("anchor:" + name, "PackageCache::%s not found" % name)
            continue
        seen = []
        m = M(cb)
        m.outer = {CACHE + "add_variant", CACHE + "remove_variant"}
        E, outs = run_root(ctx, f, m, label=f.path)
        for st, v in outs:
            v = E.deref(st, v)
            if name == "get_cached_root":
                for s in status_in(E, st, v):
                    if found(s):
                        seen.append("return")
                        need(E, st, "returns", "at the return", v)
            if name == "add_variant" and v[0] == "E":
                for var, fs in v[2]:
                    if var == "Ok":
                        for s in status_in(E, st, dict(fs).get("0", ("?",))):
                            if any(x[0] == "Created" for x in s[2]):
                                seen.append("created")
                                for x in values(E, st, v):
                                    nm = name_of(E, st, x)
                                    if nm is None or nm[0] != "?":
                                        continue
                                    named.add(f.path)
                                    for k, site, fv in sorted(m.marks, key=str):
                                        if nm[1] not in E.closure_syms(fv) and fv != nm:
                                            r.violation("%s: the %s is not named after the payload it stands for" % (
                                                f.path, {"flag": "in-progress marker", "json": "metadata"}[k]), str(site))
                                if st.fsm[0]:
                                    r.violation("%s: reports Created but leaves the entry marked as in progress" % f.path, "at the return")
                                if not st.fsm[2]:
                                    r.violation("%s: reports Created without having copied the payload" % f.path, "at the return")
        n += 1
        r.obligation("%s: %d effect sites, %d reported-found sites" % (f.path, len(m.sites), len(set(seen))), len(m.sites) + len(set(seen)))
        if name != "remove_variant" and not seen:
            r.violation("anchor:found in " + name, "no path that reports Found was recognised in %s" % name)
        if name == "add_variant":
            ks = {k for _, k, _ in m.sites}
            r.floor("add_variant_path_classes", len(ks), 3)
    r.floor("cache_operations", n, 4)


class R(Monitor):
    # (marker present, payload deleted)
    init = (False, False)

    def __init__(self):
        self.sites = set()

    def event(self, n, k):
        return fx.is_mut(n)

    def on_call(self, E, st, c):
        n = c.name
        if not fx.is_mut(n):
            return None
        op = fx.short(n)
        arg = c.args[1] if op.startswith("open") and len(c.args) > 1 else c.args[0]
        k = cls(E, st, arg)
        flag, gone = st.fsm
        self.sites.add((op, k))
        s = st.copy()
        s2 = st.copy()
        if op.startswith("remove"):
            if k == "flag":
                if not gone:
                    E.violation("%s: removes the ignore marker before the package directory is gone" % E.root.path, "%s at %s" % (n, c.site))
                s.fsm = (False, gone)
            else:
                if not flag:
                    E.violation("%s: deletes the package directory before its ignore marker exists" % E.root.path, "%s at %s" % (n, c.site))
                s.fsm = (flag, True)
        elif k == "flag":
            s.fsm = (True, gone)
            # already there: a branch on AlreadyExists is as good as having created it
            s2.fsm = (True, gone) if "open" in op else st.fsm
        return [(s, ok(c.fresh("ok"))), (s2, err(c.fresh("err")))]


def repo(ctx):
    P, r = ctx.P, ctx.r
    fs = [f for f in P.fns.values() if f.kind == "method" and f.name == "remove_package" and f.crate == "rez_next_repository"
          and "FilesystemPackageRepository as" in f.path]
    for f in fs:
        m = R()
        run_root(ctx, f, m, label=f.path)
        r.obligation("%s: %s" % (f.path, sorted(m.sites)), len(m.sites))
        r.floor("removal_effect_sites", len(m.sites), 4)
    r.floor("repository_removals", len(fs), 1)


def run(ctx):
    ctx.r.rule = RULE
    cache(ctx)
    repo(ctx)
