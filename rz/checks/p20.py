"""P20: a file that cannot be read or parsed never counts as an empty or absent one."""
import re
from ..absint import Engine, Incomplete, S, RES, NONE, some, unk, err
from ..models import MODELS
from . import p09
from .p09 import ret_of, flag_structs
from .. import fx

RULE = ("Modular fault analysis of reading. Every read of a file and every parse of its text, and every public workspace function that does either and "
        "can report failure, is assumed to fail at each of its call sites in turn; on every path from the failure to the function's return the function "
        "must report failure (Err, None, false, success=false) or exit non-zero. Formats tried one after the other count as failed when all failed. Files "
        "that come out of a directory listing, and system files named by a constant, are not followed. Obligation = (function, fallible read).")

# What these do with a file they cannot read is part of what they report.  Keyed by operation and callee.
CACHED = ({"parse", "read_to_string", "open"}, "metadata of cached payloads; an entry that cannot be read counts as absent (property P27)")
LOOKUP = ({"load_from_file", "find_packages"}, "looks in several places and reports what was found")
EXEMPT = {
    "<rez_next_build::vcs::VCSRevision as core::convert::From>::from": ({"parse"}, "text, not a file"),
    "bundle::execute": ({"resolve"}, "documented: a bundle that cannot be resolved holds only the request"),
    "commands::test::PackageTestRunner::new": ({"resolve"}, "tries one alternative after the other (property P19)"),
    "PyPackageCache::list_cached": CACHED,
    "package_cache::PackageCache::clean": CACHED,
    "package_cache::PackageCache::get_cached_root": CACHED,
    "package_cache::PackageCache::list_cached": CACHED,
    "package_uri_functions::get_package_from_handle": LOOKUP,
    "package_uri_functions::get_package_from_repository": LOOKUP,
    "package_uri_functions::get_package_from_uri": LOOKUP,
    "selftest_functions::selftest": (None, "failures are counted, not raised"),
    "selftest_functions::selftest_verbose": (None, "failures are listed, not raised"),
    "BuildProcess::start": (None, "asynchronous; the outcome is the build's status (property P24)"),
    "ReleaseManager::release": ({"parse"}, "output of the interpreter (property P08)"),
    "config::RezCoreConfig::load": ({"parse", "read_to_string"}, "searches a list of places for the first usable configuration"),
    "rez_next_config::Config::load": ({"parse"}, "environment variables may hold plain text"),
    "HighPerformanceScanner::scan_repository_optimized": (None, "a scan; errors are listed in its result"),
    "SimpleRepository::scan": ({"load_from_file"}, "a scan; errors are kept and reported when the package is asked for"),
    "RepositoryScanner::preload_common_paths": (None, "warms a cache"),
    "PackageSearcher::search": ({"find_packages"}, "searches several repositories"),
}

READ = re.compile(r"^(std|tokio)::fs::(read|read_to_string)(::\w+)?$|^(std|tokio)::fs::(file::)?File::open$"
                  r"|(Read|AsyncReadExt|BufRead)( for .*)?>?::(read_to_string|read_to_end|read|read_exact|read_line|read_until)$")
PARSE = re.compile(r"^serde_(json|yaml|yml)::(de::)?from_(str|slice|reader)$|^toml::(de::)?from_str$|^serde_(json|yaml)::value::from_value$"
                   r"|^json5::(de::)?from_str$|^bincode::.*::(deserialize\w*|decode_from_\w+)$|^base64::.*::decode\w*$|^rustpython_parser::.*::parse\w*$")
VERSION = "rez_next_version::version::Version::parse"
LOADER = re.compile(r"^<?rez_next_package::(serialization|python_ast_parser)")
LISTED = re.compile(r"DirEntry|ReadDir|read_dir|walkdir|glob::|::SuiteManager::find_suites$")
NEXT = re.compile(r"IntoIter as .*Iterator>::next$")
SYSTEM = re.compile(r"^/(etc|proc|sys)/")


def listed(k):
    """a symbol that stands for what a directory listing yielded"""
    return k[0] == "r" and isinstance(k[3], str) and bool(LISTED.search(k[3])) or k[0] == "pure" and isinstance(k[1], str) and "DirEntry" in k[1]


def is_fault(n):
    return bool(READ.search(n) or PARSE.search(n))


def suites(n, k):
    return n == "str::parse" and k is not None and any(g.startswith("rez_next_suites::") for g in k.get("ga", []))


class M(p09.M):
    def event(self, n, k):
        return is_fault(n) or n == VERSION or suites(n, k)

    def on_call(self, E, st, c):
        if c.name == "std::process::exit":
            v = E.deref(st, c.args[0])
            if st.fsm[0] == "F" and v == ("i", 0):
                E.bad.add((st.fsm[1], "exit(0)"))
            return []
        if st.fsm[0] == "F" and c.name.endswith("io::error::Error::kind"):
            return [(st, p09.E1("std::io::error::ErrorKind", "PermissionDenied"))]
        if NEXT.search(c.name) and E.derived(st, c.args[0], listed):
            return [(st.copy(), NONE), (st.copy(), some(unk("r", c.ctx, c.block, "ReadDir", "elem")))]
        if c.name == VERSION and LOADER.search(self.P.root(c.fn).path):
            return self.fork(E, st, c, "version", "io")
        if suites(c.name, c.k):
            return self.fork(E, st, c, "parse text", "io")
        if is_fault(c.name):
            if self.scanned(E, st, c):
                return None
            if PARSE.search(c.name):
                return self.alternatives(E, st, c)
            return self.fork(E, st, c, fx.short(c.name), "io")
        if c.k is not None:
            ts = [f for f in self.P.targets(c.k) if f.id in self.fal]
            if ts and self.scanned(E, st, c):
                return None
            if ts and all(self.P.root(f) is not self.root for f in ts) or (ts and c.fn is not None and ts[0] is self.root):
                ty = ret_of(self.P, ts[0])
                r = self.fork(E, st, c, ts[0].name, ty)
                if r is not None:
                    return r
        return None

    def inline(self, f):
        if LISTED.search(f.path) and self.P.root(f) is not self.root:
            return False
        return p09.M.inline(self, f)

    def scanned(self, E, st, c):
        for a in c.args:
            v = E.deref(st, a)
            if v[0] == "s" and SYSTEM.search(v[1]):
                return True
            if E.derived(st, a, listed):
                return True
        return False

    def alternatives(self, E, st, c):
        """text that does not parse in one format may parse in the next one, and fails when it does in none"""
        outs = self.fork(E, st, c, "parse", "io")
        if st.fsm[:2] == ("F", "parse"):
            outs[0][0].fsm = ("done",)
            outs.append((st.copy(), err(c.fresh("err"))))
        return outs


def failure(E, st, v, flags):
    if p09.failure(E, st, v, flags):
        return True
    v = E.deref(st, v)
    if v[0] == "E" and E.variants_of(st, v) == {"Ok"}:
        v = E.deref(st, E.field(st, v, "0", "Ok"))
    # the outcome of a validation is its result
    return v[0] == "A" and any(n == "is_valid" for n, _ in v[2]) and E.truth(st, E.field(st, v, "is_valid")) == 0


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    flags = flag_structs(P)
    muts = P.reaching(lambda f: any(is_fault(P.cname(k)) or P.cname(k) == VERSION and LOADER.search(f.path) for k in f.fn_refs() if not k.get("agg")))
    fal = {}
    for i in muts:
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived:
            continue
        ty = ret_of(P, f)
        b = ty.split("<")[0]
        if (f.pub or f.trait) and (b == RES or b in flags):
            fal[i] = ty
    seen = 0
    for i in sorted(muts, key=lambda i: P.fns[i].path):
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived or f.crate in ("rez", "rez_next") or not (f.pub or f.trait):
            continue
        if f.name.startswith(("__pyfunction_", "__pymethod_")) or f.file.startswith("/"):
            continue
        m = M(P, fal, f, flags, muts)
        E = Engine(P, m, MODELS)
        E.root = f
        E.bad = set()
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            if st.fsm[0] == "F" and not failure(E, st, v, flags):
                E.bad.add((st.fsm[1], S.show(E.deref(st, v))[:160]))
        seen += len(m.sites)
        if m.sites:
            r.obligation("%s: %s" % (f.path, ", ".join(sorted(m.sites))), len(m.sites))
        for label, how in sorted(E.bad):
            if any(f.path.endswith(k) and (ls is None or label in ls) for k, (ls, _) in EXEMPT.items()):
                continue
            r.violation("%s swallows failure of %s" % (f.path, label), "%s (%s) can report success (%s) after %s failed" % (f.path, f.file, how, label))
    r.floor("fallible_sites", seen, 120)
