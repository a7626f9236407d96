"""P19: a malformed or unsatisfiable request never yields an environment reported as resolved."""
import re
from ..absint import Engine, Incomplete, S, ok, err, unk, RES, TRUE, FALSE
from ..models import MODELS
from . import p09
from .p09 import ret_of, flag_structs
from .. import fx

RULE = ("Modular fault analysis of the request path. Parsing a requirement, resolving (error, or - where the code itself switches strict mode "
        "off or computes it from anything but a strictness setting - an incomplete result with failed requirements), and every public function that does either and can report failure, is assumed "
        "to fail at each of its call sites in turn; on every path from there the function must report failure (Err, false, success=false, None, "
        "a context status other than Resolved) or exit non-zero, and no command may be started. Obligation = (function, fallible call).")

REQ = "rez_next_package::requirement::types::Requirement"
PARSE = re.compile(r"^rez_next_package::package::requirement::PackageRequirement::parse$"
                   r"|^<rez_next_package::requirement::types::Requirement as core::str::traits::FromStr>::from_str$"
                   r"|^rez_next_package::requirement::parser::RequirementParser::parse$")
RESOLVE = re.compile(r"^rez_next_solver::dependency_resolver::DependencyResolver::resolve$")

# Loading packages has its own errors; what is followed here is the request.
OUTSIDE = ("rez_next_package", "rez_next_repository")
SOLVER = "rez_next_solver"
# What these do with a string that does not parse is part of what they report.  Keyed by operation and callee.
EXEMPT = {
    "bundle::execute": ({"resolve", "resolve incompletely", "parse Requirement"},
                        "documented: a bundle that cannot be resolved holds only the request"),
    "diff_bindings::diff_contexts": ({"parse PackageRequirement"}, "compares names; text that is no requirement is taken for a name"),
    "BuildEnvironment::set_variant_env": ({"parse PackageRequirement"}, "only strips versions for a variable; other text is kept as it is"),
    "BuildEnvironment::with_install_path": ({"parse PackageRequirement"}, "as above"),
    "depends_bindings::compute_depends": ({"parse PackageRequirement"}, "lists the packages whose requirements mention a name"),
    "cli::RezCli::run": ({"parse PackageRequirement", "parse Requirement"}, "the built-in self test counts what fails"),
    "selftest_functions::selftest": (None, "failures are counted, not raised"),
    "selftest_functions::selftest_verbose": (None, "failures are listed, not raised"),
    "package_py_utils_bindings::expand_requirements": ({"expand_requirement"}, "a requirement that cannot be expanded is kept as it is"),
}


# tries one alternative after the other: fails only when all did
ALTERNATIVES = {"commands::test::PackageTestRunner::new": {"resolve"}}


def is_parse(n, k):
    return bool(PARSE.search(n)) or (n == "str::parse" and k is not None and REQ in k.get("ga", []))


class M(p09.M):
    track = False

    def event(self, n, k):
        return is_parse(n, k) or bool(RESOLVE.search(n))

    def inline(self, f):
        if self.P.root(f) is self.root:
            return True
        if f.crate in OUTSIDE:
            return None if f.id not in self.muts else False
        if f.crate == SOLVER:
            # inside the solver a candidate that cannot be used is rejected, so every asynchronous function that can err is a unit
            # of its own; what only ranks candidates is left out
            if f.id not in self.muts:
                return None
            r = self.P.root(f)
            return self.root.crate == SOLVER and (r is self.root or not r.pub and r.ret_ty().startswith(RES))
        return p09.M.inline(self, f)

    def on_call(self, E, st, c):
        n = c.name
        F = st.fsm[0] == "F"
        if n == "std::process::exit":
            if F and E.deref(st, c.args[0]) == ("i", 0):
                E.bad.add((st.fsm[1], "exit(0)"))
            return []
        if F and len(st.fsm) == 2 and fx.is_run(n):
            E.bad.add((st.fsm[1], "starts a command all the same"))
            return None
        if F and len(st.fsm) == 2 and n.endswith("::is_empty") and any(
                self.root.path.endswith(k) and st.fsm[1] in ls for k, ls in ALTERNATIVES.items()):
            # an alternative that requests nothing needs no resolve
            s = st.copy()
            s.fsm = st.fsm + ("later",)
            return [(s, TRUE), (st.copy(), FALSE)]
        if is_parse(n, c.k):
            if self.root.path and (PARSE.search(self.root.path) is not None):
                return None
            if c.fn.crate in OUTSIDE:
                return None
            return self.fork(E, st, c, "parse PackageRequirement" if "PackageRequirement" in n else "parse Requirement", RES + "<x>")
        if RESOLVE.search(n) and not RESOLVE.search(self.root.path):
            return self.resolve(E, st, c)
        if c.k is not None and self.root.crate != SOLVER:
            ts = [f for f in self.P.targets(c.k) if f.id in self.fal]
            if ts and all(self.P.root(f) is not self.root for f in ts) or (ts and c.fn is not None and ts[0] is self.root):
                ty = ret_of(self.P, ts[0])
                r = self.fork(E, st, c, ts[0].name, ty)
                if r is not None:
                    return r
        return None

    def is_async(self, c):
        return False if is_parse(c.name, c.k) else p09.M.is_async(self, c)

    def resolve(self, E, st, c):
        self.sites.add("resolve")
        adt = next(a for a in self.P.adts if a.endswith("::DetailedResolutionResult"))

        def res(failed):
            x = c.fresh("resolution")
            return ("A", adt, tuple((f["n"], ("L", "n" if failed else "e", None) if f["n"] == "failed_requirements" else
                                     unk(".", x[1], f["n"])) for f in self.P.adts[adt]["vars"][0]["f"]))

        def w(v):
            return ("A", "ready", (("0", v),))
        out = []
        s = st.copy()
        if s.fsm[0] == "F":
            s.fsm = ("F", s.fsm[1], "later")
        out.append((s, w(ok(res(False)))))
        if st.fsm == ("ok",):
            s = st.copy()
            s.fsm = ("F", "resolve")
            out.append((s, w(err(c.fresh("err")))))
            me = E.deref(st, c.args[0])
            sv = E.field(st, E.field(st, me, "config"), "strict_mode")
            strict = E.truth(st, sv)
            if strict is None and not E.derived(st, sv, lambda k: any(isinstance(x, str) and "strict" in x for x in k[1:])):
                strict = 0          # not the caller's choice of strictness but something computed from other things
            self.strict[c.fn.path] = strict
            if strict == 0:
                self.sites.add("resolve incompletely")
                s = st.copy()
                s.fsm = ("F", "resolve incompletely")
                out.append((s, w(ok(res(True)))))
        return out


def failure(E, st, v, flags, depth=0):
    if p09.failure(E, st, v, flags):
        return True
    v = E.deref(st, v)
    if depth > 4:
        return False
    vs = E.variants_of(st, v)
    if vs is not None:
        if len(vs) == 1 and v[0] == "E":
            n, fs = v[2][0]
            return n in ("Ok", "Some", "Ready") and len(fs) == 1 and failure(E, st, fs[0][1], flags, depth + 1)
        return False
    if v[0] in ("A", "?"):
        if v[0] == "A" and isinstance(v[1], str):
            names = [n for n, _ in v[2]]
        else:
            names = ["inner", "status"]
        if "status" in names:
            s = E.variants_of(st, E.field(st, v, "status"))
            if s is not None and s <= {"Failed", "Resolving", "Aborted"}:
                return True
        if "inner" in names and v[0] == "A":
            return failure(E, st, E.field(st, v, "inner"), flags, depth + 1)
    return False


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    flags = flag_structs(P)
    hits = P.reaching(lambda f: f.crate not in OUTSIDE and any(
        is_parse(P.cname(k), k) or RESOLVE.search(P.cname(k)) for k in f.fn_refs() if not k.get("agg")))
    hits |= {i for i, f in P.fns.items() if f.path.endswith("package_py_utils::expand_requirement")}
    fal = {}
    for i in hits:
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived:
            continue
        b = ret_of(P, f).split("<")[0]
        if (f.pub or f.trait) and (b == RES or b in flags):
            fal[i] = 1
    unit = lambda f: (f.pub or f.trait) if f.crate != SOLVER else f.pub or f.trait or f.ret_ty() != ret_of(P, f) and ret_of(P, f).startswith(RES)
    seen = 0
    strict = {}
    for i in sorted(hits, key=lambda i: P.fns[i].path):
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived or f.crate in ("rez", "rez_next") + OUTSIDE or not unit(f):
            continue
        if f.name.startswith(("__pyfunction_", "__pymethod_")) or f.file.startswith("/"):
            continue
        m = M(P, fal, f, flags, hits)
        m.strict = strict
        E = Engine(P, m, MODELS)
        E.relevant = hits
        E.root = f
        E.bad = set()
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            if len(st.fsm) > 2 and any(f.path.endswith(k) and st.fsm[1] in ls for k, ls in ALTERNATIVES.items()):
                continue
            if st.fsm[0] == "F" and not failure(E, st, v, flags):
                E.bad.add((st.fsm[1], S.show(E.deref(st, v))[:160]))
        seen += len(m.sites)
        if m.sites:
            r.obligation("%s: %s" % (f.path, ", ".join(sorted(m.sites))), len(m.sites))
        for label, how in sorted(E.bad):
            if any(f.path.endswith(k) and (ls is None or label in ls) for k, (ls, _) in EXEMPT.items()):
                continue
            r.violation("%s swallows failure of %s" % (f.path, label), "%s (%s) can report success (%s) after %s failed" % (f.path, f.file, how, label))
    r.cov["strict_mode_at_resolve"] = {k: {1: "on", 0: "off", None: "caller's choice"}[v] for k, v in sorted(strict.items())}
    r.floor("fallible_sites", seen, 15)
