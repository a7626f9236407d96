"""P02: a repository opened read-only is never modified."""
from ..absint import Monitor, TRUE, S, unk
from .. import fx
from ..lib import base_ty, public_roots, run_root, effect_sites

RULE = ("Assume the `read_only` field of every repository value is true; then no call that mutates the file system and no "
        "process start is reachable from any public or trait method of a type that carries (directly or in a field) such a "
        "value, and a method that would have mutated returns Err. Obligation = (method, mutating call site in its call graph).")


class M(Monitor):
    def event(self, n, k):
        return fx.is_mut(n)

    def on_field(self, E, st, sym, f):
        if f == "read_only":
            return TRUE

    def on_call(self, E, st, c):
        if fx.is_mut(c.name):
            E.violation("%s -> %s in %s" % (E.root.path, fx.short(c.name), E.P.root(c.fn).path),
                        "on a read-only repository, %s reaches %s at %s" % (E.root.path, c.name, c.site))
        return None


class Keep(Monitor):
    pass


def find(E, st, f, want):
    return any(v == want and "read_only" in S.show(k) for k, v in st.heap.items())


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    ro = {a for a, d in P.adts.items() if not d["enum"] and any(f["n"] == "read_only" for v in d["vars"] for f in v["f"])}
    hold = set(ro)
    for _ in range(3):
        for a, d in P.adts.items():
            for v in d["vars"]:
                for f in v["f"]:
                    if any(h in f["ty"] for h in hold):
                        hold.add(a)
    sites = methods = 0
    for f in sorted(public_roots(P), key=lambda f: f.path):
        if f.argc < 1 or base_ty(f.locals[1][0]) not in hold:
            continue
        reach = P.reachable([f])
        eff = effect_sites(P, reach.values(), fx.is_mut)
        if not eff:
            continue
        methods += 1
        sites += len(eff)
        E, outs = run_root(ctx, f, M())
        r.obligation("%s: %d mutating call sites in its call graph, none reachable when read-only" % (f.path, len(eff)), len(eff))
        for st, v in outs:
            vs = E.variants_of(st, v)
            if base_ty(f.locals[1][0]) in ro and f.locals[0][0].startswith("core::result::Result") and f.trait and (vs is None or "Ok" in vs):
                if f.name in ("remove_package", "ignore_package", "unignore_package", "remove_package_family", "remove_ignored_since"):
                    r.violation("ok:" + f.path, "%s reports success on a read-only repository" % f.path)
    r.floor("read_only_types", len(ro), 2)
    r.floor("mutating_methods", methods, 5)
    r.floor("mutating_sites", sites, 10)
    # the flag survives construction: setters store their argument, the other builder methods keep it
    setters = 0
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if f.kind != "method" or f.derived or f.argc < 1 or f.locals[1][0].replace("&mut ", "") not in ro:
            continue
        ty = f.locals[1][0].replace("&mut ", "")
        byval = f.locals[0][0] == ty and f.locals[1][0] == ty
        par = [i for i in range(2, f.argc + 1) if f.locals[i][0] == "bool" and f.local_name(i) == "read_only"]
        if not byval and not par:
            continue
        setters += 1
        E, outs = run_root(ctx, f, Keep())
        want = unk("p", "read_only") if par else unk(".", S("p", f.local_name(1) or "arg1"), "read_only")
        for st, v in outs:
            got = E.field(st, v if byval else unk("p", f.local_name(1) or "arg1"), "read_only")
            r.obligation("%s leaves the flag %s" % (f.path, "as given" if par else "unchanged"))
            if got != want and not (not byval and find(E, st, f, want)):
                r.violation("flag:" + f.path, "%s does not keep the read-only flag (%s instead of %s)" % (f.path, S.show(got), S.show(want)))
    r.floor("builders_checked", setters, 3)
    r.assumptions.append("functions called outside the workspace change the file system only if the effect table lists them")
