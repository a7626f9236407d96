"""P01: in dry-run mode nothing is changed."""
from ..absint import Engine, Monitor, Incomplete, TRUE, E1
from ..models import MODELS
from .. import fx

RULE = ("Assume every `dry_run` flag is true (and release mode DryRun); then no call that mutates the file system and no "
        "process start other than a read-only probe is reachable from any public entry point that carries the flag. "
        "Obligation = (entry point, effectful call site reachable in its call graph).")


class M(Monitor):
    def __init__(self, modes):
        self.modes = modes

    def event(self, n, k):
        return fx.is_mut(n) or fx.is_run(n)

    def on_field(self, E, st, sym, f):
        if f == "dry_run":
            return TRUE
        if self.modes and f == "mode":
            return E1(self.modes, "DryRun")

    def on_param(self, E, fn, i, name, ty):
        if name in ("dry_run", "_dry_run") and ty == "bool":
            return TRUE

    def on_call(self, E, st, c):
        if fx.is_mut(c.name) or fx.is_run(c.name):
            if fx.is_run(c.name) and fx.readonly_command(E, st, c):
                E.seen_event("probe", c.site)
                return None
            root = E.root.path
            E.violation("%s -> %s in %s" % (root, fx.short(c.name), E.P.root(c.fn).path),
                        "with the dry-run flag set, %s reaches %s at %s (in %s)" % (root, c.name, c.site, c.fn.path))
        return None


def roots(P):
    adts = {a for a, d in P.adts.items() if not d["enum"] and any(f["n"] == "dry_run" for v in d["vars"] for f in v["f"])}
    modes = {a for a, d in P.adts.items() if d["enum"] and any(v["n"] == "DryRun" for v in d["vars"])}
    holders = {}
    for a, d in P.adts.items():
        if d["enum"]:
            continue
        for v in d["vars"]:
            for f in v["f"]:
                if f["n"] == "mode" and f["ty"] in modes:
                    holders[a] = f["ty"]
    out = []
    for f in P.fns.values():
        if f.kind not in ("fn", "method") or f.derived or f.crate in ("rez", "rez_next"):
            continue
        if not (f.pub or f.trait):
            continue
        mode = None
        hit = False
        for i in range(1, f.argc + 1):
            ty = f.locals[i][0]
            base = ty.replace("&mut ", "").replace("&", "").split("<")[0].strip()
            if base in adts:
                hit = True
            if base in holders:
                mode = holders[base]
            if ty == "bool" and f.local_name(i) in ("dry_run", "_dry_run"):
                hit = True
        if hit or mode:
            out.append((f, mode))
    return out, adts, holders


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    rs, adts, holders = roots(P)
    n_eff = 0
    run_roots = 0
    steps = 0
    for f, mode in sorted(rs, key=lambda x: x[0].path):
        if mode and f.name not in ("release", "execute"):
            # setters/getters of a manager that merely stores the mode
            pass
        E = Engine(P, M(mode), MODELS)
        if f.id not in E.relevant:
            continue
        E.root = f
        run_roots += 1
        try:
            E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, "analysis did not finish: %s" % e)
        steps += E.steps
        reach = P.reachable([f])
        effs = [(g, n) for g in reach.values() for k in g.fn_refs() if not k.get("agg")
                for n in [P.cname(k)] if fx.is_mut(n) or fx.is_run(n)]
        n_eff += len(effs)
        r.obligation("%s: %d effectful call sites in its call graph, none reachable under dry-run" % (f.path, len(effs)), len(effs))
        for k, v in E.violations.items():
            r.violation(k, v)
    r.cov["steps"] = steps
    r.cov["flag_types"] = sorted(adts)
    r.floor("entry_points", run_roots, 6)
    r.floor("flag_carrying_types", len(adts), 6)
    r.floor("guarded_effect_sites", n_eff, 20)
    r.assumptions += ["process starts classified as read-only probes (--version, VCS queries) change nothing",
                      "the private temporary directory the pip command creates for itself is not counted as a change"]
