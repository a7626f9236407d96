"""Shared pieces of the checks."""
from .absint import Engine, Incomplete
from .models import MODELS
from . import fx


def base_ty(ty):
    """type constructor behind references / smart pointers"""
    while True:
        t = ty.strip()
        for p in ("&mut ", "&", "core::pin::Pin<", "alloc::boxed::Box<", "alloc::sync::Arc<"):
            if t.startswith(p):
                t = t[len(p):]
                break
        else:
            return t.split("<")[0].rstrip(">").strip()
        ty = t


def public_roots(P, crates_skip=("rez", "rez_next")):
    for f in P.fns.values():
        if f.kind in ("fn", "method") and not f.derived and (f.pub or f.trait) and f.crate not in crates_skip:
            yield f


def effect_sites(P, fns, pred):
    out = []
    for g in fns:
        for k in g.fn_refs():
            if not k.get("agg"):
                n = P.cname(k)
                if pred(n):
                    out.append((g, n))
    return out


def run_root(ctx, f, mon, argvals=None, facts=None, fsm=None, label=None, **kw):
    """run the engine on one entry point; violations and non-termination go to the report.  Returns (engine, outs)."""
    E = Engine(ctx.P, mon, MODELS, **kw)
    E.root = f
    E.label = label or f.path
    outs = []
    try:
        outs = E.run(f, fsm=fsm, argvals=argvals, facts=facts)
    except Incomplete as e:
        ctx.r.violation("incomplete:" + E.label, "analysis did not finish: %s" % e)
    ctx.r.cov["abstract_steps"] = ctx.r.cov.get("abstract_steps", 0) + E.steps
    ctx.r.fns |= set(E.analysed)
    for k, v in E.violations.items():
        ctx.r.violation(k, v)
    E.violation = lambda k, m, *a, **kw: ctx.r.violation(k, m)          # what is found later, at the returned states
    return E, outs


def parallel(ctx, jobs, fn, procs=6):
    """fn(ctx, job) for every job, each in a forked process; findings and coverage are merged in job order.
    Returns the (picklable) results.  A job whose process ends without a result is a violation, never silence."""
    import os, pickle, sys, tempfile, traceback
    from .run import Report
    if procs < 2 or len(jobs) < 2:
        return [fn(ctx, j) for j in jobs]
    base = ctx.r
    tmp = tempfile.mkdtemp(prefix="rz-par-")
    running, todo, out = {}, list(enumerate(jobs)), [None] * len(jobs)
    sys.stdout.flush(); sys.stderr.flush()
    try:
        while todo or running:
            while todo and len(running) < procs:
                i, j = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        ctx.r = Report(base.pid, base.tier)
                        res = fn(ctx, j)
                        r = ctx.r
                        with open(os.path.join(tmp, str(i)), "wb") as f:
                            pickle.dump((res, r.viol, r.cov, r.notes, r.samples, r.assumptions, r.obl, r.fns), f)
                    except BaseException:
                        traceback.print_exc()
                        sys.stderr.flush()
                    os._exit(0)
                running[pid] = i
            pid, _ = os.wait()
            running.pop(pid, None)
        for i, j in enumerate(jobs):
            f = os.path.join(tmp, str(i))
            if not os.path.exists(f):
                raise RuntimeError("analysis of %s ended without a result" % (j,))
            with open(f, "rb") as h:
                out[i], viol, cov, notes, samples, assumptions, obl, fns = pickle.load(h)
            for k, m in viol.items():
                base.violation(k, m)
            for k, v in cov.items():
                base.cov[k] = base.cov.get(k, 0) + v if k == "abstract_steps" else v
            base.notes += notes
            base.assumptions += assumptions
            base.samples = (base.samples + samples)[:40]
            base.obl += obl
            base.fns |= fns
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    return out
