"""P24: a build succeeds only when every step did, and stops at the first that did not."""
import re
from ..absint import Engine, Incomplete, Monitor, S, NONE, OPT, RES, TRUE, FALSE, UNIT, some, ok, err, unk, E1
from ..lib import run_root
from ..models import MODELS, boxed_array, loc_of
from .. import fx
from . import p09

RULE = ("Typestate analysis of the build driver, with every build step (configure, compile, test, package, install of the build system, the "
        "package's own tests, and every file-system change of the driver) succeeding, failing and erring in turn: no step starts after one "
        "that failed, a step starts only after the ones before it succeeded (tests may be switched off), the status Success is written only "
        "with all steps done and none failed, and never over Cancelled; waiting reports success exactly for the status Success. "
        "Obligation = (step, outcome), (status write), (status, report).")

BP = "rez_next_build::process::BuildProcess"
BS = "rez_next_build::systems::BuildSystem::"
ORDER = ("configure", "compile", "test", "package", "install")
STATUS = "rez_next_build::builder::BuildStatus"
STEP = re.compile(r"^rez_next_build::systems::BuildSystem::(configure|compile|test|package|install)$")
LOCK = re.compile(r"(Mutex|RwLock)::(lock|read|write|try_read|try_write|try_lock|blocking_read|blocking_write|blocking_lock)$")
SHELL = re.compile(r"^rez_next_context::shell::ShellExecutor::execute\w*$")
INTO = re.compile(r"IntoIterator(>)?::into_iter$|^\[T\]::iter(_mut)?$|^alloc::vec::Vec::(iter|into_iter|drain)$|Iterator::(cloned|copied|enumerate|by_ref|rev)$")
VEC = {"alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "[T]::into_vec"}
NEXT = re.compile(r"Iterator>?::next$")


def ready(v):
    return ("A", "ready", (("0", v),))



class M(Monitor):
    """fsm = (failed step or "", done steps, position in the step list, status seen at the last acquisition)"""
    init = ("", frozenset(), 0, "")

    def __init__(self, P, variants, skip_tests=0):
        self.P = P
        self.skip_tests = skip_tests
        self.variants = variants
        self.steps = set()
        self.writes = set()
        self.locks = 0
        self.order = True               # is the order of the steps to be checked?
        self.walked = self.listed = False

    def event(self, n, k):
        return bool(STEP.search(n)) or bool(SHELL.search(n)) or fx.is_mut(n) or bool(LOCK.search(n))

    def writes_of_interest(self, f):
        return f.path.startswith(BP)

    def opaque(self, f):
        return False

    # -- the list of steps, walked in its order
    def seq(self, v):
        if v[0] == "A" and v[1] == "array" and len(v[2]) > 1 and all(x[0] == "E" and len(x[2]) == 1 and not x[2][0][1] for _, x in v[2]):
            return v
        if v[0] == "A" and v[1] not in ("array", "seq"):
            for _, x in v[2]:
                r = self.seq(x)
                if r is not None:
                    return r
        return None

    def on_call(self, E, st, c):
        n = c.name
        if n in VEC:
            v = self.seq(boxed_array(E, st, c.args[0]))
            self.listed = self.listed or v is not None
            return [(st, v)] if v is not None else None
        if INTO.search(n):
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "seq":
                op = n.rsplit("::", 1)[1]
                if op == "rev" and len(v[2]) == 1:
                    a = v[2][0][1]
                    return [(st, ("A", "seq", (("0", ("A", "array", tuple((i, x) for (i, _), (_, x) in zip(a[2], reversed(a[2]))))),)))]
                if op == "enumerate" and len(v[2]) == 1:
                    return [(st, ("A", "seq", v[2] + (("1", ("i", 1)),)))]
                return [(st, v)]
            v = self.seq(v) if v[0] == "A" and v[1] == "array" else None
            if v is not None:
                s = st.copy()
                s.fsm = st.fsm[:2] + (0,) + st.fsm[3:]
                return [(s, ("A", "seq", (("0", v),)))]
            return None
        if NEXT.search(n):
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "seq":
                items = v[2][0][1][2]
                p = st.fsm[2]
                s = st.copy()
                if p >= len(items):
                    return [(s, NONE)]
                s.fsm = st.fsm[:2] + (p + 1,) + st.fsm[3:]
                self.walked = True
                x = items[p][1]
                if len(v[2]) == 2:
                    x = ("A", "tuple", (("0", ("i", p)), ("1", x)))
                return [(s, some(x))]
            return None
        m = LOCK.search(n)
        if m and c.k is not None and STATUS in str(c.k):
            self.locks += 1
            out = []
            for var in self.variants:
                s = st.copy()
                s.fsm = st.fsm[:3] + (var,)
                g = c.fresh("guard." + var)
                s.heap_w()[g[1]] = E1(STATUS, var)
                g = ("R", (("h", g[1]), ()), 1)
                w = m.group(2)
                if w.startswith("try"):
                    g = ok(g)
                elif n.startswith("tokio") and not w.startswith("blocking"):
                    g = ready(g)
                elif n.startswith("std"):
                    g = ok(g)
                out.append((s, g))
            if m.group(2).startswith("try"):
                s = st.copy()
                s.fsm = st.fsm[:3] + ("?",)
                out.append((s, err(c.fresh("busy"))))
            return out
        m = STEP.search(n)
        step = m.group(1) if m else "package tests" if SHELL.search(n) else None
        if step is None and fx.is_mut(n):
            return self.fork(E, st, c, fx.short(n), "io")
        if step is None:
            return None
        failed, done, pos, seen = st.fsm
        self.steps.add(step)
        where = c.fn.path
        if failed:
            E.violation("%s after a failed step" % step, "%s starts %s although %s failed" % (where, step, failed))
            return []
        before = ORDER[:ORDER.index(step)] if step in ORDER else ORDER
        for b in before if self.order else ():
            if b in done or (b == "test" and self.skip(E, st)):
                continue
            E.violation("%s without %s" % (step, b), "%s starts %s on a path on which %s has not succeeded" % (where, step, b))
            return []
        if step == "package tests" or step == "test":
            if self.skip(E, st):
                E.violation("%s although tests are switched off" % step, where)
        return self.fork(E, st, c, step, "step" if step in ORDER else "shell")

    def on_field(self, E, st, sym, field):
        return ("i", self.skip_tests) if field == "skip_tests" else None

    def skip(self, E, st):
        return self.skip_tests

    def fork(self, E, st, c, step, kind):
        failed, done, pos, seen = st.fsm
        out = []

        def res(good):
            x = c.fresh("ok" if good else "no")
            if kind == "io":
                return x
            adt = self.P.adts
            if kind == "step":
                t = next((a for a in adt if a.endswith("::BuildStepResult") and a.startswith("rez_next_build::systems")), None) or \
                    next(a for a in adt if a.endswith("::BuildStepResult"))
                fs = adt[t]["vars"][0]["f"]
                return ("A", t, tuple((f["n"], ("i", int(good)) if f["n"] == "success" else unk(".", x[1], f["n"])) for f in fs))
            t = next(a for a in adt if a.startswith("rez_next_context") and a.endswith("::CommandResult"))
            fs = adt[t]["vars"][0]["f"]
            return ("A", t, tuple((f["n"], ("i", 0 if good else 1) if f["n"] == "exit_code" else unk(".", x[1], f["n"])) for f in fs))
        asy = kind != "io" or c.name.startswith("tokio::")
        w = ready if asy else (lambda v: v)
        s = st.copy()
        if kind != "io":
            s.fsm = (failed, (done | {step}) if self.order else done, pos, seen)
        out.append((s, w(ok(res(True)))))
        if not failed:
            s = st.copy()
            s.fsm = (step, done, pos, seen)
            out.append((s, w(err(c.fresh("err")))))
            if kind != "io":
                s = st.copy()
                s.fsm = (step, done, pos, seen)
                out.append((s, w(ok(res(False)))))
        return out

    def on_write(self, E, st, fn, place, field, val, line):
        if field != "*" and field != "status":
            return None
        v = E.deref(st, val)
        if v[0] != "E" or v[1] != STATUS:
            return None
        vs = {x for x, _ in v[2]}
        self.check_write(E, st, fn, vs)
        return None

    def check_write(self, E, st, fn, vs):
        failed, done, pos, seen = st.fsm
        self.writes.add(tuple(sorted(vs)))
        if vs & {"Success", "Failed"} and seen == "Cancelled":
            E.violation("a cancelled build becomes %s" % "/".join(sorted(vs)), "%s overwrites the status Cancelled" % fn.path)
        if "Success" in vs:
            if failed:
                E.violation("Success after failed %s" % failed, "%s sets the status Success although %s failed" % (fn.path, failed))
            for b in ORDER if self.order else ():
                if b not in done and not failed and not (b == "test" and self.skip(E, st)):
                    E.violation("Success without %s" % b, "%s sets the status Success on a path on which %s has not succeeded" % (fn.path, b))

WAIT = "rez_next_build::builder::BuildManager::wait_for_build"
IT = "core::iter::traits::iterator::Iterator::"


class Waiters(p09.M):
    """fsm: ("ok",) or ("F", label[, "later"]).  The result of a failed build is followed through the collections it is put in: a list
    ("L", "w", witness) contains it, an iterator of that form has still to come to it."""
    shared = False
    lost = 0

    def event(self, n, k):
        return n == WAIT

    def inline(self, f):
        r = self.P.root(f)
        if r is self.root:
            return True
        if r.path == WAIT or r.id in self.fal:
            return False
        if any(a in f.locals[i][0] for i in range(0, f.argc + 1) for a in self.flags):
            return True if r.crate == self.root.crate else None
        return None

    def wel(self, E, st, x):
        x = E.deref(st, x)
        vs = E.variants_of(st, x)
        for g in ("Ok", "Some"):
            if x[0] == "E" and vs is not None and g in vs and vs <= {g, "Err"}:
                return self.wel(E, st, E.field(st, x, "0", g))
        return x[0] == "A" and x[1] in self.flags and E.truth(st, E.field(st, x, "success")) == 0 or x[0] == "E" and E.variants_of(st, x) == {"Err"}

    def on_call(self, E, st, c):
        n = c.name
        if n == WAIT:
            return self.fork(E, st, c, "wait_for_build", self.ty)
        if n == "std::process::exit":
            return p09.M.on_call(self, E, st, c)
        if n.endswith("Iterator::map") and len(c.args) == 2:
            f = E.deref(st, c.args[1])
            if f[0] == "A" and isinstance(f[1], tuple) and f[1][0] == "closure" and f[1][1] in E.relevant:
                # builds waited for inside the iteration: the failed one is the witness
                out = [(st.copy(), c.fresh())]
                for s, v in E.call_value(st.copy(), c.args[1], None, c, c.stack, 0):
                    out.append((s, ("L", "w", v) if s.fsm[0] == "F" and self.wel(E, s, v) else ("A", "miter", (("el", v),))))
                return out
        if st.fsm[0] != "F":
            return None
        if n == "alloc::vec::Vec::push":
            loc, v = loc_of(E, st, c.args[0])
            x = E.deref(st, c.args[1])
            if loc is not None and v[:2] == ("L", "w"):
                return [(st, UNIT)]
            if loc is not None and self.wel(E, st, x):
                E.write_loc(st, loc, ("L", "w", x))
                return [(st, UNIT)]
            return None
        a = E.deref(st, c.args[0]) if c.args else None
        m = re.search(r"Iterator>?::(\w+)$", n)
        op = m[1] if m else ""
        if a is not None and a[:2] == ("L", "x") and op == "next":
            st.fsm = ("F", st.fsm[1], "past")
            return None
        if a is None or a[:2] != ("L", "w"):
            return None
        if n in ("alloc::vec::Vec::is_empty", "[T]::is_empty"):
            return [(st, FALSE)]
        if INTO.search(n):
            if n.endswith("enumerate"):
                return None
            return [(st, ("L", "w", a[2]))]
        if NEXT.search(n):
            loc, _ = loc_of(E, st, c.args[0])
            if loc is None:
                return None
            other, s2 = st.copy(), st.copy()
            s2.fsm = ("F", st.fsm[1], "here")           # keeps the two apart
            E.write_loc(s2, loc, ("L", "x", None))
            return [(other, some(c.fresh("el"))), (s2, some(a[2]))]
        if op in ("filter", "any", "all", "find", "map", "filter_map", "position"):
            out = []
            for s, v in E.call_value(st.copy(), c.args[1], [a[2]], c, c.stack, 0):
                if op == "map":
                    out.append((s, ("L", "w", v)))
                    continue
                ts = [E.truth(s, v)] if E.truth(s, v) is not None else [0, 1]
                if op == "filter_map":
                    vs = E.variants_of(s, v) or {"Some", "None"}
                    out += [(s.copy(), ("L", "w", E.field(s, E.deref(s, v), "0", "Some")) if x == "Some" else ("L", "e", None)) for x in sorted(vs)]
                    continue
                for t in ts:
                    out.append((s.copy(), {"filter": ("L", "w", a[2]) if t else ("L", "e", None), "any": TRUE if t else FALSE, "all": TRUE if t else FALSE,
                                    "find": some(a[2]) if t else NONE, "position": some(c.fresh("i")) if t else NONE}[op]))
            return out
        if op == "collect":
            to = (c.k or {}).get("ga", [""])[-1]
            if to.startswith("alloc::vec::Vec<"):
                return [(st, a)]
            vs = E.variants_of(st, E.deref(st, a[2]))
            if to.startswith(RES) and vs is not None and vs <= {"Ok", "Err"}:
                return [(st.copy(), err(c.fresh("err")) if x == "Err" else ok(("L", "w", E.field(st, E.deref(st, a[2]), "0", "Ok")))) for x in sorted(vs)]
            return None
        if op in ("count", "len") or n in ("alloc::vec::Vec::len", "[T]::len"):
            return [(st, ("P",))]
        if op == "partition":
            out = []
            for s, v in E.call_value(st.copy(), c.args[1], [a[2]], c, c.stack, 0):
                t = E.truth(s, v)
                out += [(s.copy(), ("A", "tuple", (("0", a if x else c.fresh("p0")), ("1", c.fresh("p1") if x else a)))) for x in ([t] if t is not None else [0, 1])]
            return out
        if n in ("[T]::first", "[T]::last"):
            return [(st, some(c.fresh("el"))), (st.copy(), some(a[2]))]
        return None


def waiters(ctx):
    P, r = ctx.P, ctx.r
    flags = {"rez_next_build::builder::BuildResult"}
    w = P.one(WAIT)
    ty = p09.ret_of(P, w)
    calls = {f.id for f in P.fns.values() if any(P.cname(k) == WAIT for k in f.fn_refs())}
    roots = set()
    for i in P.reaching(lambda f: f.id in calls):
        f = P.fns[i]
        if f.kind in ("fn", "method") and not f.derived and f.pub and not f.name.startswith(("__pyfunction_", "__pymethod_")) and f.path != WAIT:
            roots.add(f)
    n = 0
    for f in sorted(roots, key=lambda f: f.path):
        if not p09.ret_of(P, f).startswith(RES):
            continue
        m = Waiters(P, {g.id for g in roots}, f, flags)
        m.ty = ty
        E = Engine(P, m, MODELS)
        E.root, E.bad = f, set()
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        if not m.sites:
            continue
        n += 1
        r.obligation("%s: every build it waited for" % f.path, len(outs))
        for st, v in outs:
            if st.fsm[0] == "F" and not p09.failure(E, st, v, flags):
                E.bad.add(S.show(E.deref(st, v))[:120])
        for b in sorted(E.bad, key=str):
            r.violation("%s passes over a failed build" % f.path, "%s (%s) can report %s although a build it waited for failed" % (f.path, f.file, b))
    r.floor("waiting_operations", n, 3)


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    variants = [v["n"] for v in P.adts[STATUS]["vars"]]
    f = P.one(BP + "::start")
    steps, writes = set(), set()
    for skip in (0, 1):
        label = "%s (skip_tests=%s)" % (f.path, bool(skip))
        m = M(P, variants, skip)
        E = Engine(P, m, MODELS)
        E.root, E.label = f, label
        try:
            E.run(f)
        except Incomplete:
            pass
        order = m.walked or not m.listed
        r.cov["step_order_decided"] = int(order)
        m = M(P, variants, skip)
        m.order = order                 # a list of steps that is walked in a way not understood: only stop-at-failure is decided
        run_root(ctx, f, m, label=label)
        for x in sorted(m.steps):
            r.obligation("%s: succeeds / fails / errs (skip_tests=%s)" % (x, bool(skip)), 3)
        for w in sorted(m.writes):
            r.obligation("status write %s (skip_tests=%s)" % ("/".join(w), bool(skip)), 1)
        steps |= m.steps
        writes |= m.writes
    r.floor("steps", len(steps), 6)
    r.floor("status_writes", len(writes), 2)
    k = 0
    for name in (BP + "::wait", "rez_next_build::builder::BuildManager::wait_for_build", BP + "::get_status",
                 "rez_next_build::builder::BuildManager::get_build_status"):
        f = P.one(name)
        if f is None:
            r.violation("%s is gone" % name, "public operation not found")
            continue
        m = M(P, variants)
        E, outs = run_root(ctx, f, m)
        for st, v in outs:
            v = E.deref(st, v)
            seen = st.fsm[3]
            vs = E.variants_of(st, v)
            if name.endswith("status"):
                if vs == {"Some"}:
                    v = E.deref(st, E.field(st, v, "0", "Some"))
                    vs = E.variants_of(st, v)
                if vs == {"None"}:
                    continue
                k += 1
                if seen in variants and vs != {seen} or seen == "?" and vs is not None and not vs <= {"Running", "Queued"}:
                    r.violation("%s misreports %s" % (name, seen), "reports %s" % (sorted(vs) if vs else S.show(v)))
                continue
            if vs != {"Ok"}:
                continue
            res = E.deref(st, E.field(st, v, "0", "Ok"))
            t = E.truth(st, E.field(st, res, "success"))
            k += 1
            if seen not in variants:
                r.violation("%s does not look at the status" % name, "status %r" % seen)
            elif t != int(seen == "Success"):
                r.violation("%s reports success=%s for %s" % (name, {0: "false", 1: "true", None: "unknown"}[t], seen), S.show(res)[:200])
        r.obligation("%s reports the status" % name, len(variants))
    r.floor("reports", k, 8)
    waiters(ctx)
