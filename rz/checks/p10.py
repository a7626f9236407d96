"""P10: each command line runs the command it names, and the exit status tells whether it succeeded."""
import re
from ..absint import Engine, Monitor, Incomplete, S, RES, ok, err, unk, TRUE, FALSE, UNIT
from ..models import MODELS
from . import p09
from .p09 import ret_of

RULE = ("Typestate analysis of the programs' entry points and of the dispatch. main (of every binary that offers the command line) is analysed with parsing, "
        "the run of the command and the grouped form each succeeding or failing: after a failure every way out is an exit with a non-zero constant, after a success none is, and a command "
        "runs exactly once. Text that clap was asked to display (help, version) is no failure. The dispatch is analysed once per subcommand: exactly its "
        "own handler is called, with the arguments of that subcommand, and the outcome of the dispatch is the handler's. Modular fault analysis of the handlers: every operation of the libraries that a handler calls and that "
        "can report failure (Result) is assumed to fail at each call site in turn, and the handler must then report failure. "
        "Obligation = (entry point or subcommand, outcome), (handler, fallible operation).")

CLI = "rez_core::cli::RezCli"
COMMAND = "rez_core::cli::RezCommand"
# subcommands without arguments of their own type
OWN = {"ParseVersion": "parse_version_command", "SelfTest": "run_tests", "Gui": "gui"}


class Main(Monitor):
    """fsm: (commands run, failed?, displayed?)"""
    init = (0, False, False)
    track = True

    def __init__(self, P, root):
        self.P, self.root = P, root
        self.bad = set()
        self.exits = 0

    def runs(self, n):
        return n == CLI + "::run" or bool(re.match(r"rez_core::cli::commands::\w+(::\w+)*::execute\w*$", n))

    def event(self, n, k):
        return self.runs(n) or n.endswith("::try_parse_from") or n.endswith("::use_stderr") or n == "std::process::exit"

    def inline(self, f):
        return True if self.P.root(f).crate == self.root.crate else None

    def on_call(self, E, st, c):
        n = c.name
        ran, failed, shown = st.fsm
        if self.runs(n):
            good, bad = st.copy(), st.copy()
            good.fsm, bad.fsm = (min(ran + 1, 2), failed, shown), (min(ran + 1, 2), True, shown)
            if ran:
                self.bad.add("runs a second command (%s)" % n)
            return [(good, ok(c.fresh("ok"))), (bad, err(c.fresh("err")))]
        if n.endswith("::try_parse_from") or n.endswith("::try_parse"):
            good, bad = st.copy(), st.copy()
            bad.fsm = (ran, True, shown)
            return [(good, ok(unk("cli"))), (bad, err(unk("clap")))]
        if n.endswith("::use_stderr"):
            # false: clap displays what it was asked for
            good, bad = st.copy(), st.copy()
            good.fsm = (ran, False, True)
            return [(good, FALSE), (bad, TRUE)]
        if n.endswith("clap_builder::error::Error::exit") or n.endswith("clap::error::Error::exit"):
            return []
        if n.endswith("ExitCode as core::convert::From>::from"):
            return [(st, E.deref(st, c.args[0]))]
        if n == "std::process::exit":
            self.exits += 1
            v = E.deref(st, c.args[0])
            self.leave(E, st, v[1] if v[0] == "i" else None)
            return []
        return None

    def leave(self, E, st, code):
        ran, failed, shown = st.fsm
        if failed and code == 0:
            self.bad.add("exits with 0 after a failure")
        elif failed and code is None:
            self.bad.add("exits with an unknown status after a failure")
        elif not failed and code != 0:
            self.bad.add("exits with a failure status after a success")
        if not failed and not shown and not ran:
            self.bad.add("ends without running a command")


class Dispatch(Monitor):
    """fsm: the handlers called so far"""
    init = ()
    track = True

    def __init__(self, P):
        self.P = P

    def handler(self, n):
        m = re.match(r"rez_core::cli::commands::(\w+)(?:::\w+)*::(execute\w*)$", n)
        if m:
            return m[1]
        m = re.match(re.escape(CLI) + r"::(\w+)$", n)
        return m[1] if m and m[1] in OWN.values() else None

    def event(self, n, k):
        return self.handler(n) is not None

    def inline(self, f):
        return None if f.path.startswith(CLI) else False

    def on_call(self, E, st, c):
        if c.name.endswith("Runtime::block_on") and st.fsm and st.fsm[-1][1] == "pending":
            good, bad = st.copy(), st.copy()
            good.fsm, bad.fsm = st.fsm[:-1] + ((st.fsm[-1][0], "ok", st.fsm[-1][2]),), st.fsm[:-1] + ((st.fsm[-1][0], "err", st.fsm[-1][2]),)
            return [(good, ok(c.fresh("ok"))), (bad, err(c.fresh("err")))]
        h = self.handler(c.name)
        if h is None:
            return None
        cmd = unk("p", self.param)[1]
        mine = any(E.derived(st, E.deref(st, a), lambda k: k == S.rev[cmd.i]) for a in c.args)
        f = next(iter(self.P.targets(c.k)), None) if c.k else None
        if f is not None and f.ret_ty().startswith("{async"):
            st.fsm = st.fsm + ((h, "pending", mine),)
            return [(st, c.fresh("future"))]
        good, bad = st.copy(), st.copy()
        good.fsm, bad.fsm = st.fsm + ((h, "ok", mine),), st.fsm + ((h, "err", mine),)
        return [(good, ok(c.fresh("ok"))), (bad, err(c.fresh("err")))]


class Run(Monitor):
    """fsm: outcome of the dispatch"""
    init = "none"

    def __init__(self, name):
        self.name = name

    def event(self, n, k):
        return n.endswith("RezCli::execute_command")

    def on_call(self, E, st, c):
        if c.name == self.name:
            good, bad = st.copy(), st.copy()
            good.fsm, bad.fsm = ("ok", "err") if st.fsm == "none" else ("twice", "twice")
            return [(good, ok(c.fresh("ok"))), (bad, err(c.fresh("err")))]
        if c.name == "std::process::exit":
            return []


# What a command does not promise to report, with the reason.
EXEMPT = {
    "RezCli::run": ({"parse", "validate"}, "the self test counts the failures it finds and reports the count"),
    "bundle::execute": ({"resolve"}, "documented: without a resolve only the requested packages are bundled"),
    "pkg_cache::ops::run_daemon": ({"put"}, "the in-memory index is rebuilt from the directory"),
    "suites::execute": ({"load"}, "a listing passes over entries it cannot read"),
    "PackageTestRunner::new": ({"resolve"}, "tries the paths it knows in turn"),
}


class Handler(p09.M):
    shared = True

    def event(self, n, k):
        return any(f.id in self.fal for f in self.P.targets(k)) if k and k.get("id") else False

    def inline(self, f):
        r = self.P.root(f)
        if r is self.root:
            return True
        if r.id in self.fal:
            return False
        return None if r.crate == "rez_core" else False

    def on_call(self, E, st, c):
        if p09.is_fault(c.name):
            return None
        return p09.M.on_call(self, E, st, c)


def handlers(ctx):
    """a failure that an operation of the libraries reports to a command is the command's failure"""
    P, r = ctx.P, ctx.r
    fal = {}
    for f in P.fns.values():
        if f.kind in ("fn", "method") and not f.derived and f.pub and f.crate not in ("rez", "rez_next") and not f.file.startswith("/"):
            ty = ret_of(P, f)
            if ty.split("<")[0] == RES:
                fal[f.id] = ty
    n = sites = 0
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if f.crate != "rez_core" or f.id not in fal or "::cli::" not in f.path:
            continue
        m = Handler(P, fal, f, ())
        E = Engine(P, m, MODELS)
        E.root, E.bad = f, set()
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            if st.fsm[0] == "F" and not p09.failure(E, st, v, ()):
                E.bad.add((st.fsm[1], S.show(E.deref(st, v))[:120]))
        if m.sites:
            n += 1
            sites += len(m.sites)
            r.obligation("%s: %s" % (f.path, ", ".join(sorted(m.sites))), len(m.sites))
        for label, how in sorted(E.bad):
            if any(f.path.endswith(k) and label in ls for k, (ls, _) in EXEMPT.items()):
                continue
            r.violation("%s swallows failure of %s" % (f.path, label), "%s (%s) can report success (%s) after %s failed" % (f.path, f.file, how, label))
    r.floor("handlers", n, 20)
    r.floor("library_calls", sites, 50)


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    handlers(ctx)
    mains = [f for f in P.fns.values() if f.name == "main" and f.kind == "fn" and any(g.crate == f.crate and any(P.cname(k) == CLI + "::run" for k in g.fn_refs())
                                                                                     for g in P.fns.values() if g.crate == f.crate)]
    r.floor("entry_points", len(mains), 2)
    for f in sorted(mains, key=lambda f: f.path):
        m = Main(P, f)
        E = Engine(P, m, MODELS)
        try:
            outs = E.run(f)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            w = E.deref(st, v)
            bad = w[0] == "E" and E.variants_of(st, w) == {"Err"}
            if "ExitCode" in f.ret_ty():
                if w[0] != "i":
                    continue            # an opaque status: not decided
                m.leave(E, st, w[1])
            else:
                m.leave(E, st, 1 if bad else 0)
        r.obligation("%s: %d exits, %d ends" % (f.path, m.exits, len(outs)), m.exits + len(outs))
        r.floor("exits:" + f.path, m.exits + len(outs), 3)
        for b in sorted(m.bad):
            r.violation("%s %s" % (f.path, b), "%s (%s) %s" % (f.path, f.file, b))
    runs = [f for f in P.fns.values() if f.path == CLI + "::run"]
    disp = [f for f in P.fns.values() if f.path.startswith(CLI + "::") and f.kind == "method" and any(f.locals[i][0].endswith(COMMAND) for i in range(1, f.argc + 1))]
    if not disp:
        disp = runs
    r.floor("dispatch", len(disp) * len(runs), 1)
    for f in runs:
        if f in disp:
            continue
        m = Run(disp[0].path)
        E = Engine(P, m, MODELS)
        nm = f.local_name(1) or "arg1"
        some = {unk(".", unk("p", nm)[1], "command")[1]: ("v", frozenset(["Some"])), unk(".", unk("p", nm)[1], "info")[1]: ("i", 0)}
        for st, v in E.run(f, facts=some):
            vs = E.variants_of(st, E.deref(st, v))
            if st.fsm == "err" and vs != {"Err"}:
                r.violation("%s loses the failure of a command" % f.path, "%s (%s) returns %s" % (f.path, f.file, S.show(E.deref(st, v))[:80]))
            if st.fsm == "ok" and vs != {"Ok"}:
                r.violation("%s turns success into failure" % f.path, "%s (%s)" % (f.path, f.file))
            if st.fsm in ("none", "twice"):
                r.violation("%s runs the command %s" % (f.path, "never" if st.fsm == "none" else "twice"), "%s (%s)" % (f.path, f.file))
        r.fns |= set(E.analysed)
        r.obligation("%s: the outcome is the command's" % f.path)
    variants = P.adts[COMMAND]["vars"] if COMMAND in P.adts else []
    r.floor("subcommands", len(variants), 25)
    for f in disp:
        for var in variants:
            m = Dispatch(P)
            idx = next((i for i in range(1, f.argc + 1) if f.locals[i][0].endswith(COMMAND)), None)
            if idx is None:
                continue
            m.param = f.local_name(idx) or "arg%d" % idx
            want = OWN.get(var["n"])
            if want is None and len(var["f"]) == 1:
                t = re.match(r"rez_core::cli::commands::(\w+)(?:::\w+)+$", var["f"][0]["ty"])
                want = t[1] if t else None
            if want is None:
                r.violation("subcommand %s has no known handler" % var["n"], "%s (%s)" % (f.path, f.file))
                continue
            E = Engine(P, m, MODELS)
            ends = E.run(f, facts={unk("p", m.param)[1]: ("v", frozenset([var["n"]]))})
            r.fns |= set(E.analysed)
            r.obligation("subcommand %s: handler %s" % (var["n"], want), 2)
            good = set()
            for st, v in ends:
                vs = E.variants_of(st, E.deref(st, v))
                if not st.fsm and vs == {"Err"}:
                    continue                # the runtime could not be started
                if len(st.fsm) != 1 or st.fsm[0][0] != want:
                    r.violation("subcommand %s does not run its handler" % var["n"], "%s (%s): runs %s instead of %s" % (f.path, f.file, [h for h, _, _ in st.fsm], want))
                    continue
                h, how, mine = st.fsm[0]
                good.add(how)
                if var["f"] and not mine:
                    r.violation("subcommand %s runs with other arguments" % var["n"], "%s (%s)" % (f.path, f.file))
                if how == "err" and vs != {"Err"}:
                    r.violation("subcommand %s: failure is lost" % var["n"], "%s (%s) returns %s" % (f.path, f.file, S.show(E.deref(st, v))[:80]))
                if how == "ok" and vs != {"Ok"}:
                    r.violation("subcommand %s: success is reported as failure" % var["n"], "%s (%s)" % (f.path, f.file))
                if how == "pending":
                    r.violation("subcommand %s is not run" % var["n"], "%s (%s): the handler's future is dropped" % (f.path, f.file))
            if good != {"ok", "err"}:
                r.violation("subcommand %s never ends with %s" % (var["n"], sorted({"ok", "err"} - good)), "%s (%s)" % (f.path, f.file))
