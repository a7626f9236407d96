"""P14: a started process sees the environment that was asked for."""
import re
from ..absint import Monitor, S, TRUE, FALSE, NONE, UNIT, some, ok, err, unk
from ..lib import run_root
from ..models import callf
from .. import fx

RULE = ("Typestate analysis of every process start of the executors, once with inherit_parent_env = false and once with true: the command's "
        "environment is cleared exactly when it is not to be inherited and before any variable is set; afterwards every variable of every "
        "configured source is set on it (a loop may not leave one out) to the value it has there, and nothing clears or removes variables later. The flag and the sources "
        "flow unchanged from the configuration into the executor; the parent's variables are read only under the flag. "
        "Obligation = (operation, inherit flag, process start), (constructor, field).")

CMD = r"^(std|tokio)::process::Command::"
NEW = re.compile(CMD + r"new$|^<(std|tokio)::process::Command as core::convert::From.*>::from$")
CLEAR = re.compile(CMD + r"env_clear$")
ENV = re.compile(CMD + r"env$")
ENVS = re.compile(CMD + r"envs$")
REMOVE = re.compile(CMD + r"env_remove$")
NEXT = re.compile(r"Iterator>?::next$")
FOREACH = re.compile(r"Iterator>?::for_each$")
VARS = re.compile(r"^std::env::vars(_os)?$")
SHELL = "rez_next_context::shell::ShellExecutor"
CTX = "rez_next_context::execution::ContextExecutor"
PARTIAL = re.compile(r"::(filter|filter_map|skip|skip_while|take|take_while|map_while|step_by|nth|retain|partition|find|drain|remove|remove_entry|clear)$")


ALTER = re.compile(r"(^|::)(trim\w*|replace\w*|to_(ascii_)?(lower|upper)case|strip_prefix|strip_suffix|split\w*|rsplit\w*|truncate|chars|lines|repeat"
                   r"|pop|insert_str|get_unchecked|char_indices)$")


def altered(E, st, v):
    """v is not the text it was taken from but something cut or rewritten"""
    def pred(k):
        if k[0] == "pure":
            return bool(ALTER.search(str(k[1])))
        return k[0] == "fmt" or k[0] == "r" and isinstance(k[3], str) and "::path::" not in k[3] and bool(ALTER.search(k[3]))
    return E.derived(st, v, pred)


class M(Monitor):
    track = True
    init = frozenset()
    exact = False

    only = None

    def __init__(self, inherit, sources, need=True):
        self.inherit = inherit
        self.sources = sources          # names of the fields the variables come from
        self.need = need
        self.starts = set()
        self.vars = set()

    def event(self, n, k):
        return bool(re.match(CMD, n)) or bool(NEXT.search(n)) or bool(FOREACH.search(n)) or bool(VARS.search(n))

    def src(self, E, st, v):
        out = set()

        def pred(k):
            if k[0] == "p" and "p:" + str(k[1]) in self.sources:
                out.add("p:" + k[1])
            if k[0] == "." and isinstance(k[2], str):
                for s in self.sources:
                    if k[2] == s or k[2].endswith("." + s):
                        out.add(s)
            return False
        E.derived(st, v, pred)
        return out

    def whole(self, E, st, v):
        return not E.derived(st, v, lambda k: k[0] == "r" and isinstance(k[3], str) and bool(PARTIAL.search(k[3])))

    def to(self, st, add=(), drop=lambda f: False):
        s = st.copy()
        s.fsm = frozenset(f for f in s.fsm if not drop(f)) | frozenset(add)
        return s

    def on_call(self, E, st, c):
        n = c.name
        if VARS.search(n):
            self.vars.add(c.site)
            if not self.inherit:
                E.violation("%s reads the parent's environment without being asked to inherit it" % E.label, "%s at %s" % (n, c.site))
            return None
        if NEW.search(n):
            return self.after(E, st, c, self.to(st, drop=lambda f: f[0] in ("cleared", "done", "pending", "skipped", "removed")))
        if CLEAR.search(n):
            return self.after(E, st, c, self.to(st, [("cleared",)], lambda f: f[0] in ("done", "pending")))
        if ENVS.search(n):
            ss = self.src(E, st, c.args[1])
            w = self.whole(E, st, c.args[1])
            if self.exact and ss and altered(E, st, c.args[1]):
                E.violation("%s sets a variable of %s to something else than its value" % (E.label, "/".join(sorted(ss))), "%s at %s" % (n, c.site))
            return self.after(E, st, c, self.to(st, [("done", s) for s in ss if w]))
        if ENV.search(n):
            a = self.src(E, st, c.args[1]) & self.src(E, st, c.args[2])
            if self.exact and a and any(altered(E, st, x) for x in c.args[1:3]):
                E.violation("%s sets a variable of %s to something else than its value" % (E.label, "/".join(sorted(a))), "%s at %s" % (n, c.site))
            return self.after(E, st, c, self.to(st, drop=lambda f: f[0] == "pending" and f[1] in a))
        if REMOVE.search(n):
            return self.after(E, st, c, self.to(st, [("removed", c.site)]))
        if NEXT.search(n) and c.args:
            ss = self.src(E, st, c.args[0])
            if not ss:
                return None
            late = [("skipped", f[1]) for f in st.fsm if f[0] == "pending" and f[1] in ss]
            w = self.whole(E, st, c.args[0]) and not re.search(r"Filter|Skip|Take|StepBy|MapWhile", c.argtys[0] or "")
            el = c.fresh("entry")
            return [(self.to(st, [("done", s) for s in ss if w] + late, lambda f: f[0] == "pending" and f[1] in ss), NONE),
                    (self.to(st, [("pending", s) for s in ss] + late), some(el))]
        if FOREACH.search(n) and len(c.args) > 1:
            ss = self.src(E, st, c.args[0])
            if not ss:
                return None
            w = self.whole(E, st, c.args[0]) and not re.search(r"Filter|Skip|Take|StepBy|MapWhile", c.argtys[0] or "")
            el = c.fresh("entry")
            E.derive(c, [(st, el)], E.origins(st, c.args[:1]))
            out = [(self.to(st, [("done", s) for s in ss if w]), UNIT)]
            for s2, v in callf(E, self.to(st, [("pending", s) for s in ss]), c, c.args[1], [el]):
                late = [("skipped", f[1]) for f in s2.fsm if f[0] == "pending" and f[1] in ss]
                out.append((self.to(s2, [("done", s) for s in ss if w] + late, lambda f: f[0] == "pending"), UNIT))
            return out
        if fx.is_run(n) and self.only and not n.startswith(self.only):
            return None
        if fx.is_run(n):
            self.starts.add(c.site)
            cl = ("cleared",) in st.fsm
            if not self.inherit and not cl:
                E.violation("%s starts a process that inherits the parent's environment although it must not" % E.label, "%s at %s" % (n, c.site))
            if self.inherit and cl:
                E.violation("%s starts a process without the parent's environment although it is to be inherited" % E.label, "%s at %s" % (n, c.site))
            for s in self.sources if self.need else ():
                if ("done", s) not in st.fsm:
                    E.violation("%s starts a process without setting every variable of %s" % (E.label, s), "%s at %s" % (n, c.site))
                if ("skipped", s) in st.fsm:
                    E.violation("%s leaves out a variable of %s" % (E.label, s), "%s at %s" % (n, c.site))
            for f in st.fsm:
                if f[0] == "removed":
                    E.violation("%s removes a variable from the process environment" % E.label, "%s at %s" % (n, f[1]))
            return None
        return None

    def after(self, E, st, c, s):
        """the library model still applies, in the new state"""
        st.fsm = s.fsm
        return None


def fact(path, v):
    """facts map for self.<path> = v"""
    s = S("p", "self")
    for p in path.split("."):
        s = S(".", s, p)
    return {s: v}


def fields(P, adt):
    d = P.adts.get(adt)
    return {f["n"]: f["ty"] for v in d["vars"] for f in v["f"]} if d else {}


def derives(E, st, v, name):
    return E.derived(st, v, lambda k: k[0] == "." and isinstance(k[2], str) and (k[2] == name or k[2].endswith("." + name)))


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    starts = P.reaching(lambda f: any(fx.is_run(P.cname(k)) for k in f.fn_refs() if not k.get("agg")))
    n = 0
    # -- process starts of the executors
    for adt, flag, sources in ((SHELL, "inherit_parent_env", ["environment"]),
                               (CTX, "config.inherit_parent_env", ["environment_vars", "additional_env_vars"])):
        for f in sorted(P.fns.values(), key=lambda f: f.path):
            if not f.path.startswith(adt + "::") or f.kind != "method" or f.derived or not f.pub or f.id not in starts:
                continue
            if f.argc < 1 or "Executor" not in f.locals[1][0]:
                continue
            for inh in (0, 1):
                src = sources
                m = M(inh, src)
                m.exact = True
                if adt == CTX:
                    # what it delegates to its ShellExecutor is decided there; the executor's own fields are decided at the constructors
                    m.inline = lambda g: False if g.path.startswith(SHELL + "::") else None
                E, outs = run_root(ctx, f, m, facts=fact(flag, ("i", inh)), label="%s (inherit=%s)" % (f.path, bool(inh)))
                for s in sorted(m.starts):
                    n += 1
                    r.obligation("%s with %s=%s: process start at %s" % (f.path, flag, bool(inh), s), 1)
    # -- build scripts and installers run in exactly the build environment
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if not re.match(r"rez_next_build::systems::(custom|pypi)::\w+::(configure|compile|test|package|install)$", f.path) or f.id not in starts:
            continue
        m = M(0, ["p:environment"])
        m.only = "tokio::"
        # commands that go through the ShellExecutor are decided there
        m.inline = lambda g: False if g.path.startswith(SHELL + "::") else None
        run_root(ctx, f, m, label=f.path)
        for s in sorted(m.starts):
            n += 1
            r.obligation("%s: process start at %s" % (f.path, s), 1)
    r.floor("process_starts", n, 12)
    # -- the configuration reaches the executor
    k = 0
    for name, field in (("with_inherit_parent_env", "inherit_parent_env"), ("with_environment", "environment")):
        f = P.one(SHELL + "::" + name)
        if f is None:
            r.violation("%s::%s is gone" % (SHELL, name), "public builder not found")
            continue
        arg = f.local_name(2) or "arg2"
        for inh in ((0, 1) if field == "inherit_parent_env" else (0,)):
            av = {arg: ("i", inh)} if field == "inherit_parent_env" else None
            E, outs = run_root(ctx, f, M(1, []), argvals=av)
            for st, v in outs:
                k += 1
                x = E.deref(st, E.field(st, E.deref(st, v), field))
                want = ("i", inh) if av else E.deref(st, unk("p", arg))
                if x != want and not (not av and derives_p(E, st, x, arg)):
                    r.violation("%s does not store its argument" % f.path, "%s becomes %s" % (field, S.show(x)))
            r.obligation("%s stores its argument" % f.path, 1)
    f = P.one(SHELL + "::with_shell")
    if f is not None:
        E, outs = run_root(ctx, f, M(1, []))
        for st, v in outs:
            k += 1
            x = E.deref(st, E.field(st, E.deref(st, v), "inherit_parent_env"))
            if x != FALSE:
                r.violation("%s inherits by default" % f.path, "inherit_parent_env = %s" % S.show(x))
        r.obligation("%s does not inherit by default" % f.path, 1)
    for name in ("with_config", "set_config"):
        f = P.one(CTX + "::" + name)
        if f is None:
            r.violation("%s::%s is gone" % (CTX, name), "public constructor not found")
            continue
        for inh in (0, 1):
            m = M(1, [])
            E, outs = run_root(ctx, f, m, facts={S(".", S("p", "config"), "inherit_parent_env"): ("i", inh)})
            for st, v in outs:
                me = E.deref(st, v) if name == "with_config" else unk("p", "self")
                sh = E.deref(st, E.field(st, me, "shell_executor"))
                x = E.deref(st, E.field(st, sh, "inherit_parent_env"))
                k += 1
                if x != ("i", inh):
                    r.violation("%s loses the inherit flag" % f.path, "config.inherit_parent_env = %s gives %s" % (bool(inh), S.show(x)))
                env = E.field(st, sh, "environment")
                for s in ("environment_vars", "additional_env_vars"):
                    k += 1
                    if not derives(E, st, env, s):
                        r.violation("%s drops %s" % (f.path, s), "the executor's environment is not built from it")
                if not m.whole(E, st, env):
                    r.violation("%s leaves out variables of the configured environment" % f.path, "the executor's environment is built from a selection of them")
                if altered(E, st, env):
                    r.violation("%s alters variables of the configured environment" % f.path, "the executor's environment is not built from the values as they are")
        r.obligation("%s hands flag and variables to the shell executor" % f.path, 3)
    # -- the generated environment
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if not f.path.startswith("rez_next_context::environment::EnvironmentManager::") or f.kind != "method" or not f.pub or f.derived:
            continue
        if f.name == "new":
            for inh in (0, 1):
                m = M(inh, [], need=False)
                E, outs = run_root(ctx, f, m, facts={S(".", S("p", "config"), "inherit_parent_env"): ("i", inh)},
                                   label="%s (inherit=%s)" % (f.path, bool(inh)))
                k += 1
                r.obligation("%s (inherit=%s)" % (f.path, bool(inh)), 1)
                if inh and not m.vars:
                    r.violation("%s ignores the request to inherit" % f.path, "the parent's environment is never read")
                for st, v in outs:
                    b = E.field(st, E.deref(st, v), "base_env")
                    if inh and not E.derived(st, b, lambda x: x[0] == "r" and isinstance(x[3], str) and bool(VARS.search(x[3]))):
                        r.violation("%s does not keep the inherited variables" % f.path, "base_env = %s" % S.show(b)[:120])
        else:
            m = M(0, [], need=False)
            run_root(ctx, f, m)
            k += 1
            r.obligation("%s reads no variable of the parent" % f.path, 1)
    r.floor("configuration_flows", k, 10)


def derives_p(E, st, v, arg):
    key = ("p", arg)
    return E.derived(st, v, lambda k: k == key)
