"""P08: a failed external command or download is never reported as success."""
import re
from ..absint import Engine, Incomplete, S, ok, err, unk, RES, OPT, TRUE, FALSE, some, E1, NONE
from ..models import MODELS, cmd_of, cstr
from .. import fx
from ..lib import base_ty
from . import p09
from .p09 import flag_structs, ret_of

RULE = ("Modular fault analysis. Every external command (run, status, wait) and every HTTP response is assumed to fail at each of its "
        "call sites in turn - it cannot be started, it exits with a non-zero code, the server answers with an error status - and so is "
        "every public workspace function that runs one and can report failure; on every path from the failure to the function's return "
        "the function must report failure (Err, None, false, success=false, a failure status) or hand the exit code on. Each callee's report "
        "is again a fault of its callers, so the argument composes up to the public operations. Obligation = (function, fallible call).")

WAIT = re.compile(r"process::Child::(wait|wait_with_output|try_wait)$")
RUN = re.compile(r"^(std|tokio)::process::Command::(output|status)$")
SPAWN = re.compile(r"^(std|tokio)::process::Command::spawn$")
HTTPGET = re.compile(r"^reqwest::.*(get|send|execute)$|^reqwest::get$")
HTTPBODY = re.compile(r"^reqwest::.*Response::(bytes|text|json|chunk)$")
HTTPSTAT = re.compile(r"^reqwest::.*Response::(error_for_status|error_for_status_ref)$")
OKSTAT = re.compile(r"StatusCode::is_success$")
BADSTAT = re.compile(r"StatusCode::is_(client_error|server_error)$")
CODE = 77
PROBE = {"--version", "-V", "-version", "--help", "-v", "version"}

# Operations whose answer does not promise that the command succeeded; keyed by public operation and callee, with the reason.
BEST_EFFORT = {
    "release::execute": (r"command git (tag -d|log|rev-parse)", "the clean-up deletion of a tag and the notice about unpushed commits; the gates are property P07"),
    "MercurialVCS as rez_next_build::vcs::ReleaseVCS>::get_current_revision": (r"command hg identify --(num|tags)|get_current_branch", "optional parts of the revision data"),
    "SvnVCS as rez_next_build::vcs::ReleaseVCS>::get_current_revision": (r"command svn info --show-item (last-changed-author|url)|get_current_branch", "optional parts of the revision data"),
    "MercurialVCS as rez_next_build::vcs::ReleaseVCS>::validate_repo_state": (r"command hg qseries", "the patch-queue extension need not be installed; the gates are property P07"),
    "commands::bind::execute": (r"command", "version probes: a tool whose version is unknown is bound with the version the user gives or a default"),
    "PackageBinder::bind": (r"command", "version probe"),
    "BuiltinBinder::bind": (r"bind", "tries the next executable; the last result is returned"),
    "detect::detect_tool_version": (r"command", "version probe; an empty string says unknown"),
    "bind_bindings::detect_version": (r"command", "version probe; an empty string says unknown"),
    "commands::context::execute": (r"command (dot|xdg-open)", "rendering falls back to the text form, which is printed"),
    "commands::gui::execute": (r"command xdg-open", "opening a viewer; the file is named in the output"),
    "commands::pip::execute": (r"command.* pip show", "falls back to scanning the installed files"),
    "ReleaseManager::release": (r"get_metadata|tag_exists", "optional metadata; an existing tag makes create_tag fail (property P07)"),
    "BuildProcess::start": (r"", "asynchronous; the outcome is the build's status (property P24)"),
    "CargoBuildSystem::package": (r"optional run_cmd", "the step is optional by design"),
    "NodeJsBuildSystem::compile": (r"optional run_cmd", "a package without a build script has nothing to compile"),
    "NodeJsBuildSystem::test": (r"optional run_cmd", "a package without a test script has nothing to test"),
    "PythonBuildSystem::test": (r"optional run_cmd", "falls back from pytest to unittest; no tests is no failure"),
    "PythonBuildSystem::configure": (r"execute", "version probe"),
    "CustomBuildSystem::compile": (r"command (-3 )?-c$|command -3", "search for a host Python; none found is an error"),
    "CustomBuildSystem::install": (r"command (-3 )?-c$|command -3", "search for a host Python; none found is an error"),
    "ShellExecutor::execute_batch": (r"execute", "each result, with its exit code, is in the returned list"),
    "ShellExecutor::get_shell_info": (r"execute", "version probe"),
}


def is_fault(n):
    return bool(RUN.search(n) or SPAWN.search(n) or WAIT.search(n) or HTTPGET.search(n))


class M(p09.M):
    track = True

    def event(self, n, k):
        return is_fault(n)

    def on_call(self, E, st, c):
        n = c.name
        F = st.fsm[0] == "F"
        if n == "std::process::exit":
            v = E.deref(st, c.args[0])
            if F and v == ("i", 0):
                E.bad.add((st.fsm[1], "exit(0)"))
            return []
        asy = n.startswith(("tokio::", "reqwest::")) and "blocking" not in n and not SPAWN.search(n)
        w = (lambda v: ("A", "ready", (("0", v),))) if asy else (lambda v: v)
        if (SPAWN.search(n) or RUN.search(n)) and self.probe(E, st, c):
            return [(st.copy(), w(ok(c.fresh("out")))), (st.copy(), w(err(c.fresh("e"))))]
        if SPAWN.search(n):
            return self.two(st, [(None, w(ok(c.fresh("child"))))], [("start", w(err(c.fresh("e"))))], c, self.cmdlabel(E, st, c))
        if RUN.search(n) or WAIT.search(n) or HTTPGET.search(n):
            sym = c.fresh("run")
            good = some(sym) if n.endswith("try_wait") else sym
            lab = "http" if n.startswith("reqwest") else self.cmdlabel(E, st, c) if RUN.search(n) else n.split("::")[-1]
            return self.two(st, [(None, w(ok(good)))], [(sym[1], w(ok(good))), ("start", w(err(c.fresh("e"))))], c, lab)
        if HTTPSTAT.search(n):
            if self.faulty(E, st, c.args[0]):
                return [(st.copy(), err(c.fresh("e")))]
            return [(st.copy(), ok(c.args[0]))]
        if re.search(r"process::ExitStatus::success$", n) or OKSTAT.search(n):
            return [(st.copy(), FALSE if self.faulty(E, st, c.args[0]) else TRUE)]
        if BADSTAT.search(n):
            if self.faulty(E, st, c.args[0]):
                return [(st.copy(), TRUE), (st.copy(), FALSE)]
            return [(st.copy(), FALSE)]
        if n.endswith("process::ExitStatus::code"):
            if self.faulty(E, st, c.args[0]):
                a, b = st.copy(), st.copy()
                a.fsm, b.fsm = st.fsm[:3] + ("code", st.fsm[4]), st.fsm[:3] + ("signal", st.fsm[4])
                return [(a, some(("i", CODE))), (b, NONE)]
            return [(st.copy(), some(("i", 0)))]
        if c.k is not None:
            ts = [f for f in self.P.targets(c.k) if f.id in self.fal]
            if ts and all(self.P.root(f) is not self.root for f in ts) or (ts and c.fn is not None and ts[0] is self.root):
                ty = ret_of(self.P, ts[0])
                if ts[0].name == "run_cmd" and len(c.args) > 3 and E.deref(st, c.args[3]) == TRUE and st.fsm == ("ok",):
                    # asked to ignore a failure: the step reports success all the same
                    self.sites.add("optional run_cmd")
                    b = base_ty(ty[len(RES) + 1:].split(",")[0])
                    s = st.copy()
                    s.fsm = ("F", "optional run_cmd", "", "", "")
                    return [(st.copy(), ("A", "ready", (("0", ok(self.flagged(c, b, 0))),))),
                            (s, ("A", "ready", (("0", ok(self.flagged(c, b, 0))),)))]
                r = self.fork(E, st, c, ts[0].name, ty)
                if r is not None:
                    return r
        return None

    def fork(self, E, st, c, label, ty):
        self.sites.add(label)
        asy = c.k is not None and self.is_async(c)
        w = (lambda v: ("A", "ready", (("0", v),))) if asy else (lambda v: v)
        base = ty.split("<")[0]
        if base == RES:
            ib = base_ty(ty[len(RES) + 1:].split(",")[0])
            flag = ib in self.flags
            goods = [ok(self.flagged(c, ib, 0)) if flag else ok(c.fresh("ok"))]
            bads = [("err", err(c.fresh("err")))]
            if flag:
                bads += [("code", ok(self.flagged(c, ib, CODE))), ("signal", ok(self.flagged(c, ib, -1)))]
        elif base in self.flags:
            goods = [self.flagged(c, base, 0)]
            bads = [("code", self.flagged(c, base, CODE)), ("signal", self.flagged(c, base, -1))]
        else:
            return None
        out = []
        for v in goods:
            s = st.copy()
            if s.fsm[0] == "F":
                s.fsm = s.fsm[:4] + ("later",)
            out.append((s, w(v)))
        if st.fsm == ("ok",):
            for mode, v in bads:
                s = st.copy()
                s.fsm = ("F", label, "", mode, "")
                out.append((s, w(v)))
        return out

    def probe(self, E, st, c):
        """a command that only asks whether a program is there"""
        prog, args, _ = cmd_of(E, st, c)
        consts = [cstr(a) for a in args]
        if prog is not None and cstr(prog) in ("which", "where", "where.exe", "uname", "ldd"):
            return True
        return bool(consts) and all(a in PROBE for a in consts)

    def cmdlabel(self, E, st, c):
        prog, args, _ = cmd_of(E, st, c)
        words = [cstr(prog) if prog is not None else None] + [cstr(a) for a in args]
        words = [w.strip() for w in words if isinstance(w, str) and w.strip() and len(w) < 20]
        return " ".join(["command"] + words[:4])

    def flagged(self, c, adt, code):
        """a result of the struct type: exit code as given, success flag accordingly"""
        out = []
        for f in self.P.adts[adt]["vars"][0]["f"]:
            n, ty = f["n"], f["ty"]
            if n == "success" and ty == "bool":
                x = FALSE if code else TRUE
            elif n == "exit_code" and ty == "i32":
                x = ("i", code)
            elif n == "exit_code" and ty.endswith("<i32>"):
                x = some(("i", code))
            else:
                x = unk(".", c.fresh("flag")[1], n)
            out.append((n, x))
        return ("A", adt, tuple(out))

    def two(self, st, goods, bads, c, label):
        self.sites.add(label)
        out = []
        for _, v in goods:
            s = st.copy()
            if s.fsm[0] == "F":
                s.fsm = s.fsm[:4] + ("later",)
            out.append((s, v))
        if st.fsm == ("ok",):
            for tag, v in bads:
                s = st.copy()
                s.fsm = ("F", label, tag, "", "")
                out.append((s, v))
        return out

    def faulty(self, E, st, v):
        if st.fsm[0] != "F" or len(st.fsm) < 3 or not hasattr(st.fsm[2], "i"):
            return False
        key = S.rev[st.fsm[2].i]
        return E.derived(st, v, lambda k: k == key)


def passes_on(E, st, v, depth=0):
    """does the returned value carry the exit code or the status itself?"""
    v = E.deref(st, v)
    if v == ("i", CODE) or (depth > 1 and v[0] == "i" and v[1] != 0 and st.fsm[3] == "signal"):
        return True
    if v[0] == "?" and S.rev[v[1].i][0] == "fmt" and depth <= 5:
        return any(passes_on(E, st, x, depth + 2) for x in S.rev[v[1].i][1] if isinstance(x, tuple))
    if v[0] == "?" and st.fsm[0] == "F" and len(st.fsm) > 2 and hasattr(st.fsm[2], "i"):
        k = S.rev[v[1].i]
        if v[1] is st.fsm[2] or (k[0] == "." and k[1] is st.fsm[2] and k[2] == "status"):
            return True
    if depth > 5:
        return False
    if v[0] == "A":
        return any(passes_on(E, st, x, depth + 1) for n, x in v[2] if isinstance(x, tuple) and n != "success")
    if v[0] == "E":
        return all(any(passes_on(E, st, x, depth + 1) for _, x in fs) or n in ("Err", "None") for n, fs in v[2])
    return False


def exempt(f, label):
    for k, (pat, _) in BEST_EFFORT.items():
        if f.path.endswith(k) and re.match(pat, label):
            return True
    return False


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    flags = flag_structs(P) | {a for a, d in P.adts.items() if not d["enum"] and any(
        f["n"] == "exit_code" and f["ty"].endswith(("i32", "<i32>")) for v in d["vars"] for f in v["f"])}
    runs = P.reaching(lambda f: any(is_fault(P.cname(k)) for k in f.fn_refs() if not k.get("agg")))
    fal = {}
    for i in runs:
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived:
            continue
        b = ret_of(P, f).split("<")[0]
        if (f.pub or f.trait) and (b == RES or b in flags):
            fal[i] = 1
    seen = 0
    direct = 0
    for i in sorted(runs, key=lambda i: P.fns[i].path):
        f = P.fns[i]
        if f.kind not in ("fn", "method") or f.derived or f.crate in ("rez", "rez_next") or not (f.pub or f.trait):
            continue
        if f.name.startswith(("__pyfunction_", "__pymethod_")) or f.file.startswith("/"):
            continue
        m = M(P, fal, f, flags, runs)
        E = Engine(P, m, MODELS)
        E.root = f
        E.bad = set()
        try:
            outs = E.run(f, argvals={"optional": FALSE} if f.name == "run_cmd" else None)
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        for st, v in outs:
            if st.fsm[0] == "F" and not p09.failure(E, st, v, flags) and not passes_on(E, st, v):
                E.bad.add((st.fsm[1], S.show(E.deref(st, v))[:160]))
        seen += len(m.sites)
        direct += len([s for s in m.sites if s.startswith(("command", "wait", "http"))])
        if m.sites:
            r.obligation("%s: %s" % (f.path, ", ".join(sorted(m.sites))), len(m.sites))
        for label, how in sorted(E.bad):
            if exempt(f, label):
                continue
            r.violation("%s takes a failed %s for success" % (f.path, label), "%s (%s) can report success (%s) after %s failed" % (f.path, f.file, how, label))
    r.floor("fallible_sites", seen, 40)
    r.floor("direct_command_sites", direct, 25)
