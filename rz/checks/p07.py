"""P07: a release is published only after every gate passed."""
import re
from ..absint import Monitor, S, TRUE, FALSE, NONE, some, ok, err, unk, E1, UNIT, RES
from ..lib import run_root
from ..models import cstr
from ..cmdmon import CmdMonitor
from .. import fx

RULE = ("Typestate analysis of the release workflows. Command line: with the skip switches off, the build (which installs into the release "
        "repository) is reachable only after the working-tree status query exited with 0 and its whole output was found empty and the "
        "tag listing for exactly the tag to be created exited with 0 and was found empty; the tag is created only when no build has failed "
        "or is unfinished; success is returned only after the tag was created and pushed, and a tag that could not be pushed is deleted. "
        "Release manager: after a failed load, validation, build step or test no tag is created and success is not set; tests and build "
        "come before the tag; a failed tag creation is not success. VCS back ends: a working copy counts as clean only on paths where the "
        "status query succeeded and its whole output was found empty. Obligation = (workflow, gate or publication site).")

STATUS_ARGS = {"status", "--porcelain", "--short", "-s", "--porcelain=v1", "--porcelain=v2", "-z", "-b", "--branch", "-uall",
               "--untracked-files=all", "--untracked-files=normal", "--untracked-files"}


class Cli(CmdMonitor):
    extra = re.compile(r"BuildManager::(start_build|wait_for_build)$")

    def __init__(self, fields, P):
        self.fields = fields
        self.P = P
        self.sites = set()

    def on_field(self, E, st, sym, f):
        if f in self.fields:
            return ("i", self.fields[f])

    def label(self, E, st, c, prog, args, consts):
        if prog != "git":
            return None
        i = 0
        while i < len(consts) and consts[i] in ("-C", "-c", "--no-pager"):
            i += 2 if consts[i] != "--no-pager" else 1
        sub = consts[i] if i < len(consts) else None
        rest = consts[i:]
        if sub == "status":
            return "status" if all(x in STATUS_ARGS for x in rest) else None
        if sub == "tag":
            if any(x in ("-l", "--list") for x in rest):
                return "taglist"
            if any(x in ("-d", "--delete") for x in rest):
                return "tagdel"
            return "tag"
        if sub == "push":
            return "push"
        return None

    def tagarg(self, args):
        return [a for a in args if a[0] != "s"]

    def started(self, E, st, c, lab, args):
        self.sites.add((lab, c.site))
        if lab == "taglist":
            return self.add(st, ("listed", tuple(self.tagarg(args))), drop=[x for x in st.fsm if x[0] == "listed"])
        if lab == "tagdel":
            return self.add(st, ("del",))
        if lab == "tag":
            for x in ("building", "buildfail"):
                if (x,) in st.fsm:
                    E.violation("release: the tag is created although a build %s" % ("failed" if x == "buildfail" else "has not finished"),
                                "%s at %s" % (c.name, c.site))
            if not any(x in ("-f", "--force") for x in [cstr(a) for a in args]):
                listed = [x[1] for x in st.fsm if x[0] == "listed"]
                if self.fields["ignore_existing_tag"] == 0 and not any(t in self.tagarg(args) for l in listed for t in l):
                    E.violation("release: the tag that is created is not the one that was looked up", "%s at %s" % (c.name, c.site))
            else:
                E.violation("release: an existing tag is overwritten", "%s at %s" % (c.name, c.site))
        return st

    def on_call(self, E, st, c):
        n = c.name
        r = self.cmd_call(E, st, c)
        if r is not None:
            return r
        m = re.search(r"BuildManager::(start_build|wait_for_build)$", n)
        if m:
            self.sites.add((m.group(1), c.site))
            w = lambda v: ("A", "ready", (("0", v),))
            if m.group(1) == "start_build":
                self.gates(E, st, c, "a build into the release repository starts")
                return [(self.add(st, ("building",)), w(ok(c.fresh("ids")))), (self.add(st, ("buildfail",)), w(err(c.fresh("e"))))]
            adt = next((a for a, d in self.P.adts.items() if a.startswith("rez_next_build") and a.endswith("::BuildResult")), "BuildResult")
            mk = lambda v, t: ("A", adt, tuple((f["n"], ("i", v) if f["n"] == "success" else unk(".", c.fresh(t)[1], f["n"]))
                                               for f in self.P.adts[adt]["vars"][0]["f"])) if adt in self.P.adts else c.fresh(t)
            return [(self.add(st, drop=[("building",)]), w(ok(mk(1, "good")))),
                    (self.add(st, ("buildfail",), drop=[("building",)]), w(ok(mk(0, "bad")))),
                    (self.add(st, ("buildfail",), drop=[("building",)]), w(err(c.fresh("e"))))]
        if n == "std::process::exit":
            return []
        return None

    def gates(self, E, st, c, what):
        need = []
        if self.fields["skip_repo_errors"] == 0:
            need.append("status")
        if self.fields["ignore_existing_tag"] == 0:
            need.append("taglist")
        for l in need:
            for k in ("ok", "empty"):
                if (k, l) not in st.fsm:
                    E.violation("release: %s although the %s query was not found %s" % (what, l, "successful" if k == "ok" else "empty"),
                                "%s at %s" % (c.name, c.site))


def cli(ctx):
    P, r = ctx.P, ctx.r
    f = P.one("rez_core::cli::commands::release::execute")
    if f is None:
        r.violation("anchor:release::execute", "not found")
        return
    for skip, ign in ((0, 0), (1, 0), (0, 1)):
        m = Cli({"dry_run": 0, "skip_repo_errors": skip, "ignore_existing_tag": ign}, P)
        lab = "release::execute[skip_repo_errors=%d, ignore_existing_tag=%d]" % (skip, ign)
        E, outs = run_root(ctx, f, m, label=lab)
        for st, v in outs:
            vs = E.variants_of(st, E.deref(st, v))
            if vs is None or "Ok" in vs:
                for what in ("tag", "push"):
                    if ("ok", what) not in st.fsm:
                        E.violation("release: success is reported although the tag was not %s" % ("created" if what == "tag" else "pushed"), lab)
                if any((x,) in st.fsm for x in ("building", "buildfail")):
                    E.violation("release: success is reported although a build failed", lab)
            if vs is not None and "Err" in vs and len(vs) == 1:
                if ("ok", "tag") in st.fsm and ("ok", "push") not in st.fsm and ("del",) not in st.fsm:
                    E.violation("release: a tag that could not be pushed is left behind", lab)
        r.obligation("%s: %d gates and publication sites" % (lab, len(m.sites)), len(m.sites))
        if (skip, ign) == (0, 0):
            labs = [x for x, _ in m.sites]
            for x, k in (("status", 1), ("taglist", 1), ("start_build", 1), ("wait_for_build", 1), ("tag", 1), ("push", 1), ("tagdel", 1)):
                r.floor("cli_" + x, labs.count(x), k)


class Mgr(CmdMonitor):
    """release manager; facts: ("fail", what) a gate failed, ("tagged",)"""
    extra = re.compile(r"ReleaseVCS>?::(validate_repo_state|create_tag|tag_exists|get_metadata|get_changelog)$|PackageSerializer::load_from_file$"
                       r"|vcs::detect_vcs$")

    def __init__(self, P, mode, noname=False, noversion=False):
        self.mode = mode
        self.P = P
        self.noname = noname
        self.noversion = noversion
        self.sites = set()

    def event(self, n, k):
        return fx.is_mut(n) or super().event(n, k)

    def on_field(self, E, st, sym, f):
        if f == "mode":
            return E1(self.mode, "Release")
        if f in ("skip_build", "skip_tests", "skip_vcs_validation"):
            return FALSE
        if f == "version" and S.rev[sym.i][1] is S("p", "pkg"):
            return NONE if self.noversion else some(("?", S(".", sym, "Some.0")))

    def label(self, E, st, c, prog, args, consts):
        if prog in ("sh", "bash", "cmd", "cmd.exe"):
            return "test"
        return None

    def started(self, E, st, c, lab, args):
        self.sites.add(("test", c.site))
        if ("tagged",) in st.fsm:
            E.violation("ReleaseManager::release: the tag is created before the tests ran", "%s at %s" % (c.name, c.site))
        return st

    def finished(self, E, st, c, lab, good):
        return st if good else self.add(st, ("fail", "test"))

    def on_call(self, E, st, c):
        n = c.name
        r = self.cmd_call(E, st, c)
        if r is not None:
            return r
        fn = c.k["fn"] if c.k is not None else n
        m = re.search(r"::(validate_repo_state|create_tag|tag_exists|get_metadata|get_changelog)$", fn)
        if m and "ReleaseVCS" in fn:
            k = m.group(1)
            self.sites.add((k, c.site))
            if k == "tag_exists":
                return [(st.copy(), ok(FALSE)), (st.copy(), err(c.fresh("e")))]
            if k == "validate_repo_state":
                return [(self.add(st, ("validated",)), ok()), (self.add(st, ("fail", "the repository validation")), err(c.fresh("e")))]
            if k == "create_tag":
                for x in st.fsm:
                    if x[0] == "fail":
                        E.violation("ReleaseManager::release: the tag is created although %s failed" % x[1], "%s at %s" % (n, c.site))
                if ("validated",) not in st.fsm:
                    E.violation("ReleaseManager::release: the tag is created without validating the repository", "%s at %s" % (n, c.site))
                return [(self.add(st, ("tagged",)), ok()), (self.add(st, ("fail", "the tag creation")), err(c.fresh("e")))]
            return [(st.copy(), ok(c.fresh("v"))), (st.copy(), err(c.fresh("e")))]
        if n.endswith("PackageSerializer::load_from_file"):
            self.sites.add(("load", c.site))
            bad = self.noname or self.noversion
            s = self.add(st, ("fail", "the package validation")) if bad else st.copy()
            return [(s, ok(("?", S("p", "pkg")))), (self.add(st, ("fail", "loading the package")), err(c.fresh("e")))]
        if n.endswith("vcs::detect_vcs"):
            return [(st.copy(), some(("?", S("p", "vcs"))))]
        if re.search(r"(str|String)::is_empty$", n) and E.derived(st, c.args[0], lambda k: k[0] == "." and k[2] == "name" and k[1] is S("p", "pkg")):
            return [(st.copy(), TRUE if self.noname else FALSE)]
        if fx.is_mut(n):
            if not any(x[0] == "fail" for x in st.fsm) and ("validated",) not in st.fsm:
                E.violation("ReleaseManager::release: files are installed before the repository was validated", "%s at %s" % (n, c.site))
            if any(x[0] == "fail" and x[1] in ("the repository validation", "loading the package", "the package validation") for x in st.fsm):
                E.violation("ReleaseManager::release: files are installed although a validation failed", "%s at %s" % (n, c.site))
            self.sites.add(("install", c.site))
            s2 = self.add(st, ("fail", "an install step"))
            return [(st.copy(), ok(c.fresh("ok"))), (s2, err(c.fresh("e")))]
        return None


def manager(ctx):
    P, r = ctx.P, ctx.r
    path = "rez_next_build::release::ReleaseManager::release"
    f = P.one(path)
    if f is None:
        r.violation("anchor:" + path, "not found")
        return
    for kw in ({}, {"noname": True}, {"noversion": True}):
        m = Mgr(P, "rez_next_build::release::ReleaseMode", **kw)
        lab = path + (str(sorted(kw)) if kw else "")
        E, outs = run_root(ctx, f, m, label=lab)
        for st, v in outs:
            v = E.deref(st, v)
            vs = E.variants_of(st, v)
            if vs is not None and vs == {"Err"}:
                continue
            t = E.truth(st, E.field(st, E.field(st, v, "0", "Ok"), "success"))
            fails = [x[1] for x in st.fsm if x[0] == "fail"]
            if t != 0 and fails:
                E.violation("%s: success is reported although %s failed" % (path, fails[0]), lab)
            if t != 0 and not kw and ("tagged",) not in st.fsm:
                E.violation("%s: success is reported without a tag" % path, lab)
        r.obligation("%s: %d gates and publication sites" % (lab, len(m.sites)), len(m.sites))
        if not kw:
            labs = [x for x, _ in m.sites]
            for x, k in (("validate_repo_state", 1), ("create_tag", 1), ("test", 1), ("load", 1), ("install", 5)):
                r.floor("manager_" + x, labs.count(x), k)


class Vcs(CmdMonitor):
    extra = re.compile(r"^git2::.*::(statuses|is_empty|include_untracked)$")

    def __init__(self):
        self.sites = set()

    def label(self, E, st, c, prog, args, consts):
        if prog in ("hg", "svn", "git") and consts and consts[0] == "status" and all(x in STATUS_ARGS for x in consts):
            return "status"
        return None

    def started(self, E, st, c, lab, args):
        self.sites.add(c.site)
        return st

    def on_call(self, E, st, c):
        n = c.name
        r = self.cmd_call(E, st, c)
        if r is not None:
            return r
        if n.startswith("git2::"):
            if n.endswith("StatusOptions::include_untracked"):
                v = E.deref(st, c.args[1])
                return [(self.add(st, ("untracked",)) if v == TRUE else self.add(st, drop=[("untracked",)]), c.args[0])]
            if re.search(r"StatusOptions::(pathspec|exclude_submodules|show)$", n):
                E.violation("%s: the status query leaves part of the working copy out (%s)" % (E.root.path, n.split("::")[-1]), c.site)
                return None
            if n.endswith("::statuses"):
                self.sites.add(c.site)
                if ("untracked",) not in st.fsm:
                    E.violation("%s: the status query leaves untracked files out" % E.root.path, c.site)
                return [(self.add(st, ("ok", "status")), ok(("?", S(".", S("p", "cmd:status"), "stdout")))),
                        (self.add(st, ("bad", "status")), err(c.fresh("e")))]
        if re.search(r"(str|String)::(contains|starts_with|ends_with)$", n) and len(c.args) == 2 and E.root.name == "tag_exists":
            if E.derived(st, c.args[1], lambda k: k == ("p", "tag")):
                E.violation("%s: the tag is looked up by a partial match (%s)" % (E.root.path, n.split("::")[-1]), c.site)
        return None


def backends(ctx):
    P, r = ctx.P, ctx.r
    n = 0
    sites = 0
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        m0 = re.search(r"^<rez_next_build::vcs::\w+::\w+ as rez_next_build::vcs::ReleaseVCS>::(is_clean|validate_repo_state|tag_exists)$", f.path)
        if not m0 or f.kind not in ("fn", "method"):
            continue
        n += 1
        m = Vcs()
        E, outs = run_root(ctx, f, m, label=f.path)
        if m0.group(1) == "tag_exists":
            r.obligation(f.path)
            continue
        for st, v in outs:
            v = E.deref(st, v)
            vs = E.variants_of(st, v)
            if vs is not None and vs == {"Err"}:
                continue
            if m0.group(1) == "is_clean":
                t = E.truth(st, E.field(st, v, "0", "Ok"))
                if t == 0:
                    continue
            for k in ("ok", "empty"):
                if (k, "status") not in st.fsm:
                    E.violation("%s: the working copy counts as clean although the status query was not found %s"
                                % (f.path, "successful" if k == "ok" else "empty"), f.path)
        sites += len(m.sites)
        r.obligation("%s: %d status queries" % (f.path, len(m.sites)), max(1, len(m.sites)))
    r.floor("backend_functions", n, 8)
    r.floor("status_queries", sites, 5)


def run(ctx):
    ctx.r.rule = RULE
    cli(ctx)
    manager(ctx)
    backends(ctx)
