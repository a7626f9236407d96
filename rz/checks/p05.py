"""P05: nothing that is already installed is overwritten or deleted unless the caller asked for it."""
import re
from ..absint import Monitor, TRUE, FALSE, NONE, some, ok, err, S
from ..lib import run_root
from ..models import callf, cstr
from ..transfer import Transfer, untouched, LOSSY, NEXT, ISKIND, EQ
from .. import fx
from .p04 import destkey, T

RULE = ("Typestate analysis with the force / overwrite / keep flags set to false: (1) in every operation that installs a package "
        "(copy, move, bind, pip write) each call that writes below the destination must be dominated by a test that found the "
        "destination (or a directory above the written file) absent, and the destination is never removed; (2) removing a family, or "
        "removing interactively, reaches a deletion only after the answer read from the terminal compared equal to an affirmative "
        "constant; (3) a repository's unforced family removal reaches its deletion only when the whole family directory was listed "
        "without error and every entry was found not to be a directory or to be hidden. Obligation = (operation, mutating call site).")

INSTALL = {
    "rez_core::cli::commands::mv::execute": ("destination_path", "force"),
    "rez_core::cli::commands::cp::execute": ("destination_path", "force"),
    "rez_next_package::package_copy::copy_package": ("dest_base", "force"),
    "rez_next_package::package_move::move_package": ("dest_base", "force"),
    "rez_next_bind::binder::PackageBinder::bind": ("install_path", "force"),
    "rez_core::cli::commands::pip::execute": ("prefix", "force"),
    "rez_next_bindings::pip_bindings::write_pip_package": ("install_path", "overwrite"),
}
YES = {"y", "yes", "Y", "Yes", "YES"}


class Bind(T):
    """an install root that is either given or configured: both are destinations"""

    def __init__(self, on, fields, keys, params):
        super().__init__(lambda k: (k[0] == "p" and k[1] in keys) or (k[0] == "." and k[2] in keys), on, fields)
        self.params = params

    def on_param(self, E, fn, i, name, ty):
        if fn.id == E.root.id and name in self.params:
            return ("i", self.params[name])


def install(ctx):
    P, r = ctx.P, ctx.r
    n = 0
    for path, (dest, flag) in INSTALL.items():
        f = P.one(path)
        if f is None:
            r.violation("anchor:" + path, "entry point %s not found" % path)
            continue
        n += 1
        sites = set()
        label = "%s[%s=0]" % (path, flag)

        def on(kind, E, st, c, s, info):
            where = "%s in %s" % (fx.short(c.name), E.P.root(c.fn).path)
            if kind == "rmdest":
                sites.add(where)
                E.violation("%s: deletes the destination without %s (%s)" % (path, flag, where), "%s: %s at %s" % (label, c.name, c.site))
            elif kind == "put":
                sites.add(where)
                known = {v for v, b in s.exists if not b}
                vs = [E.deref(st, a) for a in c.args]
                tgt = [v for v, a in zip(vs, c.args) if m.dest(E, st, a)]
                # `copy a b`: the written path is the one derived from the destination
                bad = [v for v in tgt if not untouched(v, known)]
                if len(bad) == len(tgt):
                    if c.name.split("::")[-1].startswith("create_dir_all"):
                        return          # creates only what is missing
                    E.violation("%s: writes to the destination without having found it absent (%s)" % (path, where),
                                "%s: %s at %s" % (label, c.name, c.site))
        keys = {dest, "local_packages_path", "release_packages_path"} if "bind" in path or "pip" in path else {dest}
        m = Bind(on, {flag: 0}, keys, {flag: 0})
        run_root(ctx, f, m, label=label)
        r.obligation("%s: %d write sites" % (label, len(sites)), len(sites))
        r.floor("writes:" + path.split("::")[-2] + "::" + path.split("::")[-1], len(sites), 2)
    r.floor("install_operations", n, len(INSTALL))


class Confirm(Monitor):
    """fsm = (read something from stdin, compared equal to yes)"""
    init = (False, False)

    def __init__(self, fields, on):
        self.fields = fields
        self.on = on

    def event(self, n, k):
        return fx.is_mut(n) or "Stdin::read_line" in n or n.endswith("::read_line")

    def on_field(self, E, st, sym, f):
        if f == "ignored_since":
            return NONE
        if f in self.fields:
            return ("i", self.fields[f])

    def on_call(self, E, st, c):
        n = c.name
        if n.endswith("::read_line"):
            s = st.copy()
            s.fsm = (True, False)
            return [(s, ok(c.fresh("n"))), (st.copy(), err(c.fresh("e")))]
        if st.fsm[0] and EQ.search(n) and len(c.args) == 2:
            k = [cstr(E.deref(st, a)) for a in c.args]
            if any(x in YES for x in k if x is not None):
                ne = n.endswith("ne")
                s = st.copy()
                s.fsm = (True, True)
                return [(s, FALSE if ne else TRUE), (st.copy(), TRUE if ne else FALSE)]
            if any(x is not None for x in k):
                return None
        if fx.is_mut(n):
            self.on(E, st, c)
            if self.fields.get("interactive") and fx.FS_DESTROY.search(n):
                st = st.copy()
                st.fsm = (False, False)          # the next package needs an answer of its own
            asy = n.startswith("tokio::")
            w = (lambda v: ("A", "ready", (("0", v),))) if asy else (lambda v: v)
            return [(st.copy(), w(ok(c.fresh("ok")))), (st.copy(), w(err(c.fresh("err"))))]
        if n == "std::process::exit":
            return []
        return None


def confirm(ctx):
    P, r = ctx.P, ctx.r
    path = "rez_core::cli::commands::rm::execute"
    f = P.one(path)
    if f is None:
        r.violation("anchor:" + path, "not found")
        return
    for what, fields in (("family removal without --force", {"family": 1, "force": 0, "force_family": 0, "dry_run": 0}),
                         ("interactive removal", {"family": 0, "interactive": 1, "dry_run": 0})):
        sites = set()

        def on(E, st, c):
            where = "%s in %s" % (fx.short(c.name), E.P.root(c.fn).path)
            sites.add(where)
            if not st.fsm[1]:
                E.violation("%s: %s reaches a deletion without a confirmation (%s)" % (path, what, where), "%s at %s" % (c.name, c.site))
        m = Confirm(fields, on)
        run_root(ctx, f, m, label=what)
        r.obligation("%s: %d deletion sites" % (what, len(sites)), len(sites))
        r.floor(what.split()[0] + "_deletion_sites", len(sites), 1)


class Family(Monitor):
    """fsm = (listing complete, an entry is pending, a package was passed over)"""
    init = (False, False, False)

    def __init__(self, on):
        self.on = on
        self.lists = set()

    def event(self, n, k):
        return fx.is_mut(n) or bool(NEXT.search(n)) or n.startswith("std::fs::read_dir")

    def on_param(self, E, fn, i, name, ty):
        if fn.id == E.root.id and ty == "bool":
            return ("i", 0)

    def s(self, st, *f):
        s = st.copy()
        s.fsm = tuple(f)
        return s

    def on_call(self, E, st, c):
        n = c.name
        done, pend, pkg = st.fsm
        if n.startswith("std::fs::read_dir"):
            self.lists.add(c.site)
            return [(st.copy(), ok(c.fresh("rd"))), (st.copy(), err(c.fresh("e")))]
        if NEXT.search(n):
            return [(self.s(st, True, False, pkg or pend), NONE),
                    (self.s(st, done, True, pkg or pend), some(ok(c.fresh("entry")))),
                    (self.s(st, done, True, pkg or pend), some(err(c.fresh("e"))))]
        rd = c.args and "ReadDir" in (c.argtys[0] or "")
        if rd and re.search(r"Iterator::(any|all|find|find_map|position)$", n):
            m = n.split("::")[-1]
            outs = [(self.s(st, True, pend, pkg), FALSE if m == "any" else TRUE if m == "all" else NONE)]
            for v in (ok(c.fresh("entry")), err(c.fresh("e"))):
                s0 = self.s(st, done, True, pkg or pend)
                for s1, x in callf(E, s0, c, c.args[1], [v]):
                    for t in (True, False):
                        s2 = E.assume(s1.copy(), x, t) if m in ("any", "all") else s1.copy()
                        if s2 is None:
                            continue
                        if isinstance(s2, list):
                            s2 = s2[0] if s2 else None
                        if s2 is None:
                            continue
                        d, p, g = s2.fsm
                        stop = (m == "any" and t) or (m == "all" and not t)
                        if m not in ("any", "all"):
                            outs.append((s2.copy(), some(c.fresh("f"))))
                        outs.append((self.s(s2, d if stop else True, False if not stop else p, g or p),
                                     FALSE if (m == "any") != t else TRUE) if m in ("any", "all") else (self.s(s2, True, False, g or p), NONE))
            return outs
        if rd and LOSSY.search(n) and n.split("::")[-1] in ("flatten", "filter_map", "flat_map", "take_while", "map_while", "take", "skip"):
            E.violation("%s: the emptiness test ignores entries it could not read (%s)" % (E.root.path, fx.short(n)),
                        "%s at %s" % (n, c.site))
            return None
        if pend and ISKIND.search(n) and ISKIND.search(n).group(2) == "dir":
            return [(st.copy(), TRUE), (self.s(st, done, False, pkg), FALSE)]
        if pend and re.search(r"(str|String)::starts_with$", n) and len(c.args) == 2:
            a = E.deref(st, c.args[1])
            if a in (("i", 46), ("s", ".")) or cstr(a) == ".":
                return [(self.s(st, done, False, pkg), TRUE), (st.copy(), FALSE)]
        if fx.is_mut(n):
            self.on(E, st, c)
            return [(st.copy(), ok(c.fresh("ok"))), (st.copy(), err(c.fresh("err")))]
        return None


def family(ctx):
    P, r = ctx.P, ctx.r
    roots = [f for f in P.find(r"::remove_package_family$") if f.crate == "rez_next_repository" and f.trait]
    n = 0
    for f in roots:
        sites = set()

        def on(E, st, c):
            sites.add(c.name)
            done, pend, pkg = st.fsm
            if not done or pend or pkg:
                why = "before the family was found empty" if not done else "although a package directory was seen"
                E.violation("%s: deletes the family without force %s (%s)" % (f.path, why, fx.short(c.name)), "%s at %s" % (c.name, c.site))
        run_root(ctx, f, Family(on), label=f.path + "[force=0]")
        n += len(sites)
        r.obligation("%s: %d deletion sites" % (f.path, len(sites)), len(sites))
    r.floor("family_deletion_sites", n, 1)


def run(ctx):
    ctx.r.rule = RULE
    install(ctx)
    confirm(ctx)
    family(ctx)
