"""P03: package removal, copy and move stay below the repository."""
import re
from ..absint import Monitor, NONE, some, ok, err
from ..lib import run_root
from ..consts import const_call
from .. import fx

RULE = ("Conditional constant propagation: each public operation that deletes, copies, moves or marks a package by name and version is "
        "analysed once for every way a name or version can fail to be one plain path component (empty, '.', '..', absolute, with a "
        "separator, leading into a parent), with everything else unknown; no call that mutates the file system may be reachable. "
        "Obligation = (operation, parameter, shape).")

SHAPES = ["", ".", "..", "/abs", "a/b", "../x", "a/..", "/", "./a/../../b", "../../x/y", "a/../.."]
ROOTS = [
    r"^rez_next_package::package_remove::(remove_package_version|remove_package_family)$",
    r"^rez_next_package::package_copy::copy_package$",
    r"^rez_next_package::package_move::move_package$",
    r"^<rez_next_repository::package_repository::filesystem::FilesystemPackageRepository as .*>::(ignore_package|unignore_package|remove_package|remove_package_family)$",
    r"^rez_next_bindings::package_functions::management::(copy_package|move_package|remove_package)$",
    r"^rez_next_bindings::package_repository_bindings::.*::(ignore_package|unignore_package|remove_package|remove_package_family)$",
]
PARAM = re.compile(r"^(pkg_|package_)?(name|version)$")


class M(Monitor):
    def __init__(self, param, shape):
        self.param = param
        self.shape = shape

    def event(self, n, k):
        return fx.is_mut(n)

    def on_param(self, E, fn, i, name, ty):
        if fn.id == E.root.id and name == self.param:
            v = ("s", self.shape)
            return some(v) if ty.startswith("core::option::Option") else v

    def on_call(self, E, st, c):
        if fx.is_mut(c.name):
            E.violation("%s: %s is not confined to one path component (%s reachable)" % (E.root.path, self.param, fx.short(c.name)),
                        "%s with %s = %r reaches %s at %s" % (E.root.path, self.param, self.shape, c.name, c.site))
            return None
        if c.name == "std::process::exit":
            return []
        return const_call(E, st, c)


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    n = 0
    params = 0
    for pat in ROOTS:
        for f in P.fns.values():
            if f.kind not in ("fn", "method") or not re.search(pat, f.path):
                continue
            n += 1
            ps = [p for p in (f.local_name(i) for i in range(1, f.argc + 1)) if p and PARAM.search(p)]
            params += len(ps)
            for p in ps:
                for s in SHAPES if ctx.thorough else SHAPES[:7]:
                    run_root(ctx, f, M(p, s), label="%s[%s=%r]" % (f.path, p, s))
                    r.obligation("%s: %s = %r" % (f.path, p, s))
    r.floor("operations", n, 11)
    r.floor("name_or_version_parameters", params, 19)
