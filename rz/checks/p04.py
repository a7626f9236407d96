"""P04: moving or copying a package never loses it."""
from ..lib import run_root, parallel
from ..transfer import Transfer, F
from .. import fx

RULE = ("Typestate analysis of every package copy / move operation, with all file-system outcomes enumerated: (1) a directory that is "
        "not the destination is removed only after something was put at the destination, with no failed or skipped step before, only if it was chosen before the copy, and at "
        "most once per operation; (2) with keep_source set, or in a copy, it is never removed; (3) the destination is removed only with "
        "force set, before anything was put there, and after source and destination were compared as resolved (canonical) paths and found different; (4) every entry "
        "read from the source directory is copied, linked or recursed into before the next one is read, and directory listings are not "
        "filtered or error-dropping. Obligation = (operation, mutating or listing call site).")

ROOTS = {
    # entry point: (what the destination is computed from, is it a move)
    "rez_core::cli::commands::mv::execute": ("destination_path", True),
    "rez_core::cli::commands::cp::execute": ("destination_path", False),
    "rez_next_package::package_copy::copy_package": ("dest_base", False),
    "rez_next_package::package_move::move_package": ("dest_base", True),
}


def destkey(name):
    def f(k):
        return (k[0] == "p" and k[1] == name) or (k[0] == "." and k[2] == name)
    return f


class T(Transfer):
    def __init__(self, isdest, on, fields):
        super().__init__(isdest, on)
        self.fields = fields

    def on_field(self, E, st, sym, f):
        if f in self.fields:
            return ("i", self.fields[f])


def one(ctx, job):
    """one operation with one setting of its flags"""
    path, dest, move, keep, force = job
    r = ctx.r
    sites = set()
    f = ctx.P.one(path)
    label = "%s[keep_source=%d,force=%d]" % (path, keep, force)
    seen = {"put": 0, "rmsrc": 0}

    def on(kind, E, st, c, s, info):
        where = "%s in %s" % (fx.short(c.name), E.P.root(c.fn).path)
        sites.add((path, where))
        if kind in seen:
            seen[kind] += 1
        bad = None
        if kind == "rmsrc":
            if not move:
                bad = "a copy removes something other than its destination"
            elif keep:
                bad = "removes the source although keep_source is set"
            elif s.failed or s.lossy:
                bad = "removes the source after a step of the copy failed"
            elif not s.put:
                bad = "removes the source before anything was copied"
            elif m.chosen_late(E.deref(st, c.args[0])):
                bad = "removes a directory that it looked for only after the copy was made, not the one that was copied"
            elif s.rmsrc:
                bad = "removes more than one directory besides the destination"
        elif kind == "rmdir":
            if s.failed and not s.rmsrc:
                bad = "removes a source directory after a failed step"
        elif kind == "rmdest":
            if not force:
                bad = "removes the destination without force"
            elif s.put:
                bad = "removes the destination after writing to it"
            elif not s.differ:
                bad = "removes the destination without having established that it is not the source"
        elif kind == "skip":
            bad = "an entry of the source directory can be left out of the copy"
        elif kind == "lossy":
            bad = "a directory listing drops entries (%s) during the copy" % fx.short(c.name)
            st.fsm = Transfer.upd(None, st, lossy=True).fsm
        if bad:
            E.violation("%s: %s (%s)" % (path, bad, where), "%s: %s, %s at %s" % (label, bad, c.name, c.site))
    m = T(destkey(dest), on, {"keep_source": keep, "force": force})
    E, outs = run_root(ctx, f, m, label=label)
    for st, v in outs:
        s = F(st.fsm)
        vs = E.variants_of(st, v)
        if vs == {"Ok"} and move and not keep and s.put and not s.rmsrc and not s.failed:
            r.violation("%s: success without removing the source" % path, label)
    r.obligation("%s: %d writes to the destination, %d source removals checked" % (label, seen["put"], seen["rmsrc"]),
                 sum(seen.values()))
    if not seen["put"]:
        r.violation("anchor:%s writes" % label, "no write to the destination was recognised in %s" % label)
    if move and not keep and not seen["rmsrc"]:
        r.violation("anchor:%s removal" % label, "no source removal was recognised in %s" % label)
    return sites


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    jobs, roots = [], 0
    for path, (dest, move) in ROOTS.items():
        if P.one(path) is None:
            r.violation("anchor:" + path, "entry point %s not found" % path)
            continue
        roots += 1
        jobs += [(path, dest, move, keep, force) for keep in ((0, 1) if move else (0,)) for force in (0, 1)]
    sites = set().union(*parallel(ctx, jobs, one))
    r.floor("operations", roots, 4)
    r.floor("call_sites", len(sites), 12)
