"""P06: a downloaded artifact is used only after its checksum was verified."""
import re
from ..absint import Monitor, S, TRUE, FALSE, NONE, some, ok, err
from ..lib import run_root
from ..models import cmd_of, cstr
from ..transfer import EQ
from .. import fx

RULE = ("Typestate analysis with provenance: a file counts as verified after (a) it was opened, (b) read up to end of file into the "
        "digest, and (c) the digest compared equal to the expected value, which comes from the published list (whose entry's file name "
        "compared equal to the archive's name) or from the configured checksum. Unpacking, or replacing the installed program, is "
        "reachable only with exactly that file verified; writing the file again withdraws the verification. "
        "Obligation = (operation, comparison, unpacking or installing call site).")

READ = re.compile(r"(io::read::Read|io::Read)( for .*)?>?::read$|BufReader as .*Read>::read$|File as .*Read>::read$|AsyncReadExt::read$")
READALL = re.compile(r"Read>?::read_to_end$|io::copy(::copy)?$|AsyncReadExt::read_to_end$")
OPEN = re.compile(r"^(std|tokio)::fs::(file::)?File::open$|^(std|tokio)::fs::read(::read)?$")
FINAL = re.compile(r"Digest(>)?::(finalize|finalize_reset|digest)$|::finalize(_fixed)?$")
UPDATE = re.compile(r"(Digest|Update|DynDigest)( for .*)?>?::(update|chain|chain_update)$|Sha256.*::update$")
UNPACK = re.compile(r"^zip::.*ZipArchive::(new|extract)$|^tar::.*::unpack(_in)?$")
UNPACKERS = {"tar", "unzip", "gunzip", "7z", "powershell", "bsdtar", "gzip"}
TEXT = re.compile(r"fs::read_to_string|Command::output$|fs::read$")


class M(Monitor):
    track = True
    # open file, read to its end, file behind the digest, names seen equal, verified file
    init = (None, False, None, frozenset(), None)

    def __init__(self, configured=None):
        self.configured = configured
        self.sites = {"compare": set(), "use": set()}

    def event(self, n, k):
        return bool(READ.search(n) or READALL.search(n) or OPEN.search(n) or FINAL.search(n) or UPDATE.search(n) or UNPACK.search(n)) or fx.is_run(n) \
            or fx.is_mut(n)

    def inline(self, f):
        return True if f.path.startswith(self.module) else None

    def s(self, st, *f):
        s = st.copy()
        s.fsm = tuple(f)
        return s

    def digest(self, E, st, v):
        return E.derived(st, v, lambda k: k[0] == "r" and isinstance(k[3], str) and bool(FINAL.search(k[3])))

    def from_path(self, E, st, v, p):
        if p is None:
            return False
        key = S.rev[p[1].i] if p[0] == "?" else None
        return E.deref(st, v) == p or (key is not None and E.derived(st, v, lambda k: k == key))

    def use(self, E, st, c, okd, what):
        self.sites["use"].add(c.site)
        if not okd:
            E.violation("%s: %s is reachable without a verified checksum" % (E.root.path, what), "%s at %s" % (c.name, c.site))

    def on_call(self, E, st, c):
        n = c.name
        op, full, hashed, names, ver = st.fsm
        asy = n.startswith("tokio::")
        w = (lambda v: ("A", "ready", (("0", v),))) if asy else (lambda v: v)
        if n == "std::process::exit":
            return []
        if self.configured and re.search(r"HashMap::get$|BTreeMap::get$|^std::env::var$", n) and c.args:
            k = cstr(E.deref(st, c.args[-1]))
            if k is not None and self.configured in k:
                return [(st.copy(), some(("?", S("p", "configured_checksum"))))]
        if re.search(r"(str|String)::is_empty$", n) and E.derived(st, c.args[0], lambda k: k == ("p", "configured_checksum")):
            return [(st.copy(), FALSE)]
        if OPEN.search(n):
            p = E.deref(st, c.args[0])
            return [(self.s(st, p, "read" in n, hashed, names, ver), w(ok(c.fresh("file")))), (st.copy(), w(err(c.fresh("e"))))]
        if READ.search(n):
            o = None if full == "pending" else op               # the bytes read before were not hashed
            return [(self.s(st, o, True, hashed, names, ver), w(ok(("i", 0)))),
                    (self.s(st, o, "pending", hashed, names, ver), w(ok(self.nonzero(E, st, c)))), (st.copy(), w(err(c.fresh("e"))))]
        if full == "pending" and re.search(r"ops::index::Index(Mut)?( for .*)?>?::index(_mut)?$", n) and len(c.args) == 2:
            rg = E.deref(st, c.args[1])
            if rg[0] == "A" and re.search(r"range::Range(To)?$", rg[1]):
                d = dict(rg[2])
                if E.deref(st, d.get("end", ("?",))) != self.nonzero(E, st, c) or d.get("start", ("i", 0)) != ("i", 0):
                    return [(self.s(st, None, full, hashed, names, ver), c.fresh("part"))]      # not all that was read
        if UPDATE.search(n):
            return [(self.s(st, op, False if full == "pending" else full, hashed, names, ver), c.fresh("h"))]
        if READALL.search(n):
            return [(self.s(st, op, True, hashed, names, ver), w(ok(c.fresh("n")))), (st.copy(), w(err(c.fresh("e"))))]
        if FINAL.search(n):
            whole = full is True and (not n.endswith("::digest") or E.derived(st, c.args[0], lambda k: k[0] == "r" and isinstance(
                k[3], str) and bool(re.search(r"fs::read(::read)?$|read_to_end$", k[3]))))
            return [(self.s(st, op, full, op if whole else None, names, ver), c.fresh("digest"))]
        if (EQ.search(n) or n.endswith("::eq_ignore_ascii_case")) and len(c.args) == 2:
            ne = n.endswith("ne")
            d = [self.digest(E, st, a) for a in c.args]
            t, f_ = (FALSE, TRUE) if ne else (TRUE, FALSE)
            if d[0] != d[1]:
                other = c.args[1] if d[0] else c.args[0]
                self.sites["compare"].add(c.site)
                good = hashed is not None
                if E.derived(st, other, lambda k: k[0] == "r" and isinstance(k[3], str) and bool(TEXT.search(k[3]))):
                    last = None
                    if hashed is not None and hashed[0] == "?" and S.rev[hashed[1].i][:2] == ("pure", "join"):
                        last = S.rev[hashed[1].i][2][1]
                    good = good and last in names
                elif not E.derived(st, other, lambda k: k == ("p", "configured_checksum")):
                    good = False
                return [(self.s(st, op, full, hashed, names, hashed if good else ver), t), (st.copy(), f_)]
            if not d[0]:
                for a, b in ((0, 1), (1, 0)):
                    if E.derived(st, c.args[a], lambda k: k[0] == "r" and isinstance(k[3], str) and bool(TEXT.search(k[3]))):
                        v = E.deref(st, c.args[b])
                        if v[0] != "?":
                            continue
                        return [(self.s(st, op, full, hashed, names | {v}, ver), t), (st.copy(), f_)]
        if UNPACK.search(n):
            if n.endswith("ZipArchive::new") or "unpack" in n:
                self.use(E, st, c, ver is not None and op == ver, "unpacking the archive")
            return [(st.copy(), ok(c.fresh("a"))), (st.copy(), err(c.fresh("e")))]
        if fx.is_run(n):
            prog, args, _ = cmd_of(E, st, c)
            p = cstr(prog) if prog is not None else None
            s = st
            if p in UNPACKERS:
                self.use(E, st, c, any(self.from_path(E, st, a, ver) for a in args), "unpacking the archive")
            elif ver is not None and (prog is None or any(self.from_path(E, st, a, ver) for a in args)):
                s = self.s(st, op, full, hashed, names, None)
            return [(s.copy(), w(ok(c.fresh("status")))), (st.copy(), w(err(c.fresh("e"))))]
        if fx.is_mut(n):
            sh = fx.short(n)
            s = st.copy()
            if sh.startswith(("rename", "copy")) and E.root.name == "execute":
                self.use(E, st, c, ver is not None, "installing the new program")
            elif ver is not None and E.deref(st, c.args[0]) == ver and not sh.startswith("remove"):
                s.fsm = (op, full, hashed, names, None)
            return [(s, w(ok(c.fresh("ok")))), (st.copy(), w(err(c.fresh("e"))))]
        return None

    def nonzero(self, E, st, c):
        return ("i", 1)


ROOTS = [("rez_core::cli::commands::self_update::execute", None),
         ("rez_next_build::systems::binary_archive::BinaryArchiveBuildSystem::install", "SHA256")]


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    n = 0
    for path, conf in ROOTS:
        f = P.one(path)
        if f is None:
            r.violation("anchor:" + path, "entry point %s not found" % path)
            continue
        n += 1
        m = M(conf)
        m.module = path.rsplit("::", 1)[0] if conf is None else path.rsplit("::", 2)[0]
        run_root(ctx, f, m, label=path)
        r.obligation("%s: %d digest comparisons, %d unpacking or installing calls" % (path, len(m.sites["compare"]), len(m.sites["use"])),
                     len(m.sites["compare"]) + len(m.sites["use"]))
        r.floor("uses:" + path.split("::")[-2], len(m.sites["use"]), 2)
    r.floor("operations", n, 2)
