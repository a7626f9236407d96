"""Shared monitor of the package copy / move operations (P04, P05)."""
import re
from .absint import Monitor, S, TRUE, FALSE, NONE, some, ok, err, unk, UNIT
from . import fx
from .fx import FS_RMTREE

READS = re.compile(r"^(std|tokio)::fs::(read_dir|read_link|metadata|symlink_metadata)(::\w+)?$|^std::fs::(DirEntry|ReadDir)::(file_type|metadata)$"
                   r"|fs::read_dir::DirEntry::(file_type|metadata)$")
NEXT = re.compile(r"^<std::fs::ReadDir as .*Iterator>::next$|fs::read_dir::ReadDir::next_entry$")
ISKIND = re.compile(r"::(FileType|Metadata|Path|PathBuf)::is_(dir|file|symlink)$")
EXISTS = re.compile(r"^std::path::(Path|PathBuf)::(exists|try_exists)$|^(std|tokio)::fs::try_exists")
LOSSY = re.compile(r"^core::iter::traits::iterator::Iterator::(flatten|filter_map|flat_map|map_while|take_while|filter|take|skip|skip_while|step_by)$")
COPY = re.compile(r"^(std|tokio)::fs::(copy|hard_link|soft_link|symlink|rename|write)(::\w+)?$|^std::os::(unix|windows)::fs::symlink")
REMOVE = re.compile(r"^(std|tokio)::fs::(remove_dir_all|remove_dir|remove_file|rename)(::\w+)?$")
EQ = re.compile(r"core::cmp::PartialEq>?::(eq|ne)$")

PATHTEST = re.compile(r"^std::path::(Path|PathBuf)::(exists|try_exists|is_dir)$")
CANON = re.compile(r"(^|::)canonicalize(::\w+)?$")

FLAGS = ("failed", "lossy", "put", "rmsrc", "differ", "exists", "entry", "kinds", "rmdest", "canon")
INIT = (False, False, False, 0, False, frozenset(), 0, frozenset(), False, frozenset())


class F:
    """decoded monitor state"""

    def __init__(self, t):
        for n, v in zip(FLAGS, t):
            setattr(self, n, v)

    def pack(self):
        return tuple(getattr(self, n) for n in FLAGS)


def base_of(v):
    """the directory a path value is directly below (Path::join), or None"""
    if v[0] == "?":
        k = S.rev[v[1].i]
        if k[0] == "pure" and k[1] == "join" and len(k[2]) == 2:
            return k[2][0]
    return None


def is_parent_of(v, w):
    """v is w.parent() (or an ancestor by repeated parent)"""
    for _ in range(4):
        if v[0] != "?":
            return False
        k = S.rev[v[1].i]
        if k[0] == "." and isinstance(k[1], type(v[1])):
            k = S.rev[k[1].i]
        if k[0] == "pure" and k[1] == "parent":
            if k[2][0] == w:
                return True
            v = k[2][0]
            continue
        return False
    return False


def untouched(v, known):
    """known: paths seen not to exist.  Writing at v cannot overwrite anything that was there."""
    x = v
    for _ in range(8):
        if x in known:
            return True
        x = base_of(x)
        if x is None:
            break
    return any(is_parent_of(v, w) or base_of(w) == v for w in known)


class Transfer(Monitor):
    track = True
    init = INIT

    def chosen_late(self, v):
        """v was looked for only after the copy was made: it need not be what was copied"""
        return v[0] == "?" and self.tested.get(v) == {True} and self.first_put is not None and v[1].i > self.first_put

    def __init__(self, isdest, on):
        self.isdest_key = isdest
        self.tested = {}           # path -> was something already put at the destination when it was tested
        self.first_put = None
        self.on = on               # callback(kind, E, st, c, F, info)

    def event(self, n, k):
        return fx.is_mut(n) or bool(READS.search(n) or NEXT.search(n) or EXISTS.search(n) or CANON.search(n))

    _muts = None

    def muts(self, E):
        if self._muts is None:
            self._muts = E.P.reaching(lambda f: any(fx.is_mut(E.P.cname(k)) for k in f.fn_refs() if not k.get("agg")))
        return self._muts

    def dest(self, E, st, v):
        return E.derived(st, v, self.isdest_key)

    def upd(self, st, **kw):
        s = st.copy()
        f = F(s.fsm)
        for k, v in kw.items():
            setattr(f, k, v)
        s.fsm = f.pack()
        return s

    def on_call(self, E, st, c):
        n = c.name
        f = F(st.fsm)
        asy = n.startswith("tokio::")

        def w(v):
            return ("A", "ready", (("0", v),)) if asy else v
        if n == "std::process::exit":
            return []
        # recursion: assumed to do for the sub-directory what is being shown for this one
        if c.k is not None and any(t.id in c.stack for t in E.P.targets(c.k)) and any(self.dest(E, st, a) for a in c.args):
            return [(self.upd(st, put=True, entry=0), ok(c.fresh("rec"))), (self.upd(st, failed=True, entry=0), err(c.fresh("rece")))]
        if NEXT.search(n) and E.P.root(c.fn).id in self.muts(E):
            if f.entry == 1:
                self.on("skip", E, st, c, f, None)
            if "next_entry" in n:
                return [(self.upd(st, entry=0, kinds=frozenset()), w(ok(NONE))),
                        (self.upd(st, entry=1, kinds=frozenset()), w(ok(some(c.fresh("entry"))))),
                        (self.upd(st, entry=0, failed=True), w(err(c.fresh("e"))))]
            return [(self.upd(st, entry=0, kinds=frozenset()), NONE),
                    (self.upd(st, entry=1, kinds=frozenset()), some(ok(c.fresh("entry")))),
                    (self.upd(st, entry=0, failed=True), some(err(c.fresh("e"))))]
        if CANON.search(n) and c.args:
            s = self.upd(st, canon=f.canon | {self.dest(E, st, c.args[0])})
            return [(s, w(ok(c.fresh("ok")))), (s.copy(), w(err(c.fresh("err"))))]
        if READS.search(n):
            return [(st, w(ok(c.fresh("ok")))), (self.upd(st, failed=True), w(err(c.fresh("err"))))]
        if LOSSY.search(n) and E.P.root(c.fn).id in self.muts(E) and c.args and "ReadDir" in (c.argtys[0] or ""):
            self.on("lossy", E, st, c, f, None)
            return None
        if f.entry == 0 and PATHTEST.search(n) and c.args and not self.dest(E, st, c.args[0]):
            self.tested.setdefault(E.deref(st, c.args[0]), set()).add(f.put)
        m = ISKIND.search(n)
        if m and f.entry == 1:
            kinds = f.kinds | {m.group(2)}
            done = {"dir", "file", "symlink"} <= kinds
            return [(st.copy(), TRUE), (self.upd(st, kinds=kinds, entry=2 if done else 1), FALSE)]
        if EXISTS.search(n) and self.dest(E, st, c.args[0]):
            v = E.deref(st, c.args[0])
            known = dict(f.exists)
            out = []
            for val in (True, False):
                if not f.put and v in known and known[v] != val:
                    continue
                x = dict(known)
                if x.get(v, True):          # once found absent, whatever is there later was put there by us
                    x[v] = val
                s2 = self.upd(st, exists=frozenset(x.items()))
                b = TRUE if val else FALSE
                out.append((s2, w(ok(b)) if "try_exists" in n else b))
            if "try_exists" in n:
                out.append((self.upd(st, failed=True), w(err(c.fresh("err")))))
            return out
        if EQ.search(n) and len(c.args) == 2 and any("ath" in t or t.startswith("&&") for t in c.argtys):
            d = [self.dest(E, st, a) for a in c.args]
            # the same directory can be spelled in many ways: only resolved paths can be told apart
            if d[0] != d[1] and len(f.canon) == 2:
                ne = n.endswith("ne")
                return [(st.copy(), FALSE if ne else TRUE), (self.upd(st, differ=True), TRUE if ne else FALSE)]
        if fx.is_mut(n):
            dests = [self.dest(E, st, a) for a in c.args]
            good = {}
            if REMOVE.search(n) and not (n.endswith("rename") or "::rename" in n):
                if dests[0]:
                    self.on("rmdest", E, st, c, f, None)
                    if FS_RMTREE.search(n):
                        good = {"exists": frozenset({(E.deref(st, c.args[0]), False)}), "rmdest": True}
                else:
                    self.on("rmsrc" if FS_RMTREE.search(n) or "remove_file" in n else "rmdir", E, st, c, f, None)
                    if FS_RMTREE.search(n):
                        good = {"rmsrc": min(f.rmsrc + 1, 2)}
            elif "rename" in n and not dests[0]:
                # a rename is copy and removal in one step
                self.on("put", E, st, c, f, None)
                good = {"put": True, "entry": 0, "rmsrc": min(f.rmsrc + 1, 2)}
            elif any(dests):
                self.on("put", E, st, c, f, None)
                good = {"put": True}
                if self.first_put is None:
                    self.first_put = len(S.rev)
                if COPY.search(n):
                    good["entry"] = 0 if f.entry else f.entry
            return [(self.upd(st, **good), w(ok(c.fresh("ok")))), (self.upd(st, failed=True), w(err(c.fresh("err"))))]
        return None
