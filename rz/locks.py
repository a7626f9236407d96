"""Which lock guards are alive where: a forward may-analysis over the MIR with interprocedural acquisition summaries."""
import re
from .lib import base_ty

GUARD = re.compile(r"(Mutex|RwLock|Read|Write|Reentrant\w*|Semaphore)\w*Guard\b|MappedMutexGuard|SemaphorePermit|"
                   r"dashmap::(mapref::[\w:]+|iter::\w+|iter_set::\w+|setref::[\w:]+)|std::cell::Ref(Mut)?<")
NOTHELD = re.compile(r"^&|\bimpl |\{async|Pin<|[Ff]uture")
LOCK = re.compile(r"^(std::sync|parking_lot|lock_api|tokio::sync|async_lock|futures_util::lock|spin)\b.*(Mutex|RwLock|ReentrantMutex|FairMutex)\w*::"
                  r"(lock|read|write|try_lock|try_read|try_write|blocking_lock|blocking_read|blocking_write|lock_owned|read_owned|write_owned|"
                  r"try_lock_owned|try_read_owned|try_write_owned|upgradable_read|read_recursive)$")
DASH = re.compile(r"^dashmap::(DashMap|DashSet|.*?::DashMap|.*?::DashSet)::(\w+)$")
DASH_FREE = {"new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "with_shard_amount", "shards", "hasher", "hash_usize",
             "with_capacity_and_shard_amount", "into_read_only", "default"}
DASH_READ = {"get", "iter", "contains_key", "contains", "len", "is_empty", "view", "capacity", "try_get"}
SPAWN = re.compile(r"(^tokio::(task::)?(spawn|spawn_blocking|spawn_local)|::thread::(spawn|Builder::spawn)|JoinSet::spawn|Handle::spawn|Runtime::spawn|"
                   r"rayon.*::spawn)(::\w+)?$")
SAME = re.compile(r"(Clone|Deref|DerefMut|AsRef|Borrow|BorrowMut|ToOwned|From|Into|IntoIterator|IntoFuture)( for .*)?>?::"
                  r"(clone|deref|deref_mut|as_ref|borrow|borrow_mut|to_owned|from|into|into_future)$|Arc::(clone|as_ref|new)$|Lazy::force$|Pin::new(_unchecked)?$")


class Locks:
    def __init__(self, P):
        self.P = P
        self.defs = {}
        self.acq = {}           # fn id -> {(root, fields, cls): {(mode, kind, blocks)}}
        self.site = {}          # (fn id, acquisition) -> where
        self.edges = {}         # (cls, cls) -> witness
        self.bad = []           # (key, message)
        self.nlock = 0
        self.nyield = 0
        self.holds = set(a for a, d in P.adts.items() if self.adt_holds(d))
        self.fns = []
        self._sites = None

    @staticmethod
    def adt_holds(d):
        return any(GUARD.search(str(x)) for x in _types(d))

    # -- paths -------------------------------------------------------------------
    def defmap(self, f):
        d = self.defs.get(f.id)
        if d is None:
            d = {}
            for b in f.blocks:
                if b["c"]:
                    continue
                for s in b["s"]:
                    if s[0] == "=" and not s[1][1]:
                        d.setdefault(s[1][0], []).append(("rv", s[2]))
                t = b["t"]
                if t[0] == "call" and not t[3][1]:
                    d.setdefault(t[3][0], []).append(("call", t))
            self.defs[f.id] = d
        return d

    def place(self, f, pl, seen=frozenset()):
        """possible (root, fields, class) of a place"""
        l, proj = pl
        fields = tuple(x[1] for x in proj if isinstance(x, list) and x[0] == ".")
        named = [x for x in fields if not x.startswith("^")]
        cls = None
        if named:
            cls = base_ty(f.locals[l][0]) + "." + ".".join(named)
        out = set()
        for root, fs, c in self.local(f, l, seen):
            out.add((root, fs + fields, cls or c))
        return out

    def local(self, f, l, seen=frozenset()):
        if l in seen:
            return set()
        seen = seen | {l}
        if 1 <= l <= f.argc:
            return {(("param", l), (), None)}
        out = set()
        for k, d in self.defmap(f).get(l, []):
            if k == "rv":
                if d[0] in ("use",):
                    out |= self.operand(f, d[1], seen)
                elif d[0] == "ref":
                    out |= self.place(f, d[2], seen)
                elif d[0] == "cast":
                    out |= self.operand(f, d[2], seen)
                else:
                    out.add((("new", f.id, l), (), None))
            else:
                o = d[1]
                n = self.P.cname(o[1]) if o[0] == "k" and "fn" in o[1] else ""
                if d[2] and (SAME.search(n)) and not n.endswith("Arc::new"):
                    out |= self.operand(f, d[2][0], seen)
                else:
                    out.add((("new", f.id, l), (), None))
        return out or {(("new", f.id, l), (), None)}

    def operand(self, f, o, seen=frozenset()):
        if o[0] in ("c", "m"):
            return self.place(f, o[1], seen)
        k = o[1]
        if k.get("static") or k.get("def"):
            n = k.get("static") or k.get("def")
            return {(("static", n), (), n)}
        return {(("const", str(k)[:80]), (), None)}

    # -- summaries ---------------------------------------------------------------
    def acquisition(self, f, t):
        """[(path, mode, kind, waits)] when the call takes a lock"""
        o = t[1]
        if o[0] != "k" or "fn" not in o[1] or not t[2]:
            return None
        n = self.P.cname(o[1])
        m = LOCK.search(n)
        if m:
            op = m.group(3)
            mode = "r" if "read" in op else "w"
            kind = "async" if m.group(1) in ("tokio::sync", "async_lock", "futures_util::lock") else "blocking"
            waits = not op.startswith("try_")
        else:
            m = DASH.search(n)
            if not m or m.group(2) in DASH_FREE:
                return None
            mode = "r" if m.group(2) in DASH_READ else "w"
            kind, waits = "dash", True
            if "dashmap" not in (o[1]["fn"] + n):
                return None
        return [(p, mode, kind, waits) for p in self.operand(f, t[2][0])]

    def closures_of(self, f, o):
        """closure / coroutine aggregates an operand may be"""
        out = []
        if o[0] not in ("c", "m") or o[1][1]:
            return out
        seen = set()
        work = [o[1][0]]
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            for k, d in self.defmap(f).get(l, []):
                if k == "rv":
                    if d[0] == "agg" and d[1].get("k") in ("closure", "coroutine") and d[1]["id"] in self.P.fns:
                        out.append((self.P.fns[d[1]["id"]], d[2], d[1].get("f", [])))
                    elif d[0] in ("use", "cast"):
                        x = d[1] if d[0] == "use" else d[2]
                        if x[0] in ("c", "m") and not x[1][1]:
                            work.append(x[1][0])
                    elif d[0] == "ref" and not d[2][1]:
                        work.append(d[2][0])
                elif k == "call" and d[2]:
                    q = d[1]
                    n = self.P.cname(q[1]) if q[0] == "k" and "fn" in q[1] else ""
                    if SAME.search(n) or n.endswith(("Box::new", "Box::pin")):
                        x = d[2][0]
                        if x[0] in ("c", "m") and not x[1][1]:
                            work.append(x[1][0])
        return out

    def subst(self, f, g, path, args):
        """a path of callee g in terms of f, given g's argument operands"""
        root, fs, cls = path
        if root[0] != "param":
            return {path}
        i = root[1] - 1
        if i >= len(args):
            return {(("in", g.path, root[1]), fs, cls)}
        return {(r, b + fs, cls or c) for r, b, c in self.operand(f, args[i])}

    def subst_cl(self, f, g, path, ops, names):
        root, fs, cls = path
        if root[0] != "param":
            return {path}
        if root[1] != 1 or not fs or fs[0] not in names:
            return {(("in", g.path, root[1]), fs, cls)}
        o = ops[names.index(fs[0])]
        return {(r, b + fs[1:], cls or c) for r, b, c in self.operand(f, o)}

    def call_effects(self, f, t):
        """acquisitions of a call: [(path, mode, kind, waits, via)]"""
        a = self.acquisition(f, t)
        if a is not None:
            return [x + ("",) for x in a]
        out = []
        o = t[1]
        k = o[1] if o[0] == "k" else {}
        n = self.P.cname(k) if "fn" in k else ""
        if "fn" in k:
            for g in self.P.targets(k):
                for (path, mode, kind, waits) in self.acq.get(g.id, ()):
                    for p in self.subst(f, g, path, t[2]):
                        out.append((p, mode, kind, waits, g.path))
        if not SPAWN.search(n):
            for x in t[2]:
                for g, ops, names in self.closures_of(f, x):
                    for (path, mode, kind, waits) in self.acq.get(g.id, ()):
                        for p in self.subst_cl(f, g, path, ops, names):
                            out.append((p, mode, kind, waits, g.path))
        return out

    def summaries(self):
        P = self.P
        fns = [f for f in P.fns.values() if f.kind in ("fn", "method", "closure", "coroutine")]
        direct = set()
        for f in fns:
            for k in f.fn_refs():
                n = P.cname(k) if not k.get("agg") else ""
                if LOCK.search(n) or (DASH.search(n)):
                    direct.add(f.id)
        self.fns = [P.fns[i] for i in P.reaching(lambda f: f.id in direct)]
        self.direct = direct
        self.want = {f.id for f in self.fns}
        self.fns.sort(key=lambda f: f.path)
        changed = True
        rounds = 0
        while changed and rounds < 30:
            changed = False
            rounds += 1
            for f in self.fns:
                cur = set(self.acq.get(f.id, ()))
                n0 = len(cur)
                for b in f.blocks:
                    if b["c"]:
                        continue
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") == "coroutine" and s[1] == [0, []]:
                            g = P.fns.get(s[2][1]["id"])
                            if g is not None:
                                for (path, mode, kind, waits) in self.acq.get(g.id, ()):
                                    for p in self.subst_cl(f, g, path, s[2][2], s[2][1].get("f", [])):
                                        cur.add((p, mode, kind, waits))
                    t = b["t"]
                    if t[0] == "call":
                        for p, mode, kind, waits, via in self.call_effects(f, t):
                            if len(p[1]) <= 6:
                                cur.add((p, mode, kind, waits))
                if len(cur) != n0:
                    self.acq[f.id] = cur
                    changed = True

    # -- liveness of guards --------------------------------------------------------
    def guardish(self, ty):
        return bool(GUARD.search(ty)) or any(h in ty for h in self.holds)

    def run(self):
        self.summaries()
        for f in self.fns:
            self.flow(f)

    def flow(self, f):
        tys = [self.guardish(l[0]) for l in f.locals]
        if not any(tys):
            return
        held_ty = [t and not NOTHELD.search(f.locals[i][0]) for i, t in enumerate(tys)]
        state = {0: {}}
        work = [0]
        n = 0
        while work:
            n += 1
            if n > 20000:
                self.bad.append(("incomplete:" + f.path, "guard analysis of %s did not finish" % f.path))
                return
            b = work.pop()
            out = self.block(f, b, dict(state[b]), tys, held_ty, False)
            for succ, st in out:
                old = state.get(succ)
                if old is None:
                    state[succ] = st
                    work.append(succ)
                else:
                    ch = False
                    for l, s in st.items():
                        if not s <= old.get(l, frozenset()):
                            old[l] = old.get(l, frozenset()) | s
                            ch = True
                    if ch:
                        work.append(succ)
        for b in sorted(state):
            self.block(f, b, dict(state[b]), tys, held_ty, True)

    def src_tokens(self, st, ops, kill):
        out = frozenset()
        for o in ops:
            if o[0] in ("c", "m"):
                l = o[1][0]
                if l in st:
                    out |= st[l]
                    if o[0] == "m" and kill and "*" not in o[1][1]:
                        kill.append(l)
        return out

    def block(self, f, b, st, tys, held_ty, report):
        bb = f.blocks[b]
        for s in bb["s"]:
            if s[0] == "dead":
                st.pop(s[1], None)
            elif s[0] == "=":
                rv = s[2]
                if rv[0] == "use":
                    ops = [rv[1]]
                elif rv[0] == "ref":
                    ops = [["c", rv[2]]]
                elif rv[0] == "cast":
                    ops = [rv[2]]
                elif rv[0] == "agg":
                    ops = rv[2]
                else:
                    ops = []
                kill = [None]
                tok = self.src_tokens(st, ops, kill)
                for l in kill[1:]:
                    st.pop(l, None)
                self.put(st, s[1], tok, tys)
        t = bb["t"]
        if t[0] == "drop":
            if not t[1][1] or "*" not in t[1][1]:
                st.pop(t[1][0], None)
            return [(t[2], st)]
        if t[0] == "goto":
            return [(t[1], st)]
        if t[0] == "sw":
            return [(x[1], dict(st)) for x in t[2]] + [(t[3], dict(st))]
        if t[0] == "assert":
            return [(t[4], st)]
        if t[0] == "yield":
            if report:
                self.nyield += 1
                for l, s in st.items():
                    if held_ty[l]:
                        for p, mode, kind in s:
                            if kind != "async":
                                self.bad.append(("%s holds a guard of %s at a suspension point" % (f.path, self.cls(p)),
                                                 "%s:%s awaits while a blocking guard of %s is alive" % (f.file, t[4], self.cls(p))))
            return [(t[2], st)]
        if t[0] == "call":
            kill = [None]
            tok = self.src_tokens(st, t[2], kill)
            acq = self.acquisition(f, t)
            if report:
                if acq:
                    self.nlock += 1
                held = set()
                for l, s in st.items():
                    if held_ty[l]:
                        held |= s
                if held:
                    for p, mode, kind, waits, via in self.call_effects(f, t):
                        if waits:
                            for h in held:
                                self.pair(f, t, h, (p, mode, kind), via)
            for l in kill[1:]:
                st.pop(l, None)
            if acq:
                tok = tok | frozenset((p, m, k) for p, m, k, _ in acq)
            self.put(st, t[3], tok, tys)
            return [(t[4], st)] if t[4] >= 0 else []
        return []

    def put(self, st, pl, tok, tys):
        l, proj = pl
        if not proj:
            st.pop(l, None)
        if tok and tys[l]:
            st[l] = st.get(l, frozenset()) | tok

    def cls(self, p):
        root, fs, c = p
        if c:
            return c
        if root[0] == "param":
            return "a parameter's lock"
        if root[0] == "in":
            return "%s(%s)%s" % (root[1], root[2], "".join("." + x for x in fs))
        return "a local lock"

    def sites_of(self, f):
        """[(caller, argument operands)] of a function, [(creator, captured operands, names)] of a closure"""
        if self._sites is None:
            self._sites = {}
            for g in self.P.fns.values():
                refs = g.fn_refs()
                if not any((k.get("rid") or k.get("id")) in self.want or k.get("id") in self.want for k in refs):
                    continue
                for b in g.blocks:
                    if b["c"]:
                        continue
                    for s in b["s"]:
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1].get("k") in ("closure", "coroutine"):
                            self._sites.setdefault(s[2][1]["id"], []).append((g, s[2][2], s[2][1].get("f", [])))
                    t = b["t"]
                    if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
                        for x in self.P.targets(t[1][1]):
                            if x.id in self.want:
                                self._sites.setdefault(x.id, []).append((g, t[2], None))
        return self._sites.get(f.id, [])

    def classes(self, f, path, depth=0):
        """owning fields a lock path of f may denote"""
        root, fs, c = path
        if c is not None:
            return {c}
        if root[0] != "param" or depth > 5:
            return set()
        out = set()
        for g, ops, names in self.sites_of(f):
            if names is None:
                ps = self.subst(g, f, path, ops)
            else:
                ps = self.subst_cl(g, f, path, ops, names)
            for p in ps:
                out |= self.classes(g, p, depth + 1)
        return out

    def pair(self, f, t, h, a, via):
        (p, m1, k1), (q, m2, k2) = h, a
        c1s, c2s = self.classes(f, p), self.classes(f, q)
        same = p == q or (p[2] is not None and p[2] == q[2]) or (len(c1s) == 1 and c1s == c2s)
        where = "%s:%s in %s%s" % (f.file, t[5], f.path, " (through %s)" % via if via else "")
        if same:
            if k1 == "dash" and m1 == "r" and m2 == "r":
                return
            self.bad.append(("%s takes %s while holding it" % (f.path, self.cls(p)), "lock %s is taken again while a guard of it is alive at %s"
                             % (self.cls(p), where)))
        else:
            for c1 in c1s:
                for c2 in c2s:
                    if c1 != c2:
                        self.edges.setdefault((c1, c2), where)

    def cycles(self):
        g = {}
        for a, b in self.edges:
            g.setdefault(a, set()).add(b)
        out = []
        for (a, b), w in sorted(self.edges.items()):
            # is a reachable from b
            seen, work = set(), [b]
            while work:
                x = work.pop()
                if x in seen:
                    continue
                seen.add(x)
                work += g.get(x, ())
            if a in seen:
                out.append((a, b, w))
        return out


def _types(d):
    if isinstance(d, dict):
        for v in d.values():
            yield from _types(v)
    elif isinstance(d, (list, tuple)):
        for v in d:
            yield from _types(v)
    elif isinstance(d, str):
        yield d
