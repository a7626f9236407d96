"""Path-sensitive abstract interpreter over the workspace's built MIR.

ESP-style: at every basic block the analysis keeps one abstract store per monitor state (plus the known
boolean / variant values of live locals); stores with the same key are joined.  Calls into the workspace are
analysed in context (inlined); calls out of it go through the models in models.py, and otherwise return an
unconstrained value and forget everything reachable through a mutable reference argument.
Nothing of the analysed program is executed; there is no solver - a branch is pruned only when the store
already knows the value that decides it.
"""
import sys
from functools import lru_cache

sys.setrecursionlimit(20000)

MAXDEPTH = 14


def inner_refs(v, n=0):
    if isinstance(v, tuple) and n < 6:
        if len(v) == 3 and v[0] == "R":
            yield v[1]
            return
        for x in v:
            if isinstance(x, tuple):
                yield from inner_refs(x, n + 1)


class SymTab:
    def __init__(self):
        self.tab = {}
        self.rev = []
        self.depth = []

    def __call__(self, kind, *args):
        k = (kind,) + args
        i = self.tab.get(k)
        if i is None:
            d = 0
            for a in args:
                if isinstance(a, Sym):
                    d = max(d, self.depth[a.i] + 1)
                elif isinstance(a, tuple):
                    for s in syms_of(a):
                        d = max(d, self.depth[s.i] + 1)
            if d > MAXDEPTH:
                return self("deep", kind)
            i = Sym(len(self.rev))
            self.tab[k] = i
            self.rev.append(k)
            self.depth.append(d)
        return i

    def show(self, s, n=0):
        if isinstance(s, Sym):
            k = self.rev[s.i]
            if n > 6:
                return ".."
            if k[0] == ".":
                return "%s.%s" % (self.show(k[1], n + 1), k[2])
            if k[0] == "p":
                return str(k[1])
            if k[0] == "r":
                return "ret(%s)" % (k[3] if len(k) > 3 else k[1:],)
            return "%s(%s)" % (k[0], ", ".join(self.show(a, n + 1) for a in k[1:]))
        if isinstance(s, tuple):
            if s and s[0] == "?" and len(s) == 2:
                return self.show(s[1], n)
            if s and s[0] == "s":
                return repr(s[1])
            return "(" + ",".join(self.show(a, n + 1) for a in s) + ")"
        return str(s)


class Sym:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return "$%d" % self.i

    def __hash__(self):                 # order of sets must not depend on addresses
        return self.i


@lru_cache(maxsize=400000)
def syms_of(v):
    out = set()
    if isinstance(v, Sym):
        out.add(v)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Sym)):
                out |= syms_of(x)
    return frozenset(out)


def contains(v, leaf):
    if v == leaf:
        return True
    if v[0] == "?" or v[0] == "i" or v[0] == "s":
        return False
    return any(isinstance(x, tuple) and x and contains(x, leaf) for x in v)


def subst(v, leaf, new):
    if v == leaf:
        return new
    if not contains(v, leaf):
        return v
    return tuple(subst(x, leaf, new) if isinstance(x, tuple) and x else x for x in v)


S = SymTab()
UNIT = ("A", "()", ())
TRUE = ("i", 1)
FALSE = ("i", 0)
UNINIT = ("U",)


def unk(*k):
    return ("?", S(*k))


def E1(adt, var, *vals):
    return ("E", adt, ((var, tuple((str(i), v) for i, v in enumerate(vals))),))


OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
NONE = E1(OPT, "None")


def some(v):
    return E1(OPT, "Some", v)


def ok(v=UNIT):
    return E1(RES, "Ok", v)


def err(v):
    return E1(RES, "Err", v)


def merge_e(a, b):
    d = dict(a[2])
    for k, f in b[2]:
        d[k] = f
    return ("E", a[1], tuple(sorted(d.items())))


class State:
    __slots__ = ("fsm", "frames", "heap", "facts", "_own")

    def __init__(self, fsm, frames, heap, facts):
        self.fsm = fsm
        self.frames = frames
        self.heap = heap
        self.facts = facts
        self._own = set()

    def copy(self):
        s = State(self.fsm, list(self.frames), self.heap, self.facts)
        self._own = set()
        return s

    def frame_w(self, d):
        if d not in self._own:
            self.frames[d] = dict(self.frames[d])
            self._own.add(d)
        return self.frames[d]

    def heap_w(self):
        if "h" not in self._own:
            self.heap = dict(self.heap)
            self._own.add("h")
        return self.heap

    def facts_w(self):
        if "f" not in self._own:
            self.facts = dict(self.facts)
            self._own.add("f")
        return self.facts

    def fact(self, sym, val):
        self.facts_w()[sym] = val


class Call:
    __slots__ = ("fn", "block", "term", "k", "name", "args", "depth", "ctx", "line", "E", "stack", "argtys", "argops")

    @property
    def site(self):
        return "%s:%s" % (self.fn.file, self.line)

    def retty(self):
        """declared type of the destination"""
        return self.fn.locals[self.term[3][0]][0] if self.term and not self.term[3][1] else ""

    TAGS = {""}

    def fresh(self, tag=""):
        self.TAGS.add(tag)
        return ("?", S("r", self.ctx, self.block, self.name, tag))


class Incomplete(Exception):
    pass


def liveness(fn):
    n = len(fn.blocks)
    use = [set() for _ in range(n)]
    de = [set() for _ in range(n)]
    succ = [()] * n

    def up(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for e in p[1]:
            if e[0] == "[]" and e[1] not in d:
                u.add(e[1])

    def uo(o, u, d):
        if o[0] != "k":
            up(o[1], u, d)

    for i, b in enumerate(fn.blocks):
        if b["c"]:
            continue
        u, d = use[i], de[i]
        for s in b["s"]:
            if s[0] != "=":
                continue
            r = s[2]
            k = r[0]
            if k in ("use", "rep"):
                uo(r[1], u, d)
            elif k in ("ref",):
                up(r[2], u, d)
            elif k == "cast":
                uo(r[2], u, d)
            elif k == "bin":
                uo(r[2], u, d); uo(r[3], u, d)
            elif k == "un":
                uo(r[2], u, d)
            elif k == "discr":
                up(r[1], u, d)
            elif k == "agg":
                for o in r[2]:
                    uo(o, u, d)
            elif k == "len":
                up(r[1], u, d)
            if s[1][1]:
                up(s[1], u, d)
            else:
                d.add(s[1][0])
        t = b["t"]
        if t[0] == "call":
            uo(t[1], u, d)
            for o in t[2]:
                uo(o, u, d)
            if t[3][1]:
                up(t[3], u, d)
            else:
                d.add(t[3][0])
            succ[i] = (t[4],) if t[4] >= 0 else ()
        elif t[0] == "sw":
            uo(t[1], u, d)
            succ[i] = tuple({x[1] for x in t[2]} | ({t[3]} if t[3] >= 0 else set()))
        elif t[0] == "goto":
            succ[i] = (t[1],)
        elif t[0] == "drop":
            succ[i] = (t[2],)
        elif t[0] == "assert":
            uo(t[1], u, d)
            succ[i] = (t[4],)
        elif t[0] == "yield":
            succ[i] = (t[2],)
        elif t[0] == "ret":
            u.add(0) if 0 not in d else None
    livein = [set() for _ in range(n)]
    ch = True
    order = list(range(n - 1, -1, -1))
    while ch:
        ch = False
        for i in order:
            if fn.blocks[i]["c"]:
                continue
            o = set()
            for s in succ[i]:
                o |= livein[s]
            o = use[i] | (o - de[i])
            if o != livein[i]:
                livein[i] = o
                ch = True
    # reverse post order & loops
    rpo = {}
    seen = set()
    post = []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    onst = {0}
    heads = set()
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                onst.add(s)
                stack.append((s, iter(succ[s])))
                break
            elif s in onst:
                heads.add(s)
        else:
            post.append(b)
            onst.discard(b)
            stack.pop()
    for i, b in enumerate(reversed(post)):
        rpo[b] = i
    # blocks in cycles (SCC membership)
    incyc = set()
    for h in heads:
        # nodes that can reach h and are reachable from h
        fw = {h}
        w = [h]
        while w:
            x = w.pop()
            for s in succ[x]:
                if s not in fw:
                    fw.add(s); w.append(s)
        pred = {}
        for x in fw:
            for s in succ[x]:
                pred.setdefault(s, []).append(x)
        bw = {h}
        w = [h]
        while w:
            x = w.pop()
            for s in pred.get(x, ()):
                if s not in bw:
                    bw.add(s); w.append(s)
        incyc |= (fw & bw)
    return livein, rpo, heads, incyc, succ


class Monitor:
    """Base class.  fsm states must be hashable."""
    init = 0
    track = False           # keep the derived-from relation
    shared = True           # event() and writes_of_interest() depend on the class only

    def event(self, name, k):
        """is a call to this function an event of interest (decides what gets analysed in context)?"""
        return False

    def on_call(self, E, st, call):
        return None

    def after_call(self, E, st, call, val):
        return None

    def on_field(self, E, st, sym, field):
        return None

    def on_param(self, E, fn, i, name, ty):
        return None

    def on_write(self, E, st, fn, place, field, val, line):
        return None

    def on_switch(self, E, st, v, names, explicit):
        """st is the state on one edge of a match on the discriminant v: the value is one of names, explicit if an arm names it"""
        return None

    def writes_of_interest(self, fn):
        return False

    def inline(self, fn):
        return None

    def opaque(self, fn):
        return False

    def drop_event(self, E, st, fn, place, ty, val, line):
        return None


class Engine:
    def __init__(self, prog, monitor, models, max_steps=600000, helper_blocks=40, helper_depth=3,
                 max_states=32, max_stack=40):
        self.P = prog
        self.M = monitor
        self.models = models
        self.steps = 0
        self.max_steps = max_steps
        self.helper_blocks = helper_blocks
        self.helper_depth = helper_depth
        self.max_states = max_states
        self.max_stack = max_stack
        self.info = {}
        self.fnconst = {}
        self.analysed = {}
        self.notes = {}
        self.truncated = 0
        self.violations = {}
        self.prov = {}
        self.events = {}
        ev = {}

        def has_event(f):
            if monitor.writes_of_interest(f):
                return True
            for k in f.fn_refs():
                if k.get("agg"):
                    continue
                nm = prog.cname(k)
                r = ev.get((nm, k["fn"]))
                if r is None:
                    r = ev[(nm, k["fn"])] = bool(monitor.event(nm, k) or (k["fn"] != nm and monitor.event(k["fn"], k)))
                if r:
                    return True
            return False

        # what counts as an event depends on the kind of monitor only
        known = prog.__dict__.setdefault("_relevant", {})
        if not monitor.shared or type(monitor) not in known:
            known[type(monitor)] = prog.reaching(has_event)
        self.relevant = known[type(monitor)]

    # -- provenance (flow-insensitive "derived from" relation over symbols) ----
    def origins(self, st, vals, n=0):
        out = set()
        for v in vals:
            k = 0
            while v[0] == "R" and k < 6:
                v = self.load(st, v[1])
                k += 1
            if v[0] == "?":
                v = self.norm(st, v)
            out |= syms_of(v)
            if n < 3:
                refs = list(inner_refs(v))
                if refs:
                    out |= self.origins(st, [self.load(st, l) for l in refs], n + 1)
        return out

    def derive(self, c, outs, src):
        for _, v in outs:
            for s in syms_of(v):
                k = S.rev[s.i]
                if k[0] in ("r", "hv") and k[1] is c.ctx:
                    d = self.prov.setdefault(s, set())
                    d |= src
                    d.discard(s)

    def closure_syms(self, v):
        """every symbol v is built or derived from"""
        todo = list(syms_of(v)) if isinstance(v, tuple) else [v]
        seen = set(todo)
        while todo:
            s = todo.pop()
            nxt = set(self.prov.get(s, ()))
            for a in S.rev[s.i][1:]:
                if isinstance(a, Sym):
                    nxt.add(a)
                elif isinstance(a, tuple) and S.rev[s.i][0] not in ("r", "phi", "hphi", "hv"):
                    nxt |= syms_of(a)
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    todo.append(x)
        return seen

    def derived(self, st, v, pred):
        """is v computed from a symbol satisfying pred(key)?"""
        return any(pred(S.rev[s.i]) for o in self.origins(st, [v]) for s in self.closure_syms(o))

    tick = 0

    # -- reporting ----------------------------------------------------------
    def violation(self, key, msg, call=None, fn=None):
        if key not in self.violations:
            self.violations[key] = msg

    def seen_event(self, kind, site):
        self.events.setdefault(kind, set()).add(site)

    # -- store --------------------------------------------------------------
    def norm(self, st, v):
        """apply facts to an unknown."""
        n = 0
        while v[0] == "?" and n < 8:
            f = st.facts.get(v[1])
            if f is not None and f[0] in ("i", "s"):
                return f
            h = st.heap.get(v[1])
            if h is not None and h != v:
                v = h
                n += 1
                continue
            return v
        return v

    def field(self, st, v, fname, variant=None):
        v = self.norm(st, v)
        k = v[0]
        if k == "R":
            return self.field(st, self.load(st, v[1]), fname, variant)
        if k == "A":
            for n, x in v[2]:
                if n == fname:
                    return x
            return unk(".", S("v", v), fname)
        if k == "E":
            for vn, fs in v[2]:
                if variant is None or vn == variant:
                    for n, x in fs:
                        if n == fname:
                            return x
            return unk(".", S("v", v), str(variant) + "." + fname)
        if k == "?":
            if fname.startswith("^") or variant is None:
                s = S(".", v[1], fname)
            else:
                s = S(".", v[1], variant + "." + fname)
            r = self.M.on_field(self, st, s, fname)
            if r is not None and s not in st.heap:
                return r
            h = st.heap.get(s)
            if h is not None:
                return self.norm(st, h)
            return self.norm(st, ("?", s))
        if k == "L":
            return unk(".", S("v", v), fname)
        return unk(".", S("v", v), fname)

    def load(self, st, loc):
        base, proj = loc
        if base[0] == "l":
            fr = st.frames[base[1]] if base[1] < len(st.frames) else None
            v = fr.get(base[2]) if fr is not None else None
            if v is None:
                v = unk("uninit", base[1], base[2])
        else:
            v = ("?", base[1])
            v = self.norm(st, v)
        return self.project(st, v, proj)

    def project(self, st, v, proj):
        variant = None
        for e in proj:
            if e == "*":
                v = self.deref(st, v)
            elif e[0] == ".":
                v = self.field(st, v, e[1], variant)
                variant = None
                continue
            elif e[0] == "as":
                variant = e[1]
                continue
            else:
                v = self.elem(st, v)
            variant = None
        return self.norm(st, v)

    def elem(self, st, v):
        v = self.deref(st, v)
        if v[0] == "A" and v[1] == "array":
            if len(v[2]) == 1:
                return v[2][0][1]
            return unk("el", S("v", v))
        if v[0] == "L":
            if v[2] is not None:
                return v[2]
            return unk("el", S("v", v))
        if v[0] == "?":
            return unk("el", v[1])
        return unk("el", S("v", v))

    def deref(self, st, v):
        n = 0
        while v[0] == "R" and n < 16:
            v = self.load(st, v[1])
            n += 1
        return self.norm(st, v)

    def deref1(self, st, v):
        if v[0] == "R":
            return self.load(st, v[1])
        return self.norm(st, v)

    def resolve(self, st, depth, place):
        """place -> loc (base, proj) with derefs of known references followed."""
        base = ("l", depth, place[0])
        proj = ()
        for e in place[1]:
            if e == "*":
                v = self.load(st, (base, proj))
                if v[0] == "R":
                    base, proj = v[1]
                elif v[0] == "?":
                    base, proj = ("h", v[1]), ()
                # owned box or transparent: stay
            else:
                proj = proj + (tuple(e),)
        return (base, proj)

    def read(self, st, depth, place):
        base, proj = self.resolve(st, depth, place)
        return self.load(st, (base, proj))

    def write_loc(self, st, loc, v):
        base, proj = loc
        if base[0] == "l":
            fr = st.frame_w(base[1])
            if not proj:
                fr[base[2]] = v
            else:
                cur = fr.get(base[2], UNINIT)
                fr[base[2]] = self.update(st, cur, proj, v)
        else:
            sym = base[1]
            h = st.heap.get(sym)
            if h is not None and h[0] != "?" and proj:
                st.heap_w()[sym] = self.update(st, h, proj, v)
                return
            if h is not None and h[0] == "?":
                sym = h[1]
            variant = None
            for i, e in enumerate(proj):
                if e[0] == "as":
                    variant = e[1]
                    continue
                if e[0] == ".":
                    sym = S(".", sym, e[1] if variant is None else variant + "." + e[1])
                    variant = None
                else:
                    sym = S("el", sym)
            v, self.aged = self.age(st, sym, v)
            self.kill_below(st, sym)
            st.heap_w()[sym] = v

    def age(self, st, sym, v):
        """before the cell sym is overwritten: values loaded from it keep denoting what it held"""
        leaf = ("?", sym)
        old = st.heap.get(sym)
        used = contains(v, leaf) or any(contains(x, leaf) for fr in st.frames for x in fr.values()) or \
            any(contains(x, leaf) for k, x in st.heap.items() if k is not sym)
        if old is None or contains(old, leaf):
            o = S("old", sym)
            old = ("?", o)
            if used:
                again = any(contains(x, old) for fr in st.frames for x in fr.values())
                f = st.facts.get(sym)
                if again:
                    if o in st.facts:
                        del st.facts_w()[o]
                elif f is not None:
                    st.facts_w()[o] = f
        if used:
            v = subst(v, leaf, old)
            for i, fr in enumerate(st.frames):
                if any(contains(x, leaf) for x in fr.values()):
                    w = st.frame_w(i)
                    for k in list(w):
                        w[k] = subst(w[k], leaf, old)
            for k, x in list(st.heap.items()):
                if k is not sym and contains(x, leaf):
                    st.heap_w()[k] = subst(x, leaf, old)
        return v, (leaf, old)

    def kill_below(self, st, sym):
        def below(s):
            n = 0
            while n < 20:
                k = S.rev[s.i]
                if k[0] in (".", "el") and isinstance(k[1], Sym):
                    s = k[1]
                    if s is sym:
                        return True
                else:
                    return False
                n += 1
            return False

        dh = [x for x in st.heap if below(x)]
        if dh:
            h = st.heap_w()
            for x in dh:
                del h[x]
        df = [x for x in st.facts if below(x) or x is sym]
        if df:
            f = st.facts_w()
            for x in df:
                del f[x]

    def update(self, st, cur, proj, v):
        if not proj:
            return v
        e = proj[0]
        cur0 = cur
        if cur[0] == "?":
            cur = self.norm(st, cur)
        if e[0] == "as":
            if len(proj) == 1:
                return v
            e2 = proj[1]
            if cur[0] == "E":
                vs = []
                for vn, fs in cur[2]:
                    if vn == e[1]:
                        fs = self._upd_fields(st, fs, e2[1], proj[2:], v)
                    vs.append((vn, fs))
                return ("E", cur[1], tuple(vs))
            return unk("upd", S("v", cur), str(proj)[:60], S("v", v))
        if e[0] == ".":
            if cur[0] == "A":
                return ("A", cur[1], self._upd_fields(st, cur[2], e[1], proj[1:], v))
            if cur[0] == "U":
                return ("A", "partial", self._upd_fields(st, (), e[1], proj[1:], v))
            if cur[0] == "?":
                # lazily make it a struct overlay on the heap of its symbol
                self.write_loc(st, (("h", cur[1]), tuple(proj)), v)
                return cur
            if cur[0] == "R":
                self.write_loc(st, (cur[1][0], cur[1][1] + tuple(proj)), v)
                return cur
            return unk("upd", S("v", cur), e[1], S("v", v))
        # element write
        if cur[0] == "A" and cur[1] == "array":
            return ("A", "array", tuple((n, unk("elw", S("v", x), S("v", v))) for n, x in cur[2]))
        if cur[0] == "R":
            self.write_loc(st, (cur[1][0], cur[1][1] + tuple(proj)), v)
            return cur
        return unk("elw", S("v", cur), S("v", v))

    def _upd_fields(self, st, fs, name, rest, v):
        out = []
        hit = False
        for n, x in fs:
            if n == name:
                x = self.update(st, x, rest, v)
                hit = True
            out.append((n, x))
        if not hit:
            out.append((name, self.update(st, UNINIT, rest, v)))
        return tuple(out)

    def write(self, st, depth, place, v):
        self.write_loc(st, self.resolve(st, depth, place), v)

    # -- havoc --------------------------------------------------------------
    def havoc_args(self, st, call):
        done = set()
        self.hvsrc = self.origins(st, call.args) if self.M.track else None
        for i, a in enumerate(call.args):
            for loc in mut_refs(a):
                if loc in done:
                    continue
                done.add(loc)
                cur = self.load(st, loc)
                self.write_loc(st, loc, self.havoc_val(st, cur, call, (i,)))
            if a[0] == "?" and call.argtys[i].startswith("&mut"):
                s = a[1]
                self.kill_below(st, s)
                st.heap_w()[s] = self.hv(call, s)

    hvsrc = None

    def hv(self, call, tag):
        """the unknown a call leaves behind a mutable reference; computed from everything the call was given"""
        v = unk("hv", call.ctx, call.block, tag)
        if self.hvsrc:
            d = self.prov.setdefault(v[1], set())
            d |= self.hvsrc
            d.discard(v[1])
        return v

    def havoc_val(self, st, cur, call, tag):
        if cur[0] == "R":
            # a reference stored behind the mutable reference: what it points to may change too
            return cur
        if cur[0] == "L":
            return ("L", "?", cur[2])
        if cur[0] == "A" and isinstance(cur[1], tuple) and cur[1][0] in ("closure", "coroutine"):
            for n, x in cur[2]:
                for loc in mut_refs(x):
                    self.write_loc(st, loc, self.hv(call, n))
            return cur
        if cur[0] == "A" and cur[1] == "cmd":
            return ("A", "cmd", cur[2] + (("?", UNIT),)) if not any(n == "?" for n, _ in cur[2]) else cur
        if cur[0] == "A" and isinstance(cur[1], str) and cur[1] in self.P.adts and len(tag) < 4:
            # the struct keeps its shape, its fields may hold anything
            base = self.hv(call, tag)
            return ("A", cur[1], tuple((n, self.havoc_val(st, x, call, tag + (n,)) if x[0] in ("L", "A", "R") else self.field(st, base, n))
                                       for n, x in cur[2]))
        return self.hv(call, tag)

    # -- operands -----------------------------------------------------------
    def const(self, k):
        if "fn" in k:
            key = (k["id"], k.get("rid"), tuple(k.get("gc", ())), tuple(k.get("ga", ())))
            self.fnconst[key] = k
            return ("F", key)
        if "variant" in k:
            return ("E", k.get("adt", k["ty"].split("<")[0].lstrip("&")), ((k["variant"], ()),))
        if "v" in k:
            return ("i", k["v"])
        if "str" in k:
            return ("s", k["str"])
        if "bytes" in k:
            return ("b", tuple(k["bytes"]) if isinstance(k["bytes"], list) else k["bytes"])
        if k["ty"] == "()":
            return UNIT
        if "def" in k:
            return unk("def", k["def"])
        return unk("const", k["ty"], str(k.get("fbits", "")))

    def operand(self, st, depth, o):
        if o[0] == "k":
            return self.const(o[1])
        return self.read(st, depth, o[1])

    # -- facts / branches ---------------------------------------------------
    def variants_of(self, st, v, adt=None):
        """possible variants of an enum value, or None if unconstrained."""
        v = self.deref(st, v)
        if v[0] == "E":
            return frozenset(n for n, _ in v[2])
        if v[0] == "?":
            f = st.facts.get(v[1])
            if f is not None and f[0] == "v":
                return f[1]
        return None

    def refine_variants(self, st, loc, v, names):
        if loc is not None:
            v = self.load(st, loc)
        n = 0
        while v[0] == "R" and n < 8:
            loc = v[1]
            v = self.load(st, loc)
            n += 1
        v = self.norm(st, v)
        if v[0] == "E":
            keep = tuple(x for x in v[2] if x[0] in names)
            if not keep:
                return False
            if loc is not None and len(keep) != len(v[2]):
                self.write_loc(st, loc, ("E", v[1], keep))
            return True
        if v[0] == "?":
            f = st.facts.get(v[1])
            cur = f[1] if f is not None and f[0] == "v" else None
            new = frozenset(names) if cur is None else (cur & frozenset(names))
            if not new:
                return False
            if new != cur:
                st.fact(v[1], ("v", new))
            return True
        return True

    def truth(self, st, v):
        """1/0 if the boolean is known, else None"""
        v = self.norm(st, v)
        if v[0] == "R":
            v = self.deref(st, v)
        if v[0] == "i":
            return v[1]
        if v[0] == "not":
            t = self.truth(st, v[1])
            return None if t is None else 1 - t
        if v[0] == "isv":
            vs = self.variants_of(st, ("R", v[1], 0) if v[1] is not None else v[2])
            if vs is not None:
                if vs <= v[3]:
                    return 1
                if not (vs & v[3]):
                    return 0
            return None
        if v[0] == "cmp":
            return self.cmp_truth(st, v)
        return None

    def cmp_truth(self, st, v):
        a = self.deref(st, v[2]); b = self.deref(st, v[3])
        if a[0] in ("i", "s") and b[0] in ("i", "s"):
            return 1 if a == b else 0
        if a == b and a[0] == "?":
            return 1
        for x, y in ((a, b), (b, a)):
            if x[0] == "?" and y[0] in ("i", "s"):
                f = st.facts.get(x[1])
                if f is not None and f[0] == "ne" and y[1] in f[1]:
                    return 0
        if a[0] == "E" and b[0] == "E":
            va = {n for n, _ in a[2]}; vb = {n for n, _ in b[2]}
            if not (va & vb):
                return 0
            if len(va) == 1 and va == vb and not a[2][0][1] and not b[2][0][1]:
                return 1
        return None

    def assume(self, st, v, t):
        """refine st so that boolean/integer v equals t; False if impossible."""
        v = self.norm(st, v)
        if v[0] == "R":
            v = self.deref(st, v)
        k = v[0]
        if k == "i":
            return v[1] == t
        if k == "?":
            f = st.facts.get(v[1])
            if f is not None:
                if f[0] == "ne" and t in f[1]:
                    return False
                if f[0] == "i":
                    return f[1] == t
            st.fact(v[1], ("i", t))
            return True
        if k == "not":
            return self.assume(st, v[1], 1 - t) if t in (0, 1) else False
        if k == "isv":
            loc, val, names, allv = v[1], v[2], v[3], v[4]
            if t == 1:
                return self.refine_variants(st, loc, val, names)
            if allv:
                return self.refine_variants(st, loc, val, allv - names)
            # unknown complement: exclude by current knowledge
            vs = self.variants_of(st, ("R", loc, 0) if loc is not None else val)
            if vs is not None:
                rest = vs - names
                if not rest:
                    return False
                return self.refine_variants(st, loc, val, rest)
            return True
        if k == "cmp":
            tr = self.cmp_truth(st, v)
            if tr is not None:
                return tr == t
            a = self.deref(st, v[2]); b = self.deref(st, v[3])
            for x, y in ((a, b), (b, a)):
                if x[0] == "?" and y[0] in ("i", "s"):
                    if t == 1:
                        st.fact(x[1], y)
                    else:
                        f = st.facts.get(x[1])
                        old = f[1] if f is not None and f[0] == "ne" else frozenset()
                        if f is None or f[0] == "ne":
                            st.fact(x[1], ("ne", old | {y[1]}))
                    return True
            return True
        return True

    def assume_not(self, st, v, vals):
        """v is none of vals (otherwise branch)."""
        v = self.norm(st, v)
        if v[0] == "i":
            return v[1] not in vals
        if v[0] == "?":
            f = st.facts.get(v[1])
            if f is not None and f[0] == "i":
                return f[1] not in vals
            if f is None or f[0] == "ne":
                old = f[1] if f is not None else frozenset()
                st.fact(v[1], ("ne", old | frozenset(vals)))
            return True
        if v[0] in ("not", "isv", "cmp"):
            rest = {0, 1} - set(vals)
            if len(rest) == 1:
                return self.assume(st, v, rest.pop())
            return bool(rest)
        return True

    # -- joins --------------------------------------------------------------
    def join_val(self, a, b, phi, fa=None, fb=None):
        if a == b:
            return a
        if a[0] == "U":
            return b
        if b[0] == "U":
            return a
        if a[0] == "A" and b[0] == "A" and a[1] == b[1]:
            da = dict(a[2]); db = dict(b[2])
            if a[1] == "cmd":
                names = [n for n, _ in a[2]] + [n for n, _ in b[2] if n not in da]
            else:
                names = [n for n, _ in a[2]] + [n for n, _ in b[2] if n not in da]
            if S.depth[phi.i] > MAXDEPTH - 6:
                return ("?", phi)
            return ("A", a[1], tuple((n, self.join_val(da.get(n, UNINIT), db.get(n, UNINIT), S(".", phi, n), fa, fb))
                                     for n in names))
        if a[0] == "E" and b[0] == "E" and a[1] == b[1]:
            da = dict(a[2]); db = dict(b[2])
            out = []
            for n in sorted(set(da) | set(db)):
                if n in da and n in db:
                    xa = dict(da[n]); xb = dict(db[n])
                    if S.depth[phi.i] > MAXDEPTH - 6:
                        fs = tuple((m, unk(".", phi, n + "." + m)) for m in xa)
                    else:
                        fs = tuple((m, self.join_val(xa.get(m, UNINIT), xb.get(m, UNINIT), S(".", phi, n + "." + m), fa, fb))
                                   for m in list(xa) + [q for q in xb if q not in xa])
                    out.append((n, fs))
                else:
                    out.append((n, da.get(n, db.get(n))))
            return ("E", a[1], tuple(out))
        if a[0] in ("i", "P") and b[0] in ("i", "P") and all(x[0] == "P" or x[1] > 0 for x in (a, b)):
            return ("P",)
        if a[0] == "L" and b[0] == "L":
            em = a[1] if a[1] == b[1] else "?"
            if a[2] is None:
                el = b[2]
            elif b[2] is None:
                el = a[2]
            else:
                el = self.join_val(a[2], b[2], S("el", phi), fa, fb)
            return ("L", em, el)
        return ("?", phi)

    def join(self, old, new, tag):
        """join new into a copy of old; returns (state, changed)"""
        frames = []
        changed = False
        phis = []
        for d in range(len(old.frames)):
            fo, fn_ = old.frames[d], new.frames[d]
            if fo is fn_:
                frames.append(fo)
                continue
            r = None
            for l, v in fn_.items():
                o = fo.get(l)
                if o is None:
                    continue
                if o is v or o == v:
                    continue
                phi = S("phi", tag, d, l)
                if d < len(old.frames) - 1:
                    phi = S("phi", tag, d, l)
                j = self.join_val(o, v, phi)
                if self.M.track:
                    self.note_phi(j, phi, o, v)
                if j != o:
                    if r is None:
                        r = dict(fo)
                    r[l] = j
                    changed = True
                    if j[0] == "?":
                        phis.append((j[1], o, v))
            drop = [l for l in fo if l not in fn_]
            if drop:
                if r is None:
                    r = dict(fo)
                for l in drop:
                    del r[l]
                changed = True
            frames.append(r if r is not None else fo)
        facts = {}
        for k, v in old.facts.items():
            w = new.facts.get(k)
            if w == v:
                facts[k] = v
            elif w is not None and w[0] == "v" and v[0] == "v":
                facts[k] = ("v", v[1] | w[1])
            elif w is not None and w[0] == "ne" and v[0] == "ne":
                x = v[1] & w[1]
                if x:
                    facts[k] = ("ne", x)
        for phi, o, v in phis:
            if phi in facts:
                del facts[phi]
            a = self._vs(old, o)
            b = self._vs(new, v)
            if a is not None and b is not None:
                facts[phi] = ("v", a | b)
        if facts != old.facts:
            changed = True
        heap = {}
        for k, v in old.heap.items():
            w = new.heap.get(k)
            if w == v:
                heap[k] = v
            elif w is None:
                heap[k] = unk("hphi", tag, k)
            else:
                heap[k] = self.join_val(v, w, S("hphi", tag, k))
        for k, w in new.heap.items():
            if k not in heap:
                heap[k] = unk("hphi", tag, k)
        if heap != old.heap:
            changed = True
        if not changed:
            return old, False
        return State(old.fsm, frames, heap, facts), True

    def note_phi(self, j, phi, o, v):
        src = syms_of(o) | syms_of(v)
        for s in syms_of(j):
            k = S.rev[s.i]
            while k[0] in (".", "el") and isinstance(k[1], Sym):
                k = S.rev[k[1].i]
            if k[0] == "phi":
                d = self.prov.setdefault(s, set())
                d |= src
                d.discard(s)

    def _vs(self, st, v):
        return self.variants_of(st, v)

    # -- function bodies ----------------------------------------------------
    def fninfo(self, fn):
        i = self.info.get(fn.id)
        if i is None:
            i = self.info[fn.id] = liveness(fn)
        return i

    def key(self, st, depth, live, fn):
        ks = []
        fr = st.frames[depth]
        for l in live:
            v = fr.get(l)
            if v is None:
                continue
            if v[0] == "i" and fn.locals[l][0] == "bool":
                ks.append((l, v[1]))
            elif v[0] == "E" and len(v[2]) == 1:
                ks.append((l, v[2][0][0]))
        return (st.fsm, tuple(sorted(ks)))

    def run_body(self, st, fn, args, ctx, stack, helper):
        """analyse fn with the given argument values; returns [(state, retval)]"""
        depth = len(st.frames)
        live, rpo, heads, incyc, succ = self.fninfo(fn)
        self.analysed[fn.id] = self.analysed.get(fn.id, 0) + 1
        fr = {}
        for i, a in enumerate(args):
            fr[i + 1] = a
        st = st.copy()
        st.frames = st.frames + [fr]
        import heapq
        states = {}
        work = []
        inq = set()
        rets = {}
        coarse = set()

        def push(b, s):
            k = self.key(s, depth, live[b], fn)
            bs = states.setdefault(b, {})
            if b in coarse:
                k = (s.fsm, ())
            elif k not in bs and len(bs) >= self.max_states:
                coarse.add(b)
                self.truncated += 1
                items = list(bs.values())
                bs.clear()
                for it in items:
                    kk = (it[0].fsm, ())
                    if kk in bs:
                        bs[kk][0], _ = self.join(bs[kk][0], it[0], (ctx, b))
                    else:
                        bs[kk] = [it[0], 0]
                for kk in bs:
                    if (b, kk) not in inq:
                        inq.add((b, kk))
                        heapq.heappush(work, (rpo.get(b, 0), b, len(inq), kk))
                k = (s.fsm, ())
            # drop dead locals to help joins
            e = bs.get(k)
            if e is None:
                bs[k] = [s, 0]
                ch = True
            else:
                j, ch = self.join(e[0], s, (ctx, b))
                if ch:
                    e[0] = j
                    e[1] += 1
                    if e[1] > 200:
                        raise Incomplete("no convergence in %s" % fn.path)
            if ch and (b, k) not in inq:
                inq.add((b, k))
                self.tick += 1
                heapq.heappush(work, (rpo.get(b, 0), b, self.tick, k))

        push(0, st)
        while work:
            _, b, _, k = heapq.heappop(work)
            if (b, k) not in inq:
                continue
            inq.discard((b, k))
            e = states.get(b, {}).get(k)
            if e is None:
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Incomplete("step budget exhausted in %s" % fn.path)
            s = e[0].copy()
            # forget dead locals
            lv = live[b]
            f = s.frames[depth]
            for nb, ns in self.block(s, fn, b, depth, ctx, stack, helper, incyc):
                if nb == "ret":
                    rv = ns.frames[depth].get(0, UNIT)
                    rv = self.escape(ns, rv, depth)
                    ns.frames = ns.frames[:depth]
                    ns._own = {x for x in ns._own if not (isinstance(x, int) and x >= depth)}
                    vs = self.variants_of(ns, rv) if rv[0] in ("E", "?") else None
                    kk = (ns.fsm, vs if vs is None or len(vs) == 1 else None,
                          rv if rv[0] == "i" else None, b if not rets else None and 0)
                    kk = (ns.fsm, tuple(vs) if vs is not None and len(vs) == 1 else None, rv if rv[0] in ("i",) else rv[0])
                    old = rets.get(kk)
                    if old is None:
                        rets[kk] = (ns, rv)
                    else:
                        o, orv = old
                        j, _ = self.join(o, ns, (ctx, "ret"))
                        jv = self.join_val(orv, rv, S("phi", (ctx, "ret"), depth, 0))
                        if jv[0] == "?" and jv != orv:
                            a, c = self.variants_of(o, orv), self.variants_of(ns, rv)
                            if jv[1] in j.facts:
                                j = j.copy(); j.facts_w().pop(jv[1], None)
                            if a is not None and c is not None:
                                j = j.copy()
                                j.fact(jv[1], ("v", a | c))
                        rets[kk] = (j, jv)
                else:
                    push(nb, ns)
        return list(rets.values())

    def escape(self, st, v, depth):
        """replace references into the dying frame by their content."""
        if v[0] == "R":
            if v[1][0][0] == "l" and v[1][0][1] >= depth:
                return self.escape(st, self.load(st, v[1]), depth)
            return v
        if v[0] in ("A",):
            if not has_ref(v):
                return v
            return ("A", v[1], tuple((n, self.escape(st, x, depth)) for n, x in v[2]))
        if v[0] == "E":
            if not has_ref(v):
                return v
            return ("E", v[1], tuple((vn, tuple((n, self.escape(st, x, depth)) for n, x in fs)) for vn, fs in v[2]))
        if v[0] == "D" or v[0] == "isv":
            t = self.truth(st, v) if v[0] == "isv" else None
            if t is not None:
                return ("i", t)
            if v[0] == "isv" and v[1] is not None and v[1][0][0] == "l" and v[1][0][1] >= depth:
                val = self.deref(st, ("R", v[1], 0))
                return ("isv", None, val, v[3], v[4])
            return v
        if v[0] == "not":
            return ("not", self.escape(st, v[1], depth))
        if v[0] == "cmp":
            return ("cmp", v[1], self.escape(st, v[2], depth), self.escape(st, v[3], depth))
        if v[0] == "L":
            return ("L", v[1], self.escape(st, v[2], depth) if v[2] is not None else None)
        return v

    def rvalue(self, st, fn, depth, r, ctx, b, si):
        k = r[0]
        if k == "use":
            return self.operand(st, depth, r[1])
        if k == "ref":
            loc = self.resolve(st, depth, r[2])
            if loc[0][0] == "h" and not loc[1]:
                # &*unknown : identify with the unknown itself
                return ("?", loc[0][1])
            if loc[0][0] == "h":
                v = self.load(st, loc)
                if r[1] != "m":
                    return v if v[0] == "?" else ("R", loc, 0)
                return ("R", loc, 1)
            return ("R", loc, 1 if r[1] == "m" else 0)
        if k == "agg":
            i = r[1]
            ops = [self.operand(st, depth, o) for o in r[2]]
            if i["k"] == "adt":
                fn_ = i.get("f") or [str(x) for x in range(len(ops))]
                fs = tuple(zip(fn_, ops))
                if "var" in i and self.P.enums.get(i["adt"]) is not None or i.get("enum"):
                    return ("E", i["adt"], ((i["var"], fs),))
                if "base" in i:
                    pass
                return ("A", i["adt"], fs)
            if i["k"] in ("closure", "coroutine"):
                names = i.get("f")
                if not names:
                    names = self.capnames(i["id"], len(ops))
                return ("A", (i["k"], i["id"]), tuple(zip(names, ops)))
            if i["k"] == "tuple":
                if not ops:
                    return UNIT
                return ("A", "tuple", tuple((str(n), v) for n, v in enumerate(ops)))
            if i["k"] == "array":
                return ("A", "array", tuple((str(n), v) for n, v in enumerate(ops)))
            return unk("agg", ctx, b, si)
        if k == "cast":
            return self.operand(st, depth, r[2])
        if k == "bin":
            a = self.operand(st, depth, r[2]); c = self.operand(st, depth, r[3])
            if r[1].startswith("Add"):
                a = self.norm(st, a); c = self.norm(st, c)
                for x, y, o in ((a, c, r[2]), (c, a, r[3])):
                    if x[0] == "?" and (y[0] == "P" or (y[0] == "i" and y[1] > 0)) and self.opty(fn, o) in ("usize", "u64", "u32", "u8", "u16"):
                        return ("A", "tuple", (("0", ("P",)), ("1", FALSE))) if r[1] == "AddWithOverflow" else ("P",)
            return self.binop(st, r[1], a, c)
        if k == "un":
            a = self.operand(st, depth, r[2])
            if r[1] == "Not":
                if a[0] == "i" and a[1] in (0, 1):
                    return ("i", 1 - a[1])
                if a[0] == "not":
                    return a[1]
                return ("not", a)
            return unk("un", r[1], S("v", a))
        if k == "discr":
            loc = self.resolve(st, depth, r[1])
            v = self.load(st, loc)
            if v[0] == "R":
                loc = v[1]
                v = self.deref(st, v)
            adt = r[2]
            vs = self.variants_of(st, v)
            d = {n: x for n, x in self.P.enums.get(adt, [])}
            if vs is not None and len(vs) == 1:
                n = next(iter(vs))
                if n in d:
                    return ("i", d[n])
            return ("D", loc, adt, v)
        if k == "rep":
            return ("L", "?", self.operand(st, depth, r[1]))
        if k == "len":
            return unk("len", ctx, b, si)
        return unk("rv", ctx, b, si)

    def capnames(self, cid, n):
        f = self.P.fns.get(cid)
        names = []
        if f is not None:
            for b in f.blocks:
                pass
        return [str(i) for i in range(n)]

    def binop(self, st, op, a, c):
        a = self.norm(st, a); c = self.norm(st, c)
        if op in ("Eq", "Ne") and (a, c) in ((("P",), ("i", 0)), (("i", 0), ("P",))):
            return ("i", int(op == "Ne"))
        if op in ("Eq", "Ne"):
            if a[0] == "i" and c[0] == "i":
                r = 1 if a[1] == c[1] else 0
                return ("i", r if op == "Eq" else 1 - r)
            if a[0] == "D" or c[0] == "D":
                d, o = (a, c) if a[0] == "D" else (c, a)
                if o[0] == "i":
                    nm = self.P.discr.get(d[2], {}).get(o[1])
                    if nm is not None:
                        allv = frozenset(self.P.variants.get(d[2], ()))
                        v = ("isv", d[1], d[3], frozenset([nm]), allv)
                        return v if op == "Eq" else ("not", v)
            v = ("cmp", "eq", a, c)
            return v if op == "Eq" else ("not", v)
        if a[0] == "i" and c[0] == "i":
            x, y = a[1], c[1]
            try:
                if op in ("Lt", "Le", "Gt", "Ge"):
                    return ("i", int({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]))
                if op == "BitAnd":
                    return ("i", x & y)
                if op == "BitOr":
                    return ("i", x | y)
                if op == "BitXor":
                    return ("i", x ^ y)
            except Exception:
                pass
        if op.startswith("Add") and (a[0] in ("i", "P") and c[0] in ("i", "P")):
            if "P" in (a[0], c[0]):
                ok_ = all(x[0] == "P" or x[1] >= 0 for x in (a, c))
                v = ("P",) if ok_ else unk("bin", op, S("v", a), S("v", c))
            else:
                n = a[1] + c[1]
                v = ("P",) if n > 3 else ("i", n)
            return ("A", "tuple", (("0", v), ("1", FALSE))) if op == "AddWithOverflow" else v
        if "P" in (a[0], c[0]):
            z = {("Gt", "P", 0): 1, ("Ge", "P", 1): 1, ("Ge", "P", 0): 1, ("Lt", "P", 1): 0, ("Le", "P", 0): 0}
            if a[0] == "P" and c[0] == "i" and (op, "P", c[1]) in z:
                return ("i", z[(op, "P", c[1])])
            fl = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op)
            if c[0] == "P" and a[0] == "i" and fl and (fl, "P", a[1]) in z:
                return ("i", z[(fl, "P", a[1])])
        if op in ("BitAnd", "BitOr"):
            for p, q in ((a, c), (c, a)):
                if p == FALSE and op == "BitAnd":
                    return FALSE
                if p == TRUE and op == "BitOr":
                    return TRUE
                if p == TRUE and op == "BitAnd":
                    return q
                if p == FALSE and op == "BitOr":
                    return q
        return unk("bin", op, S("v", a), S("v", c))

    def block(self, st, fn, b, depth, ctx, stack, helper, incyc):
        blk = fn.blocks[b]
        for si, s in enumerate(blk["s"]):
            if s[0] == "=":
                v = self.rvalue(st, fn, depth, s[2], ctx, b, si)
                pl = s[1]
                if pl[1]:
                    last = pl[1][-1]
                    if last == "*" or last[0] == ".":
                        w = self.M.on_write(self, st, fn, pl, last if last == "*" else last[1], v, s[3] if len(s) > 3 else 0)
                        if w is not None:
                            st.fsm = w
                            if w == "DEAD":
                                return []
                self.write(st, depth, pl, v)
            elif s[0] == "setd":
                pass
            elif s[0] == "dead":
                f = st.frame_w(depth)
                f.pop(s[1], None)
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreach", "resume"):
            return []
        if k == "drop":
            w = self.M.drop_event(self, st, fn, t[1], t[3], None, 0)
            if w is not None:
                st.fsm = w
            return [(t[2], st)]
        if k == "assert":
            v = self.operand(st, depth, t[1])
            if not self.assume(st, v, 1 if t[2] else 0):
                return []
            return [(t[4], st)]
        if k == "yield":
            return [(t[2], st)]
        if k == "sw":
            return self.switch(st, depth, t)
        if k == "call":
            return self.call(st, fn, b, t, depth, ctx, stack, helper, b in incyc)
        return []

    def switch(self, st, depth, t):
        v = self.operand(st, depth, t[1])
        v = self.norm(st, v)
        out = []
        if v[0] == "D":
            names = self.P.discr.get(v[2], {})
            seen = set()
            for val, bb in t[2]:
                nm = names.get(val)
                s2 = st.copy()
                if nm is None:
                    out.append((bb, s2))
                    continue
                seen.add(nm)
                if self.refine_variants(s2, v[1], v[3], frozenset([nm])):
                    self.M.on_switch(self, s2, v, frozenset([nm]), True)
                    out.append((bb, s2))
            if t[3] >= 0:
                allv = set(names.values())
                rest = allv - seen
                if rest or not allv:
                    s2 = st.copy()
                    if not allv or self.refine_variants(s2, v[1], v[3], frozenset(rest)):
                        self.M.on_switch(self, s2, v, frozenset(rest), len(rest) == 1)
                        out.append((t[3], s2))
            return self._dedup(out)
        tr = self.truth(st, v)
        if tr is not None:
            for val, bb in t[2]:
                if val == tr:
                    return [(bb, st)]
            return [(t[3], st)] if t[3] >= 0 else []
        for val, bb in t[2]:
            s2 = st.copy()
            if self.assume(s2, v, val):
                out.append((bb, s2))
        if t[3] >= 0:
            s2 = st.copy()
            if self.assume_not(s2, v, [x[0] for x in t[2]]):
                out.append((t[3], s2))
        return self._dedup(out)

    @staticmethod
    def _dedup(out):
        return out

    # -- calls --------------------------------------------------------------
    def call(self, st, fn, b, t, depth, ctx, stack, helper, inloop):
        fo = t[1]
        c = Call()
        c.fn = fn; c.block = b; c.term = t; c.depth = depth; c.ctx = ctx; c.line = t[5]; c.E = self; c.stack = stack
        c.args = [self.operand(st, depth, o) for o in t[2]]
        c.argops = t[2]
        c.argtys = [self.opty(fn, o) for o in t[2]]
        if fo[0] == "k" and "fn" in fo[1]:
            c.k = fo[1]
            c.name = self.P.cname(fo[1])
        else:
            fv = self.operand(st, depth, fo)
            fv = self.deref(st, fv)
            c.k = None
            c.name = "<indirect>"
            if fv[0] == "F":
                c.k = self.fnconst[fv[1]]
                c.name = self.P.cname(c.k)
            elif fv[0] == "A" and isinstance(fv[1], tuple):
                outs = self.call_value(st, fv, c.args, c, stack, helper)
                return self._finish(outs, t, depth, c)
        if inloop:
            self.kill_sym(st, ctx, b, c.name, depth)
        src = self.origins(st, c.args) if self.M.track else None
        outs = self.M.on_call(self, st, c)
        if outs is None:
            outs = self.do_call(st, c, stack, helper)
        if src:
            self.derive(c, outs, src)
        res = []
        for s2, v in outs:
            r = self.M.after_call(self, s2, c, v)
            if r is not None:
                res += r
            else:
                res.append((s2, v))
        return self._finish(res, t, depth, c)

    def kill_sym(self, st, ctx, b, name, depth):
        # a call result re-created by a loop iteration: forget facts about the previous one and detach old copies
        pref = ("r", ctx, b, name)
        roots = [s for s in self._rsyms(pref)]
        if not roots:
            return
        rs = set(roots)

        def derived(s):
            seen = 0
            stackl = [s]
            while stackl and seen < 60:
                x = stackl.pop()
                seen += 1
                if x in rs:
                    return True
                for a in S.rev[x.i][1:]:
                    if isinstance(a, Sym):
                        stackl.append(a)
                    elif isinstance(a, tuple):
                        stackl.extend(syms_of(a))
            return False

        df = [x for x in st.facts if derived(x)]
        if df:
            f = st.facts_w()
            for x in df:
                del f[x]
        dh = [x for x in st.heap if derived(x)]
        if dh:
            h = st.heap_w()
            for x in dh:
                del h[x]

    def _rsyms(self, pref):
        out = []
        for tag in Call.TAGS:
            s = S.tab.get(pref + (tag,))
            if s is not None:
                out.append(s)
        return out

    def _finish(self, outs, t, depth, c):
        res = []
        if t[4] < 0:
            return res
        for s2, v in outs:
            s2 = s2 if True else s2
            self.write(s2, depth, t[3], v)
            res.append((t[4], s2))
        return res

    def opty(self, fn, o):
        if o[0] == "k":
            return o[1].get("ty", "fn")
        if not o[1][1]:
            return fn.locals[o[1][0]][0]
        return "?"

    def should_inline(self, fn, stack, helper):
        r = self.M.inline(fn)
        if r is not None:
            return r
        if fn.id in self.relevant:
            return True
        return fn.nreal <= self.helper_blocks and helper < self.helper_depth

    def do_call(self, st, c, stack, helper):
        k = c.k
        if k is None:
            self.havoc_args(st, c)
            return [(st, c.fresh())]
        h = self.models.get(c.name) or (self.models.get(k["fn"]) if k["fn"] != c.name else None)
        if h is not None:
            r = h(self, st, c)
            if r is not None:
                return r
        if k.get("ctor"):
            return [(st, self.ctor(k, c.args))]
        ts = self.P.targets(k)
        if ts and all(f.derived for f in ts):
            r = self.models.fallback(self, st, c)
            if r is not None:
                return r
        if ts:
            outs = []
            done = False
            for f in ts:
                if self.M.opaque(f):
                    continue
                if f.id in stack or len(stack) > self.max_stack:
                    continue
                if f.kind in ("const", "static"):
                    continue
                if not self.should_inline(f, stack, helper):
                    continue
                done = True
                nh = helper if f.id in self.relevant else helper + 1
                outs += self.run_body(st, f, c.args, S("ctx", c.ctx, c.block, f.id), stack + (f.id,), nh)
            skipped = [f for f in ts if not (self.should_inline(f, stack, helper))]
            if done:
                if skipped:
                    s2 = st.copy()
                    self.havoc_args(s2, c)
                    outs.append((s2, c.fresh()))
                return outs
            self.havoc_args(st, c)
            return [(st, c.fresh())]
        r = self.models.fallback(self, st, c)
        if r is not None:
            return r
        return self.external(st, c, stack, helper)

    def external(self, st, c, stack, helper, times=1):
        """unknown function outside the workspace: closures among the arguments may run zero or more times."""
        fns = []
        for a in c.args:
            v = self.deref(st, a) if a[0] == "R" else a
            if v[0] == "F" or (v[0] == "A" and isinstance(v[1], tuple) and v[1][0] == "closure"):
                fns.append(v)
        outs = [st]
        for f in fns:
            nxt = {}
            for s in outs:
                res = [s.copy()]
                cur = [s]
                for _ in range(2):
                    new = []
                    for s1 in cur:
                        for s2, _v in self.call_value(s1.copy(), f, None, c, stack, helper):
                            new.append(s2)
                    res += new
                    fs = {x.fsm for x in res[:-len(new)]} if new else set()
                    cur = [x for x in new if x.fsm not in fs]
                    if not cur:
                        break
                for r in res:
                    if r.fsm in nxt:
                        nxt[r.fsm], _ = self.join(nxt[r.fsm], r, (c.ctx, c.block, "ext"))
                    else:
                        nxt[r.fsm] = r
            outs = list(nxt.values())
        res = []
        for s in outs:
            s = s.copy()
            self.havoc_args(s, c)
            res.append((s, c.fresh()))
        return res

    def ctor(self, k, args):
        p = k["fn"]
        adt, var = p.rsplit("::", 1)
        fs = tuple((str(i), a) for i, a in enumerate(args))
        if adt in self.P.enums or k.get("ctor") == "variant" or adt in (OPT, RES):
            return ("E", adt, ((var, fs),))
        a = self.P.adts.get(p)
        if a is not None:
            return ("A", p, fs)
        a = self.P.adts.get(adt)
        if a is not None and a.get("enum"):
            return ("E", adt, ((var, fs),))
        return ("A", p, fs)

    def call_value(self, st, f, args, c, stack, helper):
        """call a closure / fn item value.  args None -> unknown arguments."""
        f = self.deref(st, f)
        if f[0] == "A" and isinstance(f[1], tuple) and f[1][0] == "closure":
            body = self.P.fns.get(f[1][1])
            if body is None or body.id in stack or len(stack) > self.max_stack:
                return [(st, c.fresh(f[1][1]))]
            n = body.argc - 1
            if args is None:
                args = [unk("r", c.ctx, c.block, c.name, "arg%d" % i) for i in range(n)]
            args = (list(args) + [unk("r", c.ctx, c.block, c.name, "arg%d" % i) for i in range(len(args), n)])[:n]
            if not self.should_inline(body, stack, helper):
                self.havoc_closure(st, f, c)
                return [(st, c.fresh(f[1][1]))]
            nh = helper if body.id in self.relevant else helper + 1
            return self.run_body(st, body, [f] + args, S("ctx", c.ctx, c.block, body.id), stack + (body.id,), nh)
        if f[0] == "F":
            k = self.fnconst[f[1]]
            c2 = Call()
            for s in Call.__slots__:
                setattr(c2, s, getattr(c, s))
            c2.k = k
            c2.name = self.P.cname(k)
            c2.args = list(args) if args is not None else [c.fresh("fnarg")]
            c2.argtys = ["?"] * len(c2.args)
            c2.argops = []
            c2.term = c.term
            src = self.origins(st, c2.args) if self.M.track else None
            outs = self.M.on_call(self, st, c2)
            if outs is None:
                outs = self.do_call(st, c2, stack, helper)
            if src:
                self.derive(c2, outs, src)
            return outs
        return [(st, c.fresh("ind"))]

    def havoc_closure(self, st, f, c):
        for n, x in f[2]:
            for loc in mut_refs(x):
                self.write_loc(st, loc, unk("hv", c.ctx, c.block, n))

    def poll(self, st, fut, c, stack, helper):
        """result of driving a future to completion: [(state, output)]"""
        fut = self.deref(st, fut)
        if fut[0] == "A" and isinstance(fut[1], tuple) and fut[1][0] == "coroutine":
            body = self.P.fns.get(fut[1][1])
            if body is not None and body.id not in stack and len(stack) <= self.max_stack:
                if self.should_inline(body, stack, helper):
                    nh = helper if body.id in self.relevant else helper + 1
                    return self.run_body(st, body, [fut, unk("taskctx")], S("ctx", c.ctx, c.block, body.id),
                                         stack + (body.id,), nh)
                self.havoc_closure(st, fut, c)
        if fut[0] == "A" and fut[1] == "ready":
            return [(st, fut[2][0][1])]
        return [(st, c.fresh("out"))]

    # -- entry --------------------------------------------------------------
    def run(self, fn, fsm=None, argvals=None, facts=None):
        st = State(self.M.init if fsm is None else fsm, [], {}, dict(facts or {}))
        args = []
        for i in range(1, fn.argc + 1):
            nm = fn.local_name(i) or "arg%d" % i
            v = argvals.get(nm) if argvals else None
            if v is None:
                v = self.M.on_param(self, fn, i, nm, fn.locals[i][0])
            if v is None:
                v = unk("p", nm)
            args.append(v)
        ctx = S("ctx", "root", 0, fn.id)
        outs = self.run_body(st, fn, args, ctx, (fn.id,), 0)
        res = []
        for s, v in outs:
            w = self.deref(s, v)
            if w[0] == "A" and isinstance(w[1], tuple) and w[1][0] == "coroutine":
                c = Call()
                c.fn = fn; c.block = -1; c.ctx = ctx; c.name = "<await root>"; c.line = fn.line
                c.k = None; c.args = []; c.argtys = []; c.depth = 0; c.term = None; c.E = self; c.stack = (fn.id,)
                c.argops = []
                res += self.poll(s, w, c, (fn.id,), 0)
            else:
                res.append((s, v))
        return res


@lru_cache(maxsize=200000)
def mut_refs(v):
    out = []
    if v[0] == "R":
        if v[2]:
            out.append(v[1])
    elif v[0] == "A":
        for _, x in v[2]:
            out += mut_refs(x)
    elif v[0] == "E":
        for _, fs in v[2]:
            for _, x in fs:
                out += mut_refs(x)
    return tuple(out)


@lru_cache(maxsize=200000)
def has_ref(v):
    if v[0] in ("R", "isv", "cmp", "not"):
        return True
    if v[0] == "A":
        return any(has_ref(x) for _, x in v[2])
    if v[0] == "E":
        return any(has_ref(x) for _, fs in v[2] for _, x in fs)
    if v[0] == "L":
        return v[2] is not None and has_ref(v[2])
    return False
