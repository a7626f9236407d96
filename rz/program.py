"""Loads the MIR dump of the workspace and offers call-graph queries over it."""
import gc, glob, json, marshal, os, re

from .dump import load_crate

SKIP_CRATES = {"parser_test", "scanner_benchmark", "simple_scanner_test",
               "test_astar_simple", "test_astar_standalone"}


try:
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "params.json")) as _f:
        PARAMS = json.load(_f)
except OSError:
    PARAMS = {}


class Fn:
    __slots__ = ("id", "path", "kind", "file", "line", "end", "_body", "_blob", "argc",
                 "parent", "self_ty", "trait", "tid", "derived", "pub", "attrs", "crate",
                 "intrait", "macro", "_calls", "_refs", "nreal")

    def __init__(self, d, crate):
        self.id = d["id"]; self.path = d["path"]; self.kind = d["kind"]
        self.file = d["file"]; self.line = d["line"]; self.end = d["end"]
        self.argc = d["argc"]; self._blob = d["blob"]; self._body = None
        self.parent = d.get("parent"); self.self_ty = d.get("self")
        self.trait = d.get("trait"); self.tid = d.get("tid"); self.derived = "derived" in d
        self.pub = d.get("pub", False); self.attrs = d.get("attrs", [])
        self.intrait = d.get("intrait"); self.crate = crate; self.macro = "macro" in d
        self._calls = None; self._refs = d["refs"]
        self.nreal = d["nreal"]

    def body(self):
        if self._body is None:
            self._body = marshal.loads(self._blob)
        return self._body

    @property
    def blocks(self):
        return self.body()[0]

    @property
    def locals(self):
        return self.body()[1]

    @property
    def dbg(self):
        return self.body()[2]

    @property
    def name(self):
        return re.sub(r"^.*::", "", self.path)

    def __repr__(self):
        return "Fn(%s)" % self.path

    def local_name(self, i):
        l = self.locals[i]
        n = l[1] if len(l) > 1 else None
        if 1 <= i <= self.argc:
            t = PARAMS.get(self.path)
            if t and len(t) == self.argc and n not in t and t[i - 1]:
                return t[i - 1]         # renamed parameter of a public function: same position
        return n

    def ret_ty(self):
        return self.locals[0][0]

    def calls(self):
        """[(block, term)] of every non-cleanup call terminator."""
        if self._calls is None:
            self._calls = [(i, b["t"]) for i, b in enumerate(self.blocks)
                           if not b["c"] and b["t"][0] == "call"]
        return self._calls

    def fn_refs(self):
        """every function constant, closure or coroutine this body mentions."""
        return self._refs


class Program:
    def __init__(self, dump_dir, crates=None):
        gc.disable()
        self.fns = {}
        self.by_path = {}
        self.adts = {}
        self.enums = {}
        self.impls = []
        self.impl_by_tid = {}
        self.crates = []
        self.skipped = []
        self.children = {}
        for f in sorted(glob.glob(os.path.join(dump_dir, "*.json"))):
            nm = os.path.basename(f)[:-5]
            crate = nm.split(".")[0]
            if crate in SKIP_CRATES or (crates and crate not in crates):
                continue
            d = load_crate(f)
            self.crates.append(crate)
            self.skipped += d["skipped"]
            for x in d["fns"]:
                fn = Fn(x, crate)
                if fn.id in self.fns:
                    continue
                self.fns[fn.id] = fn
                self.by_path.setdefault(fn.path, []).append(fn)
                if fn.tid:
                    self.impl_by_tid.setdefault(fn.tid, []).append(fn)
                if fn.parent:
                    self.children.setdefault(fn.parent, []).append(fn)
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for k, v in d["enums"].items():
                self.enums[k] = v
            for i in d["impls"]:
                i["crate"] = crate
                self.impls.append(i)
        self.discr = {k: {dv: n for n, dv in v} for k, v in self.enums.items()}
        self.variants = {k: [n for n, _ in v] for k, v in self.enums.items()}
        self._callees = {}
        self._callers = None
        for f in list(self.fns.values()):
            if f.name.startswith(("__pymethod_", "__pyfunction_")):
                # what Python can call is public, whatever its Rust visibility
                for k in f.fn_refs():
                    for i in (k.get("rid"), k.get("id")):
                        g = self.fns.get(i)
                        if g is not None and g.crate == f.crate and g.kind in ("fn", "method") and not g.derived:
                            g.pub = True

    # -- lookup -------------------------------------------------------------
    def find(self, pattern, kind=None):
        r = re.compile(pattern)
        return [f for f in self.fns.values() if r.search(f.path) and (kind is None or f.kind == kind)]

    def one(self, path):
        l = self.by_path.get(path, [])
        return l[0] if l else None

    def root(self, fn):
        """outermost fn a closure/coroutine belongs to"""
        while fn.parent and fn.parent in self.fns:
            fn = self.fns[fn.parent]
        return fn

    # -- calls --------------------------------------------------------------
    def targets(self, k):
        """workspace bodies a function constant may denote."""
        rid = k.get("rid", k["id"])
        if rid in self.fns and not ("trait" in k and not k.get("res") and not k.get("rid")):
            return [self.fns[rid]]
        out = []
        if "trait" in k and not (k.get("res") and not k.get("virt")):
            out = list(self.impl_by_tid.get(k["id"], []))
            if k["id"] in self.fns:
                out.append(self.fns[k["id"]])
        elif rid in self.fns:
            out = [self.fns[rid]]
        return out

    @staticmethod
    def cname(k):
        return k.get("rfn") or k["fn"]

    def callees(self, fn):
        """workspace functions mentioned by fn (calls, closures, fn items), resolved with CHA."""
        c = self._callees.get(fn.id)
        if c is None:
            c = []
            seen = set()
            for k in fn.fn_refs():
                if k.get("agg"):
                    t = [self.fns[k["id"]]] if k["id"] in self.fns else []
                else:
                    t = self.targets(k)
                for x in t:
                    if x.id not in seen:
                        seen.add(x.id)
                        c.append(x)
            self._callees[fn.id] = c
        return c

    def callers(self):
        if self._callers is None:
            r = {}
            for f in self.fns.values():
                for c in self.callees(f):
                    r.setdefault(c.id, []).append(f)
            self._callers = r
        return self._callers

    def reaching(self, pred):
        """ids of functions from which a body satisfying pred(fn) is reachable (inclusive)."""
        cr = self.callers()
        work = [f for f in self.fns.values() if pred(f)]
        seen = {f.id for f in work}
        while work:
            f = work.pop()
            for g in cr.get(f.id, []):
                if g.id not in seen:
                    seen.add(g.id)
                    work.append(g)
        return seen

    def reachable(self, roots):
        work = list(roots)
        seen = {f.id: f for f in work}
        while work:
            f = work.pop()
            for g in self.callees(f):
                if g.id not in seen:
                    seen[g.id] = g
                    work.append(g)
        return seen

    def ext_calls(self, fn):
        """[(block, name, const, term)] of every direct call in fn"""
        out = []
        for b, t in fn.calls():
            o = t[1]
            if o[0] == "k" and "fn" in o[1]:
                out.append((b, self.cname(o[1]), o[1], t))
        return out


def decode_fmt(bs):
    """decode a core::fmt template into literal pieces and placeholder indices."""
    out = []
    i = 0
    arg = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf-8", "replace"))
            i += b
        elif b == 0x80:
            l = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + l]).decode("utf-8", "replace"))
            i += l
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                arg = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(arg)
            arg += 1
    return out
