"""P22: what a package.py says and the reader does not understand is an error, never left out."""
import re
from ..absint import Engine, Monitor, Incomplete, S, RES, OPT, ok, err, unk, TRUE, FALSE, some, NONE
from ..models import MODELS

RULE = ("Obligation analysis of the package.py reader, one function at a time. Every syntax-tree parameter is something to be understood; so is every "
        "node, operator and value that reaches the remaining arm of a match, every identifier that equals none of the names it is compared with, and every "
        "node for which a function of the reader reported an error. It counts as understood once it or a part of it is handed to a function of the "
        "reader that succeeds, iterated over, recognised by an arm that names it, or found equal to a name. No path may return Ok with something left. "
        "Besides, every attribute the reader knows is stored under its own name, and what was stored arrives in the package. "
        "Obligation = (function, thing to be understood).")

AST = re.compile(r"^rustpython_ast::")
NODE = re.compile(r"^&(mut )?\[?rustpython_ast::")
READ = re.compile(r"::(iter|into_iter|insert|push|extend)$")
# understood without doing anything: they add nothing to a package
AS_STR = re.compile(r"^rustpython_ast::.*::(as_str|as_ref|deref)$")
ITEM = re.compile(r"^\[T\]::(first|last|get)$|^<(alloc::vec::Vec|\[T\]) as core::ops::index::Index>::index$")
EFFECT = re.compile(r"\.Expr\.0\.value$")           # the expression of an expression statement; only a call has an effect
INERT = {"Pass", "Import", "ImportFrom"}


class M(Monitor):
    init = frozenset()
    track = True

    def __init__(self, P, mod, root, value, prefix):
        self.P, self.mod, self.root, self.value, self.prefix = P, mod, root, value, prefix
        self.of = {}
        self.seen = set()

    def event(self, n, k):
        return n.startswith(self.prefix) and any(f.id in self.mod for f in self.P.targets(k))

    def inline(self, f):
        r = self.P.root(f)
        if r is self.root:
            return True
        if r.id in self.mod:
            return False
        return True if r.path.startswith(self.prefix) else None

    # -- the things not understood: (what, symbol) --
    def add(self, st, kind, s):
        self.seen.add((kind, S.show(("?", s))[:80]))
        st.fsm = st.fsm | {(kind, s)}

    def clear(self, st, gone):
        st.fsm = frozenset(x for x in st.fsm if not gone(x))

    def node(self, E, st, v):
        """the symbol v stands for, if any"""
        w = E.deref(st, v)
        return w[1] if w[0] == "?" else None

    def above(self, E, s):
        """s and everything it is a part of, or was evaluated from"""
        up = E.closure_syms(s)
        for x in list(up):
            for y in self.of.get(x, ()):
                up = up | {y}
        return up

    def on_switch(self, E, st, v, names, explicit):
        adt = v[2]
        if adt == OPT and names == {"None"}:
            s = self.node(E, st, v[3])
            if s is not None and any(S.rev[x.i][0] == "." and S.rev[x.i][2] == "keys" for x in E.closure_syms(s)):
                self.add(st, "unpacked dictionary", s)
            return
        if not AST.search(adt) and adt != self.value:
            return
        s = self.node(E, st, v[3])
        if s is None:
            return
        kind = adt.rsplit("::", 1)[1]
        if kind == "Expr" and "Call" not in names and EFFECT.search(S.show(("?", s))):
            up = E.closure_syms(s)
            self.clear(st, lambda x: x[1] in up)
            return
        if not explicit:
            self.add(st, kind, s)
            return
        up = self.above(E, s)
        if kind == "Stmt" and names <= INERT:
            self.clear(st, lambda x: x[1] in up)
            return
        # named by an arm; the parts of a statement or an expression have still to be understood.  A value that was not what
        # was expected, or could not be computed, is made good by looking at the expression itself.
        if kind == "Expr" and names == {"Call"} and EFFECT.search(S.show(("?", s))):
            self.add(st, "keywords", S(".", S(".", s, "Call.0"), "keywords"))
        whole = kind not in ("Stmt", "Expr")
        self.clear(st, lambda x: x[1] == s and x[0] != "parameter" or x[1] in up and (x[0] == "failed" or whole)
                   or AST.search(adt) and x[0] == "PythonValue" and self.above(E, x[1]) & up)

    def on_call(self, E, st, c):
        n = c.name
        if c.k is not None:
            ts = [f for f in self.P.targets(c.k) if f.id in self.mod]
            if ts:
                good, bad = st.copy(), st.copy()
                okv = c.fresh("ok")
                for a, ty in zip(c.args, c.argtys):
                    s = self.node(E, st, a) if NODE.search(ty) else None
                    if s is not None:
                        self.understood(E, good, s)
                        self.add(bad, "failed", s)
                        self.of.setdefault(okv[1], set()).add(s)
                return [(good, ok(okv)), (bad, err(c.fresh("err")))]
        if AS_STR.search(n):
            w = E.deref(st, c.args[0])
            return [(st, w)] if w[0] in ("?", "s") else None
        if n.endswith("::is_empty"):
            s = self.node(E, st, c.args[0])
            if s is not None and S.rev[s.i][0] == "." and S.rev[s.i][2] == "keywords":
                yes = st.copy()
                self.clear(yes, lambda x: x[1] == s)
                return [(yes, TRUE), (st.copy(), FALSE)]
        if ITEM.search(n):
            ws = tuple(E.deref(st, a) for a in c.args)
            if all(w[0] in ("?", "i") for w in ws):
                return [(st, unk("pure", n.rsplit("::", 1)[1], ws))]
        if n.endswith("PartialEq>::eq") and len(c.args) == 2:
            for a, b in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                w, o = E.deref(st, a), E.deref(st, b)
                if o[0] == "s" and w[0] == "?":
                    up = E.closure_syms(w[1])
                    if any(S.rev[x.i][0] == "." and S.rev[x.i][2] in ("id", "attr") for x in up):
                        yes, no = st.copy(), st.copy()
                        self.clear(yes, lambda x: x[1] in up)
                        yes.fact(w[1], o)
                        self.add(no, "name", w[1])
                        return [(yes, TRUE), (no, FALSE)]
        if READ.search(n):
            for a in c.args:
                s = self.node(E, st, a)
                if s is not None:
                    self.understood(E, st, s)
        if n.endswith("HashMap::get") and len(c.args) == 2:
            # looked up by name: found, or a name that is not known
            s = self.node(E, st, c.args[1])
            if s is not None and E.closure_syms(s) & {x[1] for x in st.fsm if x[0] == "parameter"}:
                yes, no = st.copy(), st.copy()
                self.understood(E, yes, s)
                self.add(no, "name", s)
                return [(yes, some(c.fresh("found"))), (no, NONE)]
        return None

    def understood(self, E, st, s):
        up = self.above(E, s)
        self.clear(st, lambda x: s in E.closure_syms(x[1]) or x[0] == "parameter" and x[1] in up)


def module(P):
    return [f for f in P.fns.values() if "::python_ast_parser::" in f.path and f.kind in ("fn", "method") and not f.derived
            and f.ret_ty().split("<")[0] == RES]


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    fns = module(P)
    prefix = "rez_next_package::python_ast_parser::"
    value = next((a for a in P.adts if a.endswith("python_ast_parser::types::PythonValue")), None)
    mod = {f.id for f in fns}
    seen = 0
    for f in sorted(fns, key=lambda f: f.path):
        m = M(P, mod, f, value, prefix)
        E = Engine(P, m, MODELS)
        init = set()
        for i in range(1, f.argc + 1):
            nm = f.local_name(i) or "arg%d" % i
            if NODE.search(f.locals[i][0]) and not f.locals[i][0].endswith(("::StmtImport", "::StmtImportFrom")):
                init.add(("parameter", unk("p", nm)[1]))
                m.seen.add(("parameter", nm))
            if f.locals[i][0].endswith("::ExprCall"):
                init.add(("keywords", S(".", unk("p", nm)[1], "keywords")))
        try:
            outs = E.run(f, fsm=frozenset(init))
        except Incomplete as e:
            r.violation("incomplete:" + f.path, str(e))
            continue
        r.fns |= set(E.analysed)
        seen += len(m.seen)
        r.obligation("%s: %s" % (f.path, ", ".join(sorted("%s %s" % x for x in m.seen))), len(m.seen))
        for st, v in outs:
            v = E.deref(st, v)
            if not st.fsm or E.variants_of(st, v) == {"Err"}:
                continue
            for kind, s in sorted(st.fsm, key=str):
                r.violation("%s leaves out %s %s" % (f.path, kind, S.show(("?", s))[:80]),
                            "%s (%s) can return %s with %s %s not understood" % (f.path, f.file, S.show(v)[:120], kind, S.show(("?", s))[:120]))
    r.floor("things_to_be_understood", seen, 60)
    attributes(ctx, fns, mod, value, prefix)


DATA = "python_ast_parser::types::PackageData"
STORED = {"commands": "commands_function"}


class A(M):
    """reads the attributes: what fills the intermediate structure is analysed in context"""

    def fills(self, f):
        return any(f.locals[i][0].startswith("&mut ") and f.locals[i][0].endswith(DATA) for i in range(1, f.argc + 1))

    def inline(self, f):
        r = self.P.root(f)
        return True if self.fills(r) and r.path.startswith(self.prefix) else M.inline(self, f)

    def on_call(self, E, st, c):
        if c.k is not None and any(self.fills(f) for f in self.P.targets(c.k)):
            return None
        if c.name.endswith("PartialEq>::eq"):
            return None
        return M.on_call(self, E, st, c)


def attributes(ctx, fns, mod, value, prefix):
    P, r = ctx.P, ctx.r
    data = next((a for a in P.adts if a.endswith(DATA)), None)
    if data is None:
        return
    fields = [f["n"] for f in P.adts[data]["vars"][0]["f"] if f["n"] != "extra_fields"]
    n = 0
    for f in fns:
        tys = [f.locals[i][0] for i in range(1, f.argc + 1)]
        names = [f.local_name(i) or "arg%d" % i for i in range(1, f.argc + 1)]
        if "&str" in tys and any(t.endswith("generic::Expr") for t in tys) and any(t.startswith("&mut ") and t.endswith(DATA) for t in tys):
            at, ex, pd = names[tys.index("&str")], next(n for n, t in zip(names, tys) if t.endswith("generic::Expr")), \
                next(n for n, t in zip(names, tys) if t.endswith(DATA))
            inv = {v: k for k, v in STORED.items()}
            for fl in fields:
                a = inv.get(fl, fl)
                m = A(P, mod, f, value, prefix)
                E = Engine(P, m, MODELS)
                exs = unk("p", ex)[1]
                good = False
                for st, v in E.run(f, fsm=frozenset(), argvals={at: ("s", a)}):
                    if E.variants_of(st, E.deref(st, v)) == {"Err"}:
                        continue
                    good = True
                    w = E.deref(st, E.field(st, E.deref(st, unk("p", pd)), fl))
                    if not any(exs in m.above(E, s) for o in E.origins(st, [w]) for s in E.closure_syms(o)):
                        r.violation("attribute %s is not stored" % a, "%s (%s): after reading %s, %s holds %s" % (f.path, f.file, a, fl, S.show(w)[:120]))
                n += 1
                if not good:
                    r.violation("attribute %s is never accepted" % a, "%s (%s)" % (f.path, f.file))
                r.obligation("%s: attribute %s is stored" % (f.path, a))
        if data in tys:
            have = {x["n"] for x in P.adts["rez_next_package::package::types::Package"]["vars"][0]["f"]}
            nm = names[tys.index(data)]
            m = A(P, mod, f, value, prefix)
            E = Engine(P, m, MODELS)
            facts = {unk(".", unk("p", nm)[1], x["n"])[1]: ("v", frozenset(["Some"])) for x in P.adts[data]["vars"][0]["f"]
                     if x["ty"].startswith("core::option::Option<")}
            for st, v in E.run(f, fsm=frozenset(), facts=facts):
                v = E.deref(st, v)
                if E.variants_of(st, v) == {"Err"}:
                    continue
                pk = E.deref(st, E.field(st, v, "0", "Ok"))
                for fl in fields:
                    if fl not in have:
                        continue
                    w = E.deref(st, E.field(st, pk, fl))
                    src = unk(".", unk("p", nm)[1], fl)[1]
                    if not E.derived(st, w, lambda k: k == S.rev[src.i]):
                        r.violation("%s is lost" % fl, "%s (%s): the package's %s is %s" % (f.path, f.file, fl, S.show(w)[:120]))
                    n += 1
                    r.obligation("%s: %s arrives in the package" % (f.path, fl))
    r.floor("attributes", n, 50)
