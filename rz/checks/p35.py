"""P35: the resolver accounts for every requirement and chooses only packages it has checked."""
import re
from ..absint import Monitor, S, Sym, NONE, some, unk, TRUE, FALSE, RES, ok, err
from ..lib import run_root
from ..models import loc_of
from .p09 import ret_of

RULE = ("Typestate analysis of the resolver (DependencyResolver::resolve with everything it calls inlined), in strict and in lenient mode, over all "
        "outcomes of every comparison of names, of Requirement::is_satisfied_by and of every list being empty or not. Every requirement taken from the "
        "queue must, before the next one is taken, have been found met by a chosen package, no longer active, weak with its package absent, recorded as "
        "failed, or followed by a choice that queues all requirements again; a package is chosen only after its version passed the requirement and the "
        "pre-release setting, after it was compared with the conflict requirements (and matched none) and, in strict mode, with all active requirements "
        "of its name (and met them all); after a choice its requirements and conflicts are recorded and the queue is rebuilt; a failed requirement is "
        "forgotten only when inactive or met; strict mode returns Ok only without failed requirements; a cycle is an error. "
        "Obligation = (construct, rule) instance.")

PKG = re.compile(r"alloc::sync::Arc<rez_next_package::package::types::Package[,>]|Arc<rez_next_package::[\w:]*Package>")
REQ = "rez_next_package::requirement::types::Requirement"
RPI = "ResolvedPackageInfo"
ITER = re.compile(r"^(\[T\]|alloc::vec::Vec|alloc::collections::vec_deque::VecDeque)::(iter|iter_mut|drain|into_iter)$|IntoIterator>?::into_iter$"
                  r"|HashMap::(values|values_mut|iter|into_values)$")
SAME = re.compile(r"Iterator::(cloned|copied|by_ref|rev|peekable|flatten|into_iter|fuse|inspect|chain)$")
PART = re.compile(r"Iterator::(take|skip|step_by|take_while|skip_while|map_while)$")
PRED = re.compile(r"Iterator>?::(find|any|all|position)$")
NEXT = re.compile(r"Iterator>?::next$")
EQ = re.compile(r"core::cmp::PartialEq>?::(eq|ne)$")
FIELDS = ("resolved_packages", "conflict_requirements", "active_requirements", "failed_requirements", "requirement_queue",
          "package_requirements", "package_conflict_requirements", "original_requirements", "package_conflict_requirements")


def riter(src, extra=""):
    return ("A", "riter", (("src", ("s", src)), ("x", ("s", extra))))


def elem(src):
    return unk("elem35", src)


class M(Monitor):
    init = frozenset()

    def __init__(self, P, strict):
        self.P = P
        self.strict = strict
        self.ob = set()
        self.keys = set()
        self.memo = {}
        self.crate = "rez_next_solver"

    # ---- state -----------------------------------------------------------
    def get(self, st, k, d=None):
        for a, b in st.fsm:
            if a == k:
                return b
        return d

    def put(self, st, **kw):
        s = st.copy()
        f = dict(st.fsm)
        for k, v in kw.items():
            if v is None:
                f.pop(k, None)
            else:
                f[k] = v
        s.fsm = frozenset(f.items())
        return s

    def decide(self, st, k, keep=True):
        """[(state, 0/1)] for the fact k, which stays the same until it is reset"""
        self.keys.add(k)
        v = self.get(st, k)
        if v is not None and keep:
            return [(st.copy(), v)]
        return [(self.put(st, **{k: 1}), 1), (self.put(st, **{k: 0}), 0)]

    # ---- what a value is -------------------------------------------------
    def owner(self, E, st, v, n=0, raw=False):
        """the thing (requirement R, candidate, element of a list) a value is a part of"""
        v = E.deref(st, v)
        if v[0] == "A" and n < 4:
            for nm, x in v[2]:
                if nm in ("name", "package", "0"):
                    o = self.owner(E, st, x, n + 1, raw)
                    if o:
                        return o
            return None
        if v[0] != "?":
            return None
        s = v[1]
        for _ in range(12):
            k = S.rev[s.i]
            if k[0] == "elem35":
                return "C" if k[1].startswith("Cok") and not raw else k[1]
            if k[0] in (".", "el", "clone", "deref") and isinstance(k[1], Sym):
                s = k[1]
                continue
            if k[0] == "v" and isinstance(k[1], tuple) and k[1] and k[1][0] == "?":
                s = k[1][1]
                continue
            return None
        return None

    def src(self, E, st, a, c):
        loc, v = loc_of(E, st, a)
        if v[0] == "A" and v[1] == "riter":
            return v[2][0][1][1]
        if v[0] == "?":
            o = self.owner(E, st, v)
            if o in ("L:active", ):
                return "active_requirements"
            if S.rev[v[1].i][0] == ".":
                f = S.rev[v[1].i][2]
                if f in FIELDS:
                    return f
        if loc is not None:
            for e in reversed(loc[1]):
                if e != "*" and e[0] == "." and e[1] in FIELDS:
                    return e[1]
        tys = " ".join((c.k or {}).get("ga", [])) + " " + (c.argtys[0] or "")
        if PKG.search(tys):
            return "packages"
        if RPI in tys:
            return "resolved_packages"
        return None

    # ---- engine interface --------------------------------------------------
    def event(self, n, k):
        return (n.endswith(("::pop_front", "::is_satisfied_by")) or bool(ITER.search(n)) or bool(PRED.search(n))) and k is not None

    def inline(self, f):
        if f.crate == self.crate:
            r = ret_of(self.P, self.P.root(f))
            # what only computes an index, a text or a number decides nothing that is tracked here
            g = self.P.root(f)
            return bool(re.search(r"Package|Requirement|Resol|bool|^\(\)$", r)) and any(
                re.search(r"Resolution|DependencyResolver|Package", t[0]) for t in g.locals[1:g.argc + 1])
        return False

    def opaque(self, f):
        return f.crate != self.crate

    def writes_of_interest(self, f):
        return f.crate == self.crate

    def on_field(self, E, st, sym, field):
        if field == "strict_mode":
            return ("i", self.strict)
        if field == "weak" and S.rev[S.rev[sym.i][1].i] == ("elem35", "R"):
            return ("i", self.get(st, "weak", 0))
        if field == "version" and S.rev[S.rev[sym.i][1].i] == ("elem35", "C"):
            v = self.get(st, "nov")
            return None if v is None else NONE if v else some(unk(".", sym, "Some.0"))
        if field == "allow_prerelease":
            return FALSE
        return None

    def bad(self, E, key, msg, c, st=None):
        E.violation(key, "%s%s" % (msg, "" if c is None else " (%s)" % c.fn.path))

    def discharged(self, E, st):
        g = lambda k: self.get(st, k)
        if g("done") or g("active") == 0:
            return True
        if g("met") == 1 or g("present") == 1 and (g("rsat") == 1 or g("met") is None and self.nov(E, st, "resolved_packages")):
            return True
        return g("weak") == 1 and g("present") == 0

    def settle(self, E, st, c, when):
        if self.get(st, "pend") and not self.discharged(E, st):
            self.bad(E, "a requirement is dropped", "a requirement taken from the queue is neither met nor reported as failed when " + when, c, st)
            return False
        if self.get(st, "chosen"):
            todo = [k for k in ("reqs", "confs", "queue") if not self.get(st, k)]
            if todo:
                self.bad(E, "a chosen package's requirements are not followed", "after a package was chosen, its %s are not taken up when %s" %
                         (" and ".join({"reqs": "requirements", "confs": "conflict requirements", "queue": "requirements (queue)"}[t] for t in todo), when), c)
                return False
        return True

    def closure(self, E, st, c, src):
        """runs the predicate of find/any/filter on one element: [(state, truth)]"""
        out = []
        el = elem({"packages": "C", "failed_requirements": "R"}.get(src, src))
        if src == "packages" and self.get(st, "nov35") is None:
            s = self.newcand(E, st.copy())
            out = []
            for b in (0, 1):
                for s2, t in self.closure(E, self.put(s, nov=b, nov35=1), c, src):
                    out.append((self.put(s2, nov35=None), t))
            return out
        s0 = st.copy()
        self.renew(s0, el)
        s0.heap_w()[S("slot35", src)] = el
        arg = ("R", (("h", S("slot35", src)), ()), 0)
        if c.name.endswith(("::find", "::filter")):       # these predicates take a reference to the item
            s0.heap_w()[S("slot35b", src)] = arg
            arg = ("R", (("h", S("slot35b", src)), ()), 0)
        for s, v in E.call_value(s0, c.args[1], [arg], c, c.stack, 0):
            t = E.truth(s, v)
            for b in (0, 1) if t is None else (t,):
                s2 = s.copy()
                if t is None and not E.assume(s2, v, b):
                    continue
                out.append((s2, b))
        return out

    def renew(self, s, el):
        """an element is looked at afresh: what was stored into the one before does not count"""
        h = s.heap_w()
        for x in [x for x in h if x == el[1] or S.rev[x.i][0] == "." and S.rev[x.i][1] == el[1]]:
            del h[x]

    def nov(self, E, st, what):
        """is the version of what known to be absent?"""
        if what == "C" and self.get(st, "nov") is not None:
            return self.get(st, "nov") == 1
        e = elem(what)
        if what == "resolved_packages":
            e = E.field(st, e, "package")
        vs = E.variants_of(st, E.field(st, E.deref(st, e), "version"))
        return vs == {"None"}

    def newcand(self, E, st):
        self.renew(st, elem("C"))
        E.kill_below(st, elem("C")[1])
        return self.put(st, xname=None, xsat=None, xlook=None, asat=None, alook=None, fsat=None, pre=None, nov=None, seen=None)

    def safe(self, E, s, look):
        """is the candidate known to be compatible with the element just looked at?"""
        if look == "alook":
            return self.get(s, "asat") == 1
        return self.get(s, "xname") == 0 or self.get(s, "xsat") == 0

    def after_pred(self, E, s, src):
        """what one look at a list has shown, without how it was shown"""
        g = lambda k: self.get(s, k)
        if src == "resolved_packages":
            if g("present") == 1 and (g("rsat") == 1 or self.nov(E, s, "resolved_packages")):
                s = self.put(s, met=1, rsat=None)
            else:
                s = self.put(s, met=0 if g("rsat") == 0 else None, rsat=None)
            E.kill_below(s, elem("resolved_packages")[1])
        elif src == "conflict_requirements":
            s = self.put(s, xname=None, xsat=None, xlook=1 if self.safe(E, s, "xlook") and g("xlook") != 2 else 2)
        elif src == "active_requirements":
            s = self.put(s, asat=None, alook=1 if self.safe(E, s, "alook") and g("alook") != 2 else 2)
        return s

    def summary(self, E, st, c):
        """effect of a method that only changes the resolution state, computed once per monitor state"""
        ts = self.P.targets(c.k) if c.k is not None else []
        if len(ts) != 1 or ts[0].crate != self.crate or not ts[0].locals[1:2] or ts[0] is E.root:
            return None
        f = ts[0]
        rt = ret_of(self.P, f)
        if not (rt == "()" or rt.startswith(RES + "<bool,")) or not any(
                t[0].startswith("&mut") and "ResolutionState" in t[0] for t in f.locals[1:f.argc + 1]):
            return None
        if any(RPI in t[0] for t in f.locals[1:f.argc + 1]):
            return None
        asy = f.ret_ty() != rt
        k = (f.id, st.fsm)
        if k not in self.memo:
            self.memo[k] = frozenset()
            E2 = type(E)(self.P, self, E.models, max_steps=E.max_steps, max_states=E.max_states)
            E2.root = f
            outs = set()
            for s, v in E2.run(f, fsm=st.fsm):
                v = E2.deref(s, v)
                if rt == "()":
                    outs.add((s.fsm, ("A", "()", ())))
                elif v[0] == "E" and len(v[2]) == 1 and v[2][0][0] == "Err":
                    outs.add((s.fsm, err(unk("err35"))))
                else:
                    t = E2.truth(s, E2.field(s, v, "0", "Ok"))
                    outs |= {(s.fsm, ok(("i", b))) for b in ((0, 1) if t is None else (t,))}
            self.memo[k] = frozenset(outs)
            for x, y in E2.violations.items():
                E.violation(x, y)
            for i in E2.analysed:
                E.analysed[i] = E.analysed.get(i, 0) + 1
        out = []
        for fsm, v in sorted(self.memo[k], key=lambda x: (sorted(x[0], key=str), str(x[1]))):
            s = st.copy()
            s.fsm = fsm
            out.append((s, ("A", "ready", (("0", v),)) if asy else v))
        return out

    def on_call(self, E, st, c):
        n = c.name
        if c.fn.crate != self.crate:
            return None
        r = self.summary(E, st, c)
        if r is not None:
            return r
        op = n.rsplit("::", 1)[1]
        if n.endswith("::pop_front") or n.endswith("::pop_back"):
            if self.src(E, st, c.args[0], c) != "requirement_queue":
                return None
            self.ob.add("queue taken in " + c.fn.path)
            if not self.settle(E, st, c, "the next one is taken"):
                return []
            E.kill_below(st, elem("R")[1])
            base = self.put(st, unmet=None, pend=None, done=None, active=None, present=None, rsat=None, met=None, weak=None, chosen=None, reqs=None,
                            confs=None, queue=None, filtered=None)
            base = self.newcand(E, base)
            return [(base, NONE), (self.put(base, pend=1, weak=1), some(elem("R"))), (self.put(base, pend=1, weak=0), some(elem("R")))]
        if n.endswith("::is_satisfied_by") and "Requirement" in n:
            a, b = self.owner(E, st, c.args[0]), self.owner(E, st, c.args[1])
            if (a, b) == ("R", "resolved_packages"):
                k = "rsat"
                if self.get(st, "met") is not None and self.get(st, "present") == 1:
                    return [(st, ("i", self.get(st, "met")))]
            elif b == "C" and a == "conflict_requirements":
                k = "xsat"
            elif b == "C" and a == "active_requirements":
                k = "asat"
            elif b == "C" and a is not None or b == "C":
                k = "fsat"
            else:
                return None
            self.ob.add("%s compared in %s" % (k, c.fn.path))
            outs = self.decide(st, k)
            if k == "asat":
                outs = [(self.put(s, fsat=1) if v else s, v) for s, v in outs]
            return [(s, ("i", v)) for s, v in outs]
        if n.endswith("::is_prerelease") and self.owner(E, st, c.args[0]) == "C":
            return [(s, ("i", v)) for s, v in self.decide(st, "pre")]
        if EQ.search(n) and len(c.args) == 2:
            o = {self.owner(E, st, c.args[0]), self.owner(E, st, c.args[1])}
            k = "present" if o == {"R", "resolved_packages"} else "xname" if o == {"conflict_requirements", "C"} else None
            if k is None or "String" not in (c.argtys[0] or "") and "str" not in (c.argtys[0] or ""):
                return None
            return [(s, ("i", v if op == "eq" else 1 - v)) for s, v in self.decide(st, k)]
        if ITER.search(n) and c.args:
            src = self.src(E, st, c.args[0], c)
            if src in ("resolved_packages", "conflict_requirements", "active_requirements", "packages", "failed_requirements"):
                return [(self.put(st, seen=None), riter(src))]
            return None
        if SAME.search(n) and c.args:
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "riter":
                return [(st, v)]
            return None
        if PART.search(n):
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "riter":
                return [(st, riter(v[2][0][1][1], "part"))]
            return None
        if op == "filter" and "Iterator" in n:
            v = E.deref(st, c.args[0])
            if not (v[0] == "A" and v[1] == "riter"):
                return None
            return self.filter(E, st, c, v[2][0][1][1])
        if op == "retain" and c.args and self.src(E, st, c.args[0], c) == "failed_requirements":
            return [(s, ("A", "()", ())) for s, _ in self.filter(E, st, c, "failed_requirements")]
        if PRED.search(n):
            v = E.deref(st, c.args[0])
            if not (v[0] == "A" and v[1] == "riter"):
                return None
            src = v[2][0][1][1]
            if src in ("packages", "failed_requirements"):
                return None
            look = {"conflict_requirements": "xlook", "active_requirements": "alook"}.get(src)
            out = []
            yes = 0 if op == "all" else 1
            s = st.copy()
            before = self.get(st, look) if look else None
            if before == 3:
                before = None
            if src == "resolved_packages":
                s = self.put(s, present=0) if self.get(s, "present") is None else s if self.get(s, "present") == 0 else None
            elif before == 2:
                s = None
            if s is not None:
                out.append((s, self.pred(op, c, src, False)))
            for s, t in self.closure(E, st, c, src):
                if before and self.get(self.after_pred(E, s.copy(), src), look) != before or before == 2 and self.get(self.after_pred(
                        E, self.put(s, **{look: None}), src), look) != 2:
                    continue            # the same look at the same candidate has the same outcome
                s = self.after_pred(E, s, src)
                out.append((s, self.pred(op, c, src, t == yes)))
                if look and t != yes:       # another element may decide
                    out.append((s.copy(), self.pred(op, c, src, True)))
            if v[2][1][1][1] == "part":
                out = [(self.put(s, **{look: before}) if look and self.get(s, look) == 1 else s, x) for s, x in out]
            elif look:
                out = [(s if self.get(s, look) else self.put(s, **{look: 1}), v) for s, v in out]
            return self.dedup(E, out, c)
        if NEXT.search(n):
            v = E.deref(st, c.args[0])
            if not (v[0] == "A" and v[1] == "riter"):
                return None
            src = v[2][0][1][1]
            look = {"conflict_requirements": "xlook", "active_requirements": "alook"}.get(src)
            if src == "packages":
                s = self.newcand(E, st.copy())
                return [(self.put(s, nov=0), some(elem("C"))), (self.put(s, nov=1), some(elem("C"))), (s.copy(), NONE)]
            if src == "failed_requirements":
                if self.get(st, "pend") and not self.discharged(E, st):
                    self.forgot(E, c)
                base = self.put(st, pend=None, done=None, active=None, present=None, rsat=None, met=None, weak=None)
                E.kill_below(base, elem("R")[1])
                base = self.put(base, unmet=self.get(st, "unmet") or 0)
                return [(self.put(base, pend=1, weak=0), some(elem("R"))), (self.put(base, pend=1, weak=1), some(elem("R"))), (base, NONE)]
            a, b = st.copy(), st.copy()
            if src == "resolved_packages" and self.get(st, "present") is None:
                b = self.put(b, present=0)
            self.renew(a, elem(src))
            out = [(a, some(elem(src))), (b, NONE)]
            if look:
                # the element that matters most comes now or later, others may come before it
                l = self.get(st, look)
                if v[2][1][1][1] == "part":
                    return out
                out = [(self.put(a, **{look: l or 3, "seen": 1}), some(elem(src))), (st.copy(), some(unk("elem35", "other")))]
                if l in (None, 1) or self.get(st, "seen"):
                    out.append((self.put(b, **{look: l or 1, "seen": None}), NONE))
            return out
        if op in ("get", "contains_key", "get_mut") and "HashMap" in n and self.src(E, st, c.args[0], c) == "active_requirements":
            if op == "contains_key":
                return None
            s = st.copy()
            none = self.put(st, alook=self.get(st, "alook") or 1, active=0 if self.get(st, "pend") and self.owner(E, st, c.args[1]) == "R" else None)
            h = s.heap_w()
            h[S("slotA", c.fn.path)] = unk("elem35", "L:active")
            return [(s, some(("R", (("h", S("slotA", c.fn.path)), ()), 0))), (none, NONE)]
        if op == "contains" and c.args and len(c.args) == 2 and REQ in " ".join((c.k or {}).get("ga", [])) and self.owner(E, st, c.args[1]) == "R":
            if self.src(E, st, c.args[0], c) == "active_requirements":
                return [(s, ("i", v)) for s, v in self.decide(st, "active")]
            return None
        if n == "alloc::vec::Vec::new" and PKG.search(" ".join((c.k or {}).get("ga", []))):
            return [(self.put(st, filtered=1), ("L", "e", None))]       # nothing in it; what is pushed is checked
        if op == "push" and "Vec" in n and self.src(E, st, c.args[0], c) == "packages" and self.owner(E, st, c.args[1]) == "C":
            self.keepcand(E, st, c)
            return [(self.newcand(E, st.copy()), ("A", "()", ()))]
        if op == "push" and len(c.args) == 2 and self.owner(E, st, c.args[1]) == "R" and self.get(st, "unmet") is not None:
            st.fsm = self.put(st, done="failed", unmet=1, present=None, met=None, rsat=None, active=None, weak=None).fsm
            return None
        if op in ("push", "push_back") and len(c.args) == 2 and self.owner(E, st, c.args[1]) == "D":
            return [(self.put(st, dep=None), ("A", "()", ()))]
        if op in ("push", "push_back", "insert", "extend") and c.args and ("Vec" in n or op == "push_back"):
            src = self.src(E, st, c.args[0], c)
            if src == "failed_requirements" and op != "extend":
                if self.owner(E, st, c.args[-1]) == "R":
                    return [(self.put(st, done="failed", present=None, met=None, rsat=None, active=None, weak=None), ("A", "()", ()))]
            if src == "resolved_packages" and op != "extend":
                return self.choose(E, st, c, c.args[-1], [("A", "()", ())])
            return None
        if op == "insert" and "HashMap" in n:
            src = self.src(E, st, c.args[0], c)
            k = {"package_requirements": "reqs", "package_conflict_requirements": "confs"}.get(src)
            if k:
                return [(self.put(st, **{k: 1}), c.fresh())]
            return None
        if op == "collect" and "Iterator" in n:
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "riter" and v[2][0][1][1] == "failed_requirements" and v[2][1][1][1] == "filtered":
                return [(self.put(st, unmet=1), ("L", "n", elem("R2"))), (self.put(st, unmet=0), ("L", "e", None))]
            return None
        if op == "take" and n == "core::mem::take":
            src = self.src(E, st, c.args[0], c)
            if src == "failed_requirements":
                return [(st.copy(), riter("failed_requirements"))]
            return None
        if op == "clone" and c.args:
            o = self.owner(E, st, c.args[0])
            if o in ("R", "C"):
                v = E.deref(st, c.args[0])
                if o == "C" and v == elem("C"):
                    return [(st, elem("Cok" if self.checked(E, st, 1 + self.strict) else "C"))]
                if v[0] == "?" and S.rev[v[1].i][0] == "elem35":
                    return [(st, v)]
            return None
        if c.k is not None and "Requirement" in self.parsed(c) and not n.endswith("::collect"):
            # a requirement of the candidate has been read: it must be kept as a dependency or as a conflict
            self.ob.add("package requirement read in " + c.fn.path)
            if self.get(st, "dep"):
                self.lost(E, c)
            tup = "(bool" in self.parsed(c)
            return [(self.put(st, dep=1), ok(("A", "tuple", (("0", c.fresh("conflict")), ("1", elem("D")))) if tup else elem("D"))),
                    (self.put(st, dep=None), err(c.fresh("err")))]
        if n.endswith("::detect_cycle"):
            a, b = self.put(st, cycle=1), self.put(st, cycle=0)
            return [(a, some(c.fresh("cycle"))), (b, NONE)]
        return None

    def dedup(self, E, outs, c):
        d = {}
        for s, v in outs:
            k = (s.fsm, v)
            d[k] = (E.join(d[k][0], s, (c.ctx, c.block, "p35"))[0], v) if k in d else (s, v)
        return list(d.values())

    def parsed(self, c):
        """type that a call of a parser of requirement texts gives, or nothing"""
        if c.name == "str::parse" and REQ in (c.k or {}).get("ga", []):
            return REQ
        ts = self.P.targets(c.k)
        if len(ts) == 1 and ts[0].crate == self.crate and ts[0].argc and all("str" in t[0] for t in ts[0].locals[1:ts[0].argc + 1]):
            r = ret_of(self.P, ts[0])
            return r if r.startswith(RES + "<") else ""
        return ""

    def forgot(self, E, c):
        self.bad(E, "a failed requirement is forgotten", "a failed requirement that is active and not met is left out", c)

    def lost(self, E, c):
        self.bad(E, "a package's requirement is lost", "a requirement of a package is read and then neither kept as a dependency nor as a conflict", c)

    def pred(self, op, c, src, hit):
        if op == "find":
            return some(elem(src)) if hit else NONE
        if op == "position":
            return some(c.fresh("pos")) if hit else NONE
        return ("i", int(hit) if op == "any" else int(not hit))

    def filter(self, E, st, c, src):
        if src == "packages":
            self.ob.add("candidates filtered in " + c.fn.path)
            out = {}
            for s, t in self.closure(E, st, c, src):
                if t and not self.get(st, "filtered"):
                    self.keepcand(E, s, c)
                s = self.newcand(E, s)
                out.setdefault(self.put(s, filtered=1).fsm, self.put(s, filtered=1))
            return [(s, riter("packages", "filtered")) for s in out.values()]
        if src == "failed_requirements":
            self.ob.add("failed requirements filtered in " + c.fn.path)
            s0 = self.put(st, pend=1, done=None, active=None, present=None, rsat=None, met=None, weak=0)
            E.kill_below(s0, elem("R")[1])
            for s, t in self.closure(E, s0, c, src) + self.closure(E, self.put(s0, weak=1), c, src):
                if not t and not self.discharged(E, s):
                    self.bad(E, "a failed requirement is forgotten", "a failed requirement that is active and not met is left out", c, s)
            return [(st.copy(), riter("failed_requirements", "filtered"))]
        out = []
        for s, t in self.closure(E, st, c, src):
            out.append((self.after_pred(E, s, src), riter(src)))
        return out

    def keepcand(self, E, s, c):
        if self.get(s, "fsat") != 1 and not self.nov(E, s, "C"):
            self.bad(E, "a candidate is kept unchecked", "a package whose version does not meet the requirement stays a candidate", c)
        if self.get(s, "fsat") == 1 and self.get(s, "pre") != 0:
            self.bad(E, "a pre-release is kept", "a pre-release stays a candidate although pre-releases are not allowed", c)

    def checked(self, E, st, level):
        g = lambda k: self.get(st, k)
        if not g("filtered") or not (g("xlook") == 1 or g("xlook") == 3 and self.safe(E, st, "xlook")):
            return False
        return level == 1 or g("alook") == 1 or g("alook") == 3 and self.safe(E, st, "alook") or self.nov(E, st, "C")

    def choose(self, E, st, c, v, vals):
        self.ob.add("package chosen in " + (c.fn.path if c is not None else "place"))
        g = lambda k: self.get(st, k)
        o = self.owner(E, st, E.field(st, E.deref(st, v), "package"), raw=True)
        if g("dep"):
            self.lost(E, c)
        if not (o == "Cok" or self.checked(E, st, 1 + self.strict)):
            if not g("filtered"):
                self.bad(E, "an unfiltered package is chosen", "a package is chosen from a list that was not filtered by the requirement", c)
            elif g("xlook") is None:
                self.bad(E, "a package is chosen without a conflict check", "a package is chosen without looking at the conflict requirements", c)
            elif not self.checked(E, st, 1):
                self.bad(E, "a conflicting package is chosen", "a package that a conflict requirement excludes is chosen", c)
            elif g("alook") is None:
                self.bad(E, "a package is chosen without a check of the active requirements", "strict mode: a package is chosen without looking at "
                         "all active requirements of its name", c)
            else:
                self.bad(E, "a package is chosen against an active requirement", "strict mode: a package is chosen although an active requirement "
                         "of its name excludes its version", c)
        s = self.newcand(E, self.put(st, chosen=1, done="chosen", present=None, met=None, rsat=None, active=None, weak=None, filtered=None,
                                     reqs=None, confs=None, queue=None))
        return [(s, x) for x in vals]

    def on_write(self, E, st, fn, place, field, val, line):
        if fn.crate != self.crate:
            return None
        if field == "requirement_queue" and self.get(st, "chosen"):
            st.fsm = self.put(st, queue=1).fsm
        elif field == "*":
            v = E.deref(st, val)
            if v[0] == "A" and str(v[1]).endswith(RPI):
                r = self.choose(E, st, None, val, [None])
                st.fsm = r[0][0].fsm
        return None


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    roots = [f for f in P.fns.values() if f.path == "rez_next_solver::dependency_resolver::DependencyResolver::resolve" and f.kind in ("fn", "method")]
    obs = set()
    for strict in (1, 0):
        for f in roots:
            m = M(P, strict)
            E, outs = run_root(ctx, f, m, label="resolve (%s)" % ("strict" if strict else "lenient"), max_steps=3000000, max_states=400)
            obs |= {(strict, o) for o in m.ob}
            n = 0
            for s, v in outs:
                v = E.deref(s, v)
                vs = E.variants_of(s, v)
                if vs is None or "Ok" in vs:
                    n += 1
                    m.settle(E, s, None, "the resolve ends")
                    if strict and m.get(s, "unmet") != 0:
                        E.violation("strict Ok with failed requirements", "strict mode: Ok is returned although requirements failed")
                    if m.get(s, "cycle") == 1:
                        E.violation("Ok with a cycle", "Ok is returned although a dependency cycle was found")
            r.obligation("%s mode: %d successful exits, %s" % ("strict" if strict else "lenient", n, "; ".join(sorted(m.ob))), max(1, len(m.ob)))
            r.cov["facts_%d" % strict] = sorted(m.keys)
    r.floor("constructs", len(obs), 10)
