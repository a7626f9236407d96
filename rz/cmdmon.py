"""Monitor base for rules about external commands: the outcome of each command and what was concluded from its output."""
import re
from .absint import Monitor, S, TRUE, FALSE, NONE, some, ok, err, unk
from .models import cmd_of, cstr
from . import fx

SUCCESS = re.compile(r"process::ExitStatus::success$")
CODE = re.compile(r"process::ExitStatus::code$")
EMPTY = re.compile(r"^(alloc::vec::Vec|\[T\]|str|alloc::string::String)::is_empty$|::is_empty$")
COUNT = re.compile(r"^(alloc::vec::Vec|\[T\]|str|alloc::string::String)::len$|Iterator(>)?::count$")
NEXTL = re.compile(r"(Lines|Split\w*) as core::iter::traits::iterator::Iterator>::next$")
PART = re.compile(r"::(filter|filter_map|retain|skip|skip_while|take|take_while|map_while|split_once|rsplit_once|strip_prefix|strip_suffix|"
                  r"replace|replacen|trim_matches|trim_start_matches|trim_end_matches|find|position|nth|next|drain|split_off|truncate|get|last|first|"
                  r"flat_map|step_by|dedup|partition)$")


class CmdMonitor(Monitor):
    """fsm = frozenset of facts: ("ok", label) the command ran and exited with 0; ("bad", label) it failed;
    ("empty", label) its whole standard output was found empty; plus whatever a subclass adds"""
    track = True
    init = frozenset()
    extra = re.compile(r"(?!)")

    def label(self, E, st, c, prog, args, consts):
        """label of the command about to run, or None"""
        return None

    def started(self, E, st, c, label, args):
        """called before a labelled command runs; returns the state to go on with"""
        return st

    def finished(self, E, st, c, label, good):
        """called on both outcomes"""
        return st

    def event(self, n, k):
        return fx.is_run(n) or bool(self.extra.search(n))

    def add(self, st, *facts, drop=()):
        s = st.copy()
        s.fsm = (s.fsm - frozenset(drop)) | frozenset(facts)
        return s

    def label_of(self, E, st, v, stdout=False):
        """label of the command the value comes from"""
        out = set()

        def pred(k):
            if k[0] == "p" and isinstance(k[1], str) and k[1].startswith("cmd:"):
                out.add(k[1][4:])
            return False
        if stdout:
            hit = []

            def pred2(k):
                if k[0] == "." and k[2] == "stdout" and S.rev[k[1].i][0] == "p":
                    hit.append(S.rev[k[1].i][1][4:])
                return False
            E.derived(st, v, pred2)
            return hit[0] if len(set(hit)) == 1 else None
        E.derived(st, v, pred)
        return next(iter(out)) if len(out) == 1 else None

    def whole(self, E, st, v):
        return not E.derived(st, v, lambda k: k[0] == "r" and isinstance(k[3], str) and bool(PART.search(k[3])))

    def cmd_call(self, E, st, c):
        n = c.name
        if fx.is_run(n):
            prog, args, _ = cmd_of(E, st, c)
            lab = self.label(E, st, c, cstr(prog) if prog is not None else None, args, [cstr(a) for a in args])
            asy = n.startswith("tokio::")
            w = (lambda v: ("A", "ready", (("0", v),))) if asy else (lambda v: v)
            if lab is None:
                return [(st.copy(), w(ok(c.fresh("out")))), (st.copy(), w(err(c.fresh("e"))))]
            s0 = self.started(E, st, c, lab, args)
            drop = [(x, lab) for x in ("ok", "bad", "empty", "nonempty")]
            good = ("?", S("p", "cmd:" + lab))
            return [(self.add(s0, drop=drop), w(ok(good))),
                    (self.finished(E, self.add(s0, ("bad", lab), drop=drop), c, lab, False), w(err(c.fresh("e"))))]
        if SUCCESS.search(n) or CODE.search(n):
            lab = self.label_of(E, st, c.args[0])
            if lab is None:
                return None
            t, f = (TRUE, FALSE) if SUCCESS.search(n) else (some(("i", 0)), some(("i", 1)))
            return [(self.finished(E, self.add(st, ("ok", lab), drop=[("bad", lab)]), c, lab, True), t),
                    (self.finished(E, self.add(st, ("bad", lab), drop=[("ok", lab)]), c, lab, False), f)]
        if (EMPTY.search(n) or COUNT.search(n) or NEXTL.search(n)) and c.args:
            lab = self.label_of(E, st, c.args[0], stdout=True)
            if lab is None:
                return None
            if not self.whole(E, st, c.args[0]) or "Filter" in (c.argtys[0] or "") or "Skip" in (c.argtys[0] or ""):
                return None
            e = self.add(st, ("empty", lab))
            ne = self.add(st, ("nonempty", lab), drop=[("empty", lab)])
            if EMPTY.search(n):
                return [(e, TRUE), (ne, FALSE)]
            if COUNT.search(n):
                return [(e, ("i", 0)), (ne, ("i", 1))]
            return [(e, NONE), (ne, some(c.fresh("line")))]
        return None
