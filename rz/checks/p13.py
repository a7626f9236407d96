"""P13: text put into a generated shell script never leaves the quotes or the comment it stands in."""
import re
from ..absint import Monitor, S, NONE, some
from ..lib import run_root
from ..consts import const_call
from ..models import MODELS, callf, loc_of
from ..program import decode_fmt

RULE = ("Character-image analysis by conditional constant propagation: every function that formats a line of a sh, fish or PowerShell script is "
        "analysed once for every character that is special inside quotes, bound (between two marks) to the strings it iterates over or is "
        "given; the formatted line is split by the quoting rules of its shell, and the image of the character must neither end the quotes or the "
        "comment it stands in nor be active there. As escaping is a character-wise replacement the single characters decide all strings. "
        "Obligation = (function, character, line template).")

LINE = [  # (shell, what starts a statement)
    ("fish", re.compile(r"^\s*(set -\w*x\w*|alias \S+ (?=[\"'])|source )")),
    ("sh", re.compile(r"^\s*(export |alias \S+=|source |\. |exec |cd )")),
    ("ps", re.compile(r"^\s*(\$env:|\$\{env:|Set-\w+|\. |\& )")),
]
COMMENT = re.compile(r"^\s*#(?!!)")
A, B, OP = "\ue000", "\ue001", "\ue010"
CHARS = ['"', "\\", "'", "`", "$", "\n", '""', "''", "$$"]
ANY = re.compile(r"(^|\n)\s*(export |alias |set -\w*x|\$env:|\$\{env:|Set-\w+|source |\. ['\"]|exec |cd ['\"])")
PAIR = re.compile(r"^core::option::Option<&?\(&*(alloc::string::String|str), &*(alloc::string::String|str)\)>$")
ONE = re.compile(r"^core::option::Option<&*(mut )?(alloc::string::String|str)>$")
CPAIR = re.compile(r"^&?\(&*(alloc::string::String|str), &*(alloc::string::String|str)\)$")
CONE = re.compile(r"^&*(alloc::string::String|str)$")


def split(shell, text):
    """walks a line; returns the problems of the marked texts in it"""
    st = None                # None, '"', "'", '#'
    out = []
    start = None
    i = 0
    n = len(text)
    seen = 0
    while i < n:
        ch = text[i]
        if ch == A:
            start = st
            seen += 1
            i += 1
            continue
        if ch == B:
            if st != start:
                out.append("ends the quotes or comment it stands in")
            start = "none"
            i += 1
            continue
        inside = text.rfind(A, 0, i) > text.rfind(B, 0, i)
        if st is None:
            if ch in "\"'":
                st = ch
            elif ch == "#" and (i == 0 or text[i - 1] in " \t\n"):
                st = "#"
            elif ch == "\\" and shell in ("sh", "fish"):
                i += 1
        elif st == "#":
            if ch == "\n":
                st = None
        elif st == '"':
            if shell in ("sh", "fish") and ch == "\\":
                i += 2
                if i > n or (i - 1 < n and text[i - 1] in (A, B)):
                    out.append("leaves a dangling escape before the closing quote")
                    i -= 1
                continue
            if shell == "ps" and ch == "`":
                i += 2
                if i > n or (i - 1 < n and text[i - 1] in (A, B)):
                    out.append("leaves a dangling escape before the closing quote")
                    i -= 1
                continue
            if ch == '"':
                if shell == "ps" and i + 1 < n and text[i + 1] == '"':
                    i += 2
                    continue
                st = None
            elif inside and (ch == "$" or (ch == "`" and shell == "sh")):
                out.append("is expanded inside the quotes")
        elif st == "'":
            if ch == "\\" and shell == "fish":
                i += 2
                if i - 1 < n and text[i - 1] in (A, B):
                    out.append("leaves a dangling escape before the closing quote")
                    i -= 1
                continue
            if ch == "'":
                if shell == "ps" and i + 1 < n and text[i + 1] == "'":
                    i += 2
                    continue
                st = None
        i += 1
    return out, seen


class M(Monitor):
    track = False

    def __init__(self, ch, found):
        self.ch = ch
        self.mark = ("s", A + ch + B)
        self.found = found

    def event(self, n, k):
        return n in ("core::fmt::Arguments::new",)

    def on_param(self, E, fn, i, name, ty):
        if fn.kind == "closure" and fn.id != E.root.id:
            if CPAIR.search(ty):
                return ("A", "tuple", (("0", ("?", S("p", "key"))), ("1", self.mark)))
            if CONE.search(ty):
                return self.mark
        return None

    def inline(self, f):
        if f.ret_ty() in ("alloc::string::String", "&str", "alloc::borrow::Cow<'_, str>") and f.nreal <= 60:
            return True
        return None

    def flat(self, parts):
        out = ""
        for p in parts:
            if p[0] == "s":
                out += p[1]
            elif p[0] == "?" and S.rev[p[1].i][0] == "fmt":
                out += self.flat(S.rev[p[1].i][1])
            elif p[0] == "i" and p[1] > 31:
                out += chr(p[1])
            else:
                out += OP
        return out

    def check(self, E, st, c, text):
        if A not in text:
            return
        # whole statements: from the start of the line the mark stands in
        pos = 0
        while True:
            i = text.find(A, pos)
            if i < 0:
                break
            j = text.find(B, i)
            ls = text.rfind("\n", 0, i) + 1
            le = text.find("\n", j)
            line = text[ls:le if le >= 0 else len(text)]
            pos = j + 1 if j >= 0 else len(text)
            head = line[:line.find(A)]
            shells = [s for s, r in LINE if r.search(line.replace(A, "").replace(B, "")) or r.search(head)]
            if COMMENT.search(head):
                shells = ["sh"]
            if not shells:
                m = re.search(r"(powershell|pwsh)|(fish)|(bash|zsh|posix)", c.fn.path.rsplit("::", 1)[-1])
                if not m:
                    continue
                shells = ["ps" if m.group(1) else "fish" if m.group(2) else "sh"]
            tmpl = (text[:i] + "{}" + text[j + 1:]).replace(OP, "{}").replace(A, "").replace(B, "").strip()[:60]
            self.found.add((E.root.path, c.site))
            for s in shells[:2]:
                probs, seen = split(s, line)
                if s == "fish" and shells[0] == "fish" and len(shells) > 1 and "fish" not in E.root.path and "sh" in shells:
                    continue                 # 'source' of an sh script: judged as sh
                for p in probs:
                    if "expanded" in p and c.fn.path.startswith("rez_next_rex::"):
                        continue
                    E.violation("%s: %s in the line '%s' %s" % (E.root.path, self.name(), tmpl, p),
                                "the character %r put into %r (%s) at %s becomes %r and %s" % (
                                    self.ch, tmpl, s, c.site, line.replace(A, "<").replace(B, ">").replace(OP, "{}"), p))

    def name(self):
        return {"\n": "a line break", "\\": "a backslash", "`": "a backquote"}.get(self.ch[0], self.ch[0])

    def on_call(self, E, st, c):
        n = c.name
        if n == "core::fmt::Arguments::new":
            res = MODELS["core::fmt::Arguments::new"](E, st, c)
            for s, v in res:
                self.check(E, s, c, self.flat([v]))
            return res
        if n == "std::process::exit":
            return []
        op = n.rsplit("::", 1)[-1]
        if op == "next":
            loc, v = loc_of(E, st, c.args[0])
            if v is not None and v[0] == "A" and v[1] == "citer":
                d = dict(v[2])
                if d["2"][0] == "i" and d["0"][0] == "s" and d["1"][0] == "s":
                    r = const_call(E, st, c)
                    for s2, _ in r or ():
                        s2.fsm = ("at", c.fn.id, d["2"][1])        # keeps the positions apart
                    return r
                return None
            ty = (c.retty() or "")
            if PAIR.search(ty):
                return [(st.copy(), some(("A", "tuple", (("0", ("?", S("p", "key"))), ("1", self.mark))))), (st.copy(), NONE)]
            if ONE.search(ty):
                return [(st.copy(), some(self.mark)), (st.copy(), NONE)]
            return None
        if op in ("map", "for_each", "flat_map", "filter_map") and len(c.args) == 2:
            f = E.deref(st, c.args[1])
            g = E.P.fns.get(f[1][1]) if f[0] == "A" and isinstance(f[1], tuple) and f[1][0] == "closure" else None
            v = E.deref(st, c.args[0])
            if g is not None and len(g.locals) > 2 and not (v[0] == "A" and v[1] == "citer"):
                ty = g.locals[2][0]
                x = ("A", "tuple", (("0", ("?", S("p", "key"))), ("1", self.mark))) if CPAIR.search(ty) else self.mark if CONE.search(ty) else None
                if x is not None:
                    callf(E, st, c, f, [x])
                    return None
        r = self.strings(E, st, c, op, n)
        if r is not None:
            return r
        return const_call(E, st, c)

    def strings(self, E, st, c, op, n):
        """constant folding of character-wise rewriting"""
        if op in ("new", "with_capacity") and n.startswith("alloc::string::String::") and c.fn.id != E.root.id:
            return [(st.copy(), ("s", ""))]
        if op in ("push", "push_str") and n.startswith("alloc::string::String::"):
            loc, v = loc_of(E, st, c.args[0])
            x = E.deref(st, c.args[1])
            if loc is not None and v is not None and v[0] == "s" and x[0] in ("s", "i") and len(v[1]) < 24:
                s = st.copy()
                E.write_loc(s, loc, ("s", v[1] + (x[1] if x[0] == "s" else chr(x[1]))))
                return [(s, ("A", "tuple", ()))]
            if loc is not None and v is not None and v[0] == "s":
                s = st.copy()
                E.write_loc(s, loc, ("?", S("p", "text")))
                return [(s, ("A", "tuple", ()))]
            return None
        if n.startswith("str::") and c.args:
            v = E.deref(st, c.args[0])
            if v[0] == "s":
                rest = [E.deref(st, a) for a in c.args[1:]]
                if op in ("replace", "replacen") and len(rest) >= 2:
                    pats = None
                    if rest[0][0] == "i":
                        pats = [chr(rest[0][1])]
                    elif rest[0][0] == "s":
                        pats = [rest[0][1]]
                    elif rest[0][0] == "A" and rest[0][1] == "array" and all(x[1][0] == "i" for x in rest[0][2]):
                        pats = [chr(x[1][1]) for x in rest[0][2]]
                    if pats and rest[1][0] == "s" and op == "replacen" and len(rest) == 3 and rest[2][0] == "i":
                        return [(st.copy(), ("s", v[1].replace(pats[0], rest[1][1], rest[2][1])))]
                    if pats and rest[1][0] == "s" and op == "replace":
                        t = "".join(rest[1][1] if ch in pats else ch for ch in v[1]) if all(len(p) == 1 for p in pats) else v[1].replace(pats[0], rest[1][1])
                        return [(st.copy(), ("s", t))]
                    if (rest[0][0] == "F" or rest[0][0] == "A" and isinstance(rest[0][1], tuple)) and rest[1][0] == "s" and op == "replace":
                        out = ""
                        for ch in v[1]:
                            rs = callf(E, st, c, rest[0], [("i", ord(ch))])
                            t = E.truth(*rs[0]) if len(rs) == 1 else None
                            if t is None:
                                return None
                            out += rest[1][1] if t else ch
                        return [(st.copy(), ("s", out))]
                if op in ("split", "split_terminator", "lines") and A in v[1]:
                    seps = ["\n"]
                    if op != "lines":
                        p = rest[0]
                        seps = [chr(p[1])] if p[0] == "i" else [p[1]] if p[0] == "s" else \
                            [chr(x[1][1]) for x in p[2]] if p[0] == "A" and p[1] == "array" and all(x[1][0] == "i" for x in p[2]) else []
                    inner = v[1][v[1].find(A) + 1:v[1].find(B)]
                    if inner in seps:
                        return [(st.copy(), ("A", "citer", (("0", ("s", "split:" + inner)), ("1", ("s", A + B + inner + A + B)), ("2", ("i", 0)))))]
                    return [(st.copy(), ("A", "citer", (("0", ("s", "split:\ue0ff")), ("1", v), ("2", ("i", 0)))))]
                if op in ("to_owned", "to_string", "into_owned", "clone"):
                    return [(st.copy(), v)]
        if c.args:
            v = E.deref(st, c.args[0])
            if v[0] == "A" and v[1] == "citer" and op in ("map", "flat_map", "filter_map") and len(c.args) == 2:
                from ..consts import elems
                d = dict(v[2])
                el = elems(d["0"][1], d["1"][1])[d["2"][1]:]
                out = ""
                for x in el:
                    rs = callf(E, st, c, c.args[1], [x])
                    if len(rs) != 1:
                        return None
                    y = self.strval(E, rs[0][0], rs[0][1])
                    if y is None:
                        return None
                    out += y
                return [(st.copy(), ("A", "citer", (("0", ("s", "chars")), ("1", ("s", out)), ("2", ("i", 0)))))]
            if v[0] == "A" and v[1] == "citer" and op == "collect" and "String" in (c.retty() or "") and "Vec" not in (c.retty() or ""):
                d = dict(v[2])
                if d["0"][1] == "chars":
                    return [(st.copy(), ("s", d["1"][1][d["2"][1]:]))]
        return None

    def strval(self, E, st, v):
        v = E.deref(st, v)
        if v[0] == "s":
            return v[1]
        if v[0] == "i" and v[1] > 8:
            return chr(v[1])
        if v[0] == "A" and v[1] == "array":
            xs = [self.strval(E, st, x) for _, x in v[2]]
            return None if None in xs else "".join(xs)
        return None


def consts(o):
    if isinstance(o, dict):
        if "bytes" in o:
            yield o["bytes"]
        elif "str" in o:
            yield o["str"]
        else:
            for v in o.values():
                yield from consts(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            yield from consts(v)


def generators(P):
    """functions with a template of a shell statement that has a placeholder"""
    out = {}
    for f in P.fns.values():
        if f.derived or b"bytes" not in f._blob and b"str" not in f._blob:
            continue
        for b in consts(f.blocks):
            if isinstance(b, str):
                continue
            try:
                parts = decode_fmt(list(b))
            except Exception:
                continue
            s = "".join(x if isinstance(x, str) else "{}" for x in parts)
            if "{}" in s and ANY.search(s):
                g = P.root(f)
                out[g.id] = g
    return sorted(out.values(), key=lambda f: f.path)


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    gens = generators(P)
    found = set()
    for f in gens:
        for ch in CHARS:
            m = M(ch, found)
            run_root(ctx, f, m, label="%s[%r]" % (f.path, ch))
        r.obligation("%s: %d line templates" % (f.path, len([1 for a, _ in found if a == f.path])),
                     len(CHARS) * len([1 for a, _ in found if a == f.path]))
    r.floor("script generators", len(gens), 6)
    r.floor("quoted line templates", len(found), 12)
    r.assumptions.append("cmd scripts are not covered (cmd has no quoting that holds every text); names of variables and aliases are identifiers; "
                         "in activation scripts of rex '$' stays active because values may refer to other variables")
