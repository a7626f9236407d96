"""Constant folding of string and path functions, for checks that bind an input to a constant."""
import re
from .absint import TRUE, FALSE, NONE, some, E1
from .models import callf, loc_of

COMP = "std::path::Component"


def components(s):
    out = []
    if s.startswith("/"):
        out.append(("RootDir", None))
    parts = [p for p in s.split("/")]
    first = True
    for p in parts:
        if p == "":
            continue
        if p == ".":
            if first and not s.startswith("/"):
                out.append(("CurDir", None))
        elif p == "..":
            out.append(("ParentDir", None))
        else:
            out.append(("Normal", p))
        first = False
    return out


def citer(kind, s, i=0):
    return ("A", "citer", (("0", ("s", kind)), ("1", ("s", s)), ("2", ("i", i))))


def elems(kind, s):
    if kind == "components":
        return [E1(COMP, n, ("s", p)) if n == "Normal" else E1(COMP, n) for n, p in components(s)]
    if kind == "chars":
        return [("i", ord(ch)) for ch in s]
    if kind == "bytes":
        return [("i", b) for b in s.encode()]
    if kind.startswith("split:"):
        return [("s", x) for x in s.split(kind[6:])]
    return None


def const_call(E, st, c):
    n = c.name
    if not c.args:
        return None
    loc, v = loc_of(E, st, c.args[0])
    if loc is None:
        v = E.norm(st, c.args[0])
    op = n.rsplit("::", 1)[-1]
    if v[0] == "s":
        s = v[1]
        rest = [E.deref(st, a) for a in c.args[1:]]
        pathy = "path::" in n
        if op in ("components", "chars", "bytes") and re.search(r"(Path|PathBuf|str|String)::", n):
            return [(st, citer(op, s))]
        if op == "split" and rest and rest[0][0] in ("s", "i") and "str::" in n:
            return [(st, citer("split:" + (rest[0][1] if rest[0][0] == "s" else chr(rest[0][1])), s))]
        if op == "is_empty":
            return [(st, ("i", int(s == "")))]
        if op == "len" and not pathy:
            return [(st, ("i", len(s.encode())))]
        if op in ("is_absolute", "has_root") and pathy:
            return [(st, ("i", int(s.startswith("/"))))]
        if op == "is_relative" and pathy:
            return [(st, ("i", int(not s.startswith("/"))))]
        if op == "file_name" and pathy:
            cs = components(s)
            return [(st, some(("s", cs[-1][1])) if cs and cs[-1][0] == "Normal" else NONE)]
        if op in ("contains", "starts_with", "ends_with") and rest and "str::" in n:
            pt = rest[0]
            pats = None
            if pt[0] == "i":
                pats = [chr(pt[1])]
            elif pt[0] == "s":
                pats = [pt[1]]
            elif pt[0] == "A" and pt[1] == "array" and all(x[1][0] == "i" for x in pt[2]):
                pats = [chr(x[1][1]) for x in pt[2]]
            if pats is not None:
                f = {"contains": lambda p: p in s, "starts_with": s.startswith, "ends_with": s.endswith}[op]
                return [(st, ("i", int(any(f(p) for p in pats))))]
            if (pt[0] == "F" or (pt[0] == "A" and isinstance(pt[1], tuple) and pt[1][0] == "closure")) and op == "contains":
                return quant(E, st, c, [("i", ord(ch)) for ch in s], rest[0], True)
        return None
    if v[0] == "A" and v[1] == "citer":
        d = dict(v[2])
        kind, s, i = d["0"][1], d["1"][1], d["2"][1]
        if d["0"][0] != "s" or d["1"][0] != "s" or d["2"][0] != "i":
            return None
        el = elems(kind, s)[i:]
        if op == "next" and loc is not None:
            if not el:
                return [(st.copy(), NONE)]
            s2 = st.copy()
            E.write_loc(s2, loc, citer(kind, s, i + 1))
            return [(s2, some(el[0]))]
        if op == "count":
            return [(st, ("i", len(el)))]
        if op in ("last", "next_back"):
            return [(st, some(el[-1]) if el else NONE)]
        if op in ("any", "all"):
            return quant(E, st, c, el, c.args[1], op == "any")
        if op in ("into_iter", "by_ref", "clone"):
            return [(st, v)]
        if op == "collect" and "Vec" in (c.retty() or ""):
            return [(st, ("A", "array", tuple((str(j), x) for j, x in enumerate(el))))]
    if v[0] == "A" and v[1] == "array" and len(c.args) <= 2:
        el = [x for _, x in v[2]]
        if op == "len":
            return [(st, ("i", len(el)))]
        if op == "is_empty":
            return [(st, ("i", int(not el)))]
        if op in ("first", "last"):
            return [(st, some(el[0 if op == "first" else -1]) if el else NONE)]
        if op in ("get", "index") and len(c.args) == 2:
            i = E.deref(st, c.args[1])
            if i[0] == "i":
                if op == "get":
                    return [(st, some(el[i[1]]) if i[1] < len(el) else NONE)]
                return [(st, el[i[1]])] if i[1] < len(el) else []
        if op in ("as_slice", "deref"):
            return [(st, c.args[0])]
    return None


def quant(E, st, c, el, f, any_):
    """Iterator::any / all over constant elements; None when a closure result is not a constant"""
    cur = [st]
    outs = []
    for x in el:
        nxt = []
        for s in cur:
            for s2, r in callf(E, s, c, f, [x]):
                t = E.truth(s2, r)
                if t is None:
                    return None
                if bool(t) == any_:
                    outs.append((s2, TRUE if any_ else FALSE))
                else:
                    nxt.append(s2)
        cur = nxt[:4]
    return outs + [(s, FALSE if any_ else TRUE) for s in cur]
