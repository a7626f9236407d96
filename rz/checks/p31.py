"""P31: what is saved can be loaded again, and is the same."""
import re
from ..absint import Engine, Monitor, Incomplete, S, RES, OPT, ok, err, unk, TRUE, FALSE, some, NONE, UNIT, E1
from ..models import MODELS

RULE = ("For every type that can be both saved and loaded, the code that saves it (written by hand or derived) is analysed for the keys it writes and the "
        "field each value comes from; the code that loads it is then analysed on exactly that record, key by key and in that order. Every field that holds "
        "part of the value is written; every key written is recognised; its value arrives in the field it came from; a key that may be left out may be absent. "
        "Every variant of an enumeration is recognised by the name it was written with. The reader of package.yaml and package.json puts the value of every key a "
        "package is saved with into the attribute of that name, or fails. Obligation = (type, field or variant).")

SER = re.compile(r"^<(.*) as serde(?:_core)?::ser::Serialize>::serialize$")
DE = re.compile(r"^<(.*) as serde(?:_core)?::de::Deserialize>::deserialize$")
# not part of the value: computed again on demand, handles of the running program, or set when the package is found
TRANSIENT = {
    ("rez_next_build::builder::BuildConfig", "event_sender"),
    ("rez_next_package_filter::filter::PackageFilter", "sha1_cache"),
    ("rez_next_package::package::types::Package", "commands_function"),
    ("rez_next_package::package::types::Package", "config"),
    ("rez_next_package::package::types::Package", "filepath"),
    ("rez_next_package::package::types::Package", "includes"),
}
PACKAGE = "rez_next_package::package::types::Package"


class Base(Monitor):
    init = ()
    track = True
    names = re.compile("$^")

    def event(self, n, k):
        return bool(self.names.search(n))


class Saves(Base):
    """fsm: what was written so far"""
    names = re.compile(r"::ser::(SerializeStruct::(serialize_field|skip_field)|SerializeMap::serialize_entry|Serializer::serialize_\w+)$|"
                       r"^<alloc::string::String as serde(_core)?::ser::Serialize>::serialize$|^str::serialize$|^<str as .*ser::Serialize>::serialize$")

    def __init__(self, self_sym):
        self.self = self_sym

    def on_call(self, E, st, c):
        n = c.name
        if not self.names.search(n):
            return None
        op = n.rsplit("::", 1)[1]
        good, bad = st.copy(), st.copy()
        if op in ("serialize", "serialize_str", "collect_str"):
            w = E.deref(st, c.args[0 if op == "serialize" else 1])
            src = frozenset(S.rev[s.i][2] for o in list(E.origins(st, [w])) + [w] for s in E.closure_syms(o)
                            if S.rev[s.i][0] == "." and S.rev[s.i][1] == self.self)
            good.fsm = st.fsm + (("text", src),)
            return [(good, ok(c.fresh("done"))), (bad, err(c.fresh("err")))]
        if op in ("serialize_field", "skip_field"):
            k = E.deref(st, c.args[1])
            k = k[1] if k[0] == "s" else None
            src = frozenset()
            if op == "serialize_field":
                w = E.deref(st, c.args[2])
                src = frozenset(S.rev[s.i][2] for o in list(E.origins(st, [w])) + [w] for s in E.closure_syms(o)
                                if S.rev[s.i][0] == "." and S.rev[s.i][1] == self.self)
            good.fsm = st.fsm + ((op == "skip_field", k, src),)
            return [(good, ok(UNIT)), (bad, err(c.fresh("err")))]
        if op == "serialize_struct":
            n = E.deref(st, c.args[2])
            good.fsm = st.fsm + (("count", n[1] if n[0] == "i" else None),)
            return [(good, ok(c.fresh("struct"))), (bad, err(c.fresh("err")))]
        if op.endswith("_variant"):
            k = E.deref(st, c.args[3])
            good.fsm = st.fsm + (("variant", op, k[1] if k[0] == "s" else None),)
            return [(good, ok(c.fresh("done"))), (bad, err(c.fresh("err")))]
        good.fsm = st.fsm + (("other", op, c.args[1:2] and E.deref(st, c.args[1])),)
        return [(good, ok(c.fresh("done"))), (bad, err(c.fresh("err")))]


class Loads(Base):
    """fsm: how much of the record was read"""
    names = re.compile(r"::de::((MapAccess::next_(key|value))|(SeqAccess::next_element)|EnumAccess::variant|VariantAccess::\w+)$|::de::missing_field$")
    init = 0

    def __init__(self, keys):
        self.keys = keys            # [(key, Field value)]

    def on_call(self, E, st, c):
        n = c.name
        if not self.names.search(n):
            return None
        op = n.rsplit("::", 1)[1]
        if op == "missing_field":
            opt = re.match(r"core::result::Result<core::option::Option<", c.retty() or "")
            return [(st, ok(NONE) if opt else err(c.fresh("missing")))]
        good, bad = st.copy(), st.copy()
        if op == "next_key":
            if st.fsm >= len(self.keys):
                return [(good, ok(NONE)), (bad, err(c.fresh("err")))]
            return [(good, ok(some(self.keys[st.fsm][1]))), (bad, err(c.fresh("err")))]
        if op == "next_value":
            good.fsm = st.fsm + 1
            return [(good, ok(unk("val", self.keys[st.fsm][0] if st.fsm < len(self.keys) else "?"))), (bad, err(c.fresh("err")))]
        if op == "next_element":
            if st.fsm >= len(self.keys):
                return [(good, ok(NONE)), (bad, err(c.fresh("err")))]
            good.fsm = st.fsm + 1
            return [(good, ok(some(unk("val", self.keys[st.fsm][0])))), (bad, err(c.fresh("err")))]
        if op == "variant":
            return [(good, ok(("A", "()", (("0", self.keys[0][1]), ("1", c.fresh("access")))))), (bad, err(c.fresh("err")))]
        return [(good, ok(unk("val", self.keys[0][0]))), (bad, err(c.fresh("err")))]


def runs(r, P, f, m, **kw):
    E = Engine(P, m, MODELS)
    out = E.run(f, fsm=m.init, **kw)
    r.fns |= set(E.analysed)
    return E, out


def field_of(r, P, f, key):
    """the value the field identifier's visitor yields for a name"""
    E, out = runs(r, P, f, Base(), argvals={f.local_name(2) or "arg2": ("s", key)})
    vals = set()
    for st, v in out:
        v = E.deref(st, v)
        if E.variants_of(st, v) != {"Err"}:
            vals.add(E.norm(st, E.deref(st, E.field(st, v, "0", "Ok"))))
    return vals.pop() if len(vals) == 1 else None


def parts(P, t):
    """the functions of the Deserialize implementation of a type"""
    pre = "<%s as serde" % t
    fs = {}
    for f in P.fns.values():
        m = re.match(r"^<(<.*) as serde(?:_core)?::de::Visitor>::(visit_\w+)$", f.path)
        if not m:
            continue
        owner = m[1]
        while owner.startswith("<") and not owner.startswith(pre):
            owner = owner[1:]
        if not owner.startswith(pre):
            continue
        rest = owner[len(pre):]
        if "visit_enum::" in rest or "__DeserializeWith" in rest:
            continue                # the contents of one variant
        fs.setdefault(m[2], []).append((f, m[1]))
    return fs


def run(ctx):
    P, r = ctx.P, ctx.r
    r.rule = RULE
    ser, de = {}, {}
    for f in P.fns.values():
        m = SER.match(f.path)
        if m:
            ser[m[1]] = f
        m = DE.match(f.path)
        if m:
            de[m[1]] = f
    done = 0
    package_keys = None
    for t in sorted(set(ser) & set(de)):
        adt = P.adts.get(t)
        if adt is None:
            continue
        try:
            if len(adt["vars"]) > 1 or adt["vars"][0]["n"] != t.rsplit("::", 1)[1]:
                done += enum(ctx, t, adt, ser[t])
            else:
                keys = struct(ctx, t, adt, ser[t], de[t])
                if keys is None:
                    continue
                done += len(keys)
                if t == PACKAGE:
                    package_keys = keys
        except Incomplete as e:
            r.violation("incomplete:" + t, str(e))
    r.floor("fields_and_variants", done, 500)
    if package_keys:
        loader(ctx, package_keys)
        python_form(ctx)
    suite(ctx)


def struct(ctx, t, adt, f, de):
    P, r = ctx.P, ctx.r
    nm = f.local_name(1) or "arg1"
    m = Saves(unk("p", nm)[1])
    E, out = runs(r, P, f, m)
    wrote = set()
    for st, v in out:
        if E.variants_of(st, E.deref(st, v)) != {"Err"} and st.fsm:
            wrote.add(st.fsm)
    if wrote and all(len(w) == 1 and w[0][0] == "text" for w in wrote):
        return text(ctx, t, de, f, {w[0][1] for w in wrote})
    if not wrote or any(x[0] in ("other", "variant") for w in wrote for x in w):
        r.notes.append("not a record: %s" % t)
        return None
    order, optional, src = [], set(), {}
    for w in wrote:
        ks = []
        count = None
        n = 0
        for x in w:
            if x[0] == "count":
                count = x[1]
                continue
            skip, k, s = x
            if k is None:
                raise Incomplete("%s writes a key that is not a constant" % f.path)
            n += not skip
            ks.append(k)
            if skip:
                optional.add(k)
            else:
                src.setdefault(k, set()).update(s)
        if count is not None and count != n and not optional:
            r.violation("%s announces %s fields and writes %d" % (t, count, n), "%s (%s)" % (f.path, f.file))
        if len(ks) > len(order):
            order = ks
        if len(set(ks)) != len(ks):
            r.violation("%s writes a key twice" % t, "%s (%s): %s" % (f.path, f.file, [k for k in ks if ks.count(k) > 1][0]))
    for w in wrote:
        have = {x[1] for x in w if x[0] != "count"}
        optional |= set(order) - have
    fields = [x["n"] for x in adt["vars"][0]["f"]]
    home = {}
    for k in order:
        s = src.get(k, set())
        if len(s) == 1:
            home[k] = next(iter(s))
    for fl in fields:
        r.obligation("%s: %s" % (t, fl))
        if fl not in home.values() and (t, fl) not in TRANSIENT:
            r.violation("%s.%s is not saved" % (t, fl), "%s (%s) writes %s" % (f.path, f.file, order))
    fs = parts(P, t)
    idents = [(g, o) for g, o in fs.get("visit_str", [])]
    maps = fs.get("visit_map", [])
    if not maps or not idents:
        raise Incomplete("%s: no visit_map or field identifier in the program" % t)
    ident = idents[0][0]
    val = {k: field_of(r, P, ident, k) for k in order}
    vis = maps[0][0]

    def check(g, keys, what):
        ks = [(k, val[k]) for k in keys]
        E, out = runs(r, P, g, Loads(ks))
        good = False
        for st, v in out:
            v = E.deref(st, v)
            if E.variants_of(st, v) == {"Err"}:
                continue
            good = True
            if st.fsm < len(ks):
                r.violation("%s: %s stops early" % (t, what), "%s (%s) read %d of %d" % (g.path, g.file, st.fsm, len(ks)))
            p = E.deref(st, E.field(st, v, "0", "Ok"))
            for k in keys:
                if k not in home:
                    continue
                w = E.deref(st, E.field(st, p, home[k]))
                if not E.derived(st, w, lambda x: x == ("val", k)):
                    r.violation("%s.%s does not come back (%s)" % (t, home[k], what),
                                "%s (%s): written as '%s', after loading it holds %s" % (g.path, g.file, k, S.show(w)[:120]))
        if not good:
            r.violation("%s cannot be loaded (%s)" % (t, what), "%s (%s) fails on the keys %s" % (g.path, g.file, list(keys)))

    for k in order:
        if val[k] is None:
            r.violation("%s: key '%s' is not recognised" % (t, k), "%s (%s)" % (ident.path, ident.file))
            return order
    check(vis, order, "record")
    if optional:
        check(vis, [k for k in order if k not in optional], "record without what may be left out")
    elif fs.get("visit_seq"):
        check(fs["visit_seq"][0][0], order, "sequence")
    return order


class Text(Base):
    names = re.compile(r"^<(alloc::string::String|&str|alloc::borrow::Cow) as serde(_core)?::de::Deserialize>::deserialize$")

    def on_call(self, E, st, c):
        if self.names.search(c.name):
            return [(st.copy(), ok(unk("val", "text"))), (st.copy(), err(c.fresh("err")))]


def text(ctx, t, de, f, srcs):
    """saved as one of its fields; loaded from that text"""
    P, r = ctx.P, ctx.r
    r.obligation("%s: as text" % t)
    srcs = {x for s in srcs for x in s}
    if len(srcs) != 1:
        r.violation("%s is not saved as its text" % t, "%s (%s) writes %s" % (f.path, f.file, sorted(srcs)))
        return None
    E, out = runs(r, P, de, Text())
    good = 0
    for st, v in out:
        v = E.deref(st, v)
        if E.variants_of(st, v) == {"Err"}:
            continue
        good += 1
        if not E.derived(st, E.deref(st, E.field(st, v, "0", "Ok")), lambda k: k == ("val", "text")):
            r.violation("%s does not come back" % t, "%s (%s): after loading it is %s" % (de.path, de.file, S.show(v)[:120]))
    if not good:
        r.violation("%s cannot be loaded" % t, "%s (%s)" % (de.path, de.file))
    return list(srcs)


def enum(ctx, t, adt, f):
    P, r = ctx.P, ctx.r
    nm = f.local_name(1) or "arg1"
    n = 0
    fs = parts(P, t)
    for var in adt["vars"]:
        vn = var["n"]
        E, out = runs(r, P, f, Saves(unk("p", nm)[1]), facts={unk("p", nm)[1]: ("v", frozenset([vn]))})
        names = set()
        for st, v in out:
            if E.variants_of(st, E.deref(st, v)) == {"Err"}:
                continue
            for x in st.fsm:
                if x[0] == "variant":
                    names.add((x[1], x[2]))
                elif x[0] == "other":
                    names.add((x[1], None))
        if len(names) != 1 or next(iter(names))[1] is None or not fs.get("visit_enum") or not fs.get("visit_str"):
            r.notes.append("not decided: %s::%s" % (t, vn))
            continue
        op, name = next(iter(names))
        r.obligation("%s::%s" % (t, vn))
        n += 1
        fv = field_of(r, P, fs["visit_str"][0][0], name)
        if fv is None:
            r.violation("%s::%s: name '%s' is not recognised" % (t, vn, name), fs["visit_str"][0][0].path)
            continue
        g = fs["visit_enum"][0][0]
        E, out = runs(r, P, g, Loads([(name, fv)]))
        good = False
        for st, v in out:
            v = E.deref(st, v)
            if E.variants_of(st, v) == {"Err"}:
                continue
            good = True
            if op in ("serialize_unit_variant", "serialize_newtype_variant"):
                w = E.deref(st, E.field(st, v, "0", "Ok"))
                if E.variants_of(st, w) != {vn}:
                    r.violation("%s::%s comes back as another variant" % (t, vn), "%s (%s): %s" % (g.path, g.file, S.show(w)[:120]))
        if not good:
            r.violation("%s::%s cannot be loaded" % (t, vn), "%s (%s)" % (g.path, g.file))
    return n


class Reads(Base):
    """the reader of package.yaml and package.json: present are exactly the given keys"""
    names = re.compile(r"(HashMap|BTreeMap|Map|Mapping|Value)::(get|remove|contains_key)$|^serde_(json|yaml)::.*::?from_(str|value)$|"
                       r"^serde_(json|yaml)::.*Value::as_\w+$")
    init = False            # a value was not of the kind that was expected

    def __init__(self, P, present):
        self.P = P
        self.present = present
        self.asked = set()

    def inline(self, f):
        # whether the package is valid does not matter here
        return None if self.P.root(f).path.startswith("rez_next_package::serialization::") else False

    def on_call(self, E, st, c):
        n = c.name
        if not self.names.search(n):
            return None
        if n.endswith(("from_str", "from_value")):
            w = E.deref(st, c.args[0])
            good, bad = st.copy(), st.copy()
            bad.fsm = True
            return [(good, ok(unk("from", w))), (bad, err(c.fresh("err")))]
        if "::as_" in n:
            w = E.deref(st, c.args[0])
            good, bad = st.copy(), st.copy()
            bad.fsm = True
            return [(good, some(unk("from", w))), (bad, NONE)]
        k = E.deref(st, c.args[1])
        if k[0] != "s":
            return None
        self.asked.add(k[1])
        if n.endswith("contains_key"):
            return [(st, TRUE if k[1] in self.present else FALSE)]
        return [(st, some(unk("val", k[1])) if k[1] in self.present else NONE)]


def loader(ctx, keys):
    P, r = ctx.P, ctx.r
    roots = [f for f in P.fns.values() if re.search(r"::PackageLoader::load_from_(yaml|json)$", f.path)]
    r.floor("readers", len(roots), 2)
    value = P.adts.get("serde_json::value::Value")
    kinds = frozenset(v["n"] for v in value["vars"]) if value else frozenset(["Null", "Bool", "Number", "String", "Array", "Object"])
    for f in sorted(roots, key=lambda f: f.path):
        def ends(present, **kw):
            m = Reads(P, present)
            facts = {unk("val", k)[1]: ("v", kinds - {"Null"}) for k in present}
            E, out = runs(r, P, f, m, facts=facts)
            res = []
            for st, v in out:
                v = E.deref(st, v)
                if E.variants_of(st, v) != {"Err"}:
                    res.append((st, v))
            return E, m, res

        def arrives(E, st, p, k):
            w = E.deref(st, E.field(st, p, k))
            return w, E.derived(st, w, lambda x: x == ("val", k))

        for present in [list(keys)] + ([["name", k] for k in keys if k != "name"]):
            E, m, res = ends(present)
            if not res:
                r.violation("%s fails on every package with %s" % (f.path, ", ".join(present[1:])), "%s (%s)" % (f.path, f.file))
            for st, v in res:
                p = E.deref(st, E.field(st, v, "0", "Ok"))
                if st.fsm:
                    r.violation("%s accepts a value of another kind" % f.path,
                                "%s (%s): %s when one of %s is not of the kind that is read" % (f.path, f.file, S.show(v)[:80], ", ".join(present)))
                    continue
                for k in present:
                    w, good = arrives(E, st, p, k)
                    if not good:
                        r.violation("%s: %s does not arrive in the package" % (f.path, k), "%s (%s): the package's %s is %s" % (f.path, f.file, k, S.show(w)[:120]))
            if len(present) > 2:
                r.obligation("%s: %s" % (f.path, ", ".join(keys)), len(keys))
        # saved with metadata, the package is wrapped
        r.obligation("%s: package wrapped in its container" % f.path)
        E, m, res = ends(["package"])
        if not res:
            r.violation("%s rejects a package saved with metadata" % f.path, "%s (%s): fails when there is a 'package' and no 'name'" % (f.path, f.file))


def walk(x):
    yield x
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from walk(y)


def python_form(ctx):
    P, r = ctx.P, ctx.r
    data = next((a for a in P.adts if a.endswith("python_ast_parser::types::PackageData")), None)
    if data is None:
        return
    have = {x["n"]: x["ty"] for x in P.adts[PACKAGE]["vars"][0]["f"]}
    attrs = [x["n"] for x in P.adts[data]["vars"][0]["f"] if x["n"] in have and x["n"] != "commands_function"]
    roots = [f for f in P.fns.values() if re.search(r"::PackageSaver::save_to_python_with_options$", f.path)]
    r.floor("python_form", len(roots), 1)
    for f in roots:
        todo, seen = [f], {}
        while todo:
            g = todo.pop()
            if g.id in seen:
                continue
            seen[g.id] = g
            todo += [h for h in P.callees(g) if h.path.startswith("rez_next_package::serialization::") or h.path.startswith(f.path + "::")] \
                + [h for h in P.fns.values() if h.path.startswith(g.path + "::{closure")]
        read = set()
        for g in seen.values():
            for x in walk(g.blocks):
                if isinstance(x, list) and len(x) == 2 and x[0] == "." and x[1] in have:
                    read.add(x[1])
        for a in attrs:
            r.obligation("%s: attribute %s is written" % (f.path, a))
            if a not in read:
                r.violation("package.py form leaves out %s" % a, "%s (%s) does not read the package's %s" % (f.path, f.file, a))


SUITE = "rez_next_suites::suite::Suite"


class Suites(Base):
    names = re.compile(r"^serde_(yaml|json)::.*::?(to_string|to_string_pretty|from_str)$")

    def __init__(self):
        self.wrote = []

    def on_call(self, E, st, c):
        if not self.names.search(c.name):
            return None
        good, bad = st.copy(), st.copy()
        if c.name.endswith("from_str"):
            return [(good, ok(unk("file"))), (bad, err(c.fresh("err")))]
        w = E.deref(st, c.args[0])
        self.wrote.append((st.copy(), w, c.site))
        return [(good, ok(c.fresh("text"))), (bad, err(c.fresh("err")))]


def suite(ctx):
    """the file of a suite is another type; both conversions carry every part over"""
    P, r = ctx.P, ctx.r
    if SUITE not in P.adts or SUITE + "File" not in P.adts:
        return
    fields = {x["n"]: x["ty"] for x in P.adts[SUITE + "File"]["vars"][0]["f"]}
    both = [x["n"] for x in P.adts[SUITE]["vars"][0]["f"] if x["n"] in fields]
    n = 0
    for x in P.adts[SUITE]["vars"][0]["f"]:
        if x["n"] not in fields and x["n"] not in ("path", "status"):
            r.violation("%s.%s is not saved" % (SUITE, x["n"]), "no such part of %sFile" % SUITE)
    for f in P.fns.values():
        if f.path == SUITE + "::save":
            m = Suites()
            E, out = runs(r, P, f, m)
            me = unk("p", f.local_name(1) or "arg1")[1]
            r.floor("suite_writes", len(m.wrote), 1)
            for st, w, site in m.wrote:
                for k in both:
                    n += 1
                    v = E.deref(st, E.field(st, w, k))
                    if not E.derived(st, v, lambda x: x == (".", me, k)):
                        r.violation("%s.%s is not saved" % (SUITE, k), "%s at %s: %s is %s" % (f.path, site, k, S.show(v)[:100]))
                    r.obligation("%s: %s is written" % (f.path, k))
        if f.path == SUITE + "::load":
            m = Suites()
            facts = {unk(".", unk("file")[1], k)[1]: ("v", frozenset(["Some"])) for k in both if fields[k].startswith("core::option::Option<")}
            E, out = runs(r, P, f, m, facts=facts)
            for st, v in out:
                v = E.deref(st, v)
                if E.variants_of(st, v) == {"Err"}:
                    continue
                p = E.deref(st, E.field(st, v, "0", "Ok"))
                for k in both:
                    n += 1
                    w = E.deref(st, E.field(st, p, k))
                    if not E.derived(st, w, lambda x: x == (".", unk("file")[1], k)):
                        r.violation("%s.%s does not come back" % (SUITE, k), "%s (%s): %s" % (f.path, f.file, S.show(w)[:100]))
                    r.obligation("%s: %s comes back" % (f.path, k))
    mode = next((x["ty"] for x in P.adts[SUITE]["vars"][0]["f"] if x["n"] == "conflict_mode"), None)
    for f in P.fns.values():
        if mode and f.path == "<%s as core::str::traits::FromStr>::from_str" % mode:
            for var in P.adts[mode]["vars"]:
                n += 1
                r.obligation("%s is read by its name" % var["n"])
                E, out = runs(r, P, f, Base(), argvals={f.local_name(1) or "arg1": ("s", var["n"].lower())})
                got = {tuple(sorted(E.variants_of(st, E.deref(st, E.field(st, E.deref(st, v), "0", "Ok"))) or ("?",)))
                       if E.variants_of(st, E.deref(st, v)) != {"Err"} else "error" for st, v in out}
                if got != {(var["n"],)}:
                    r.violation("conflict mode %s does not come back" % var["n"], "%s (%s): '%s' is read as %s" % (f.path, f.file, var["n"].lower(), sorted(map(str, got))))
    r.floor("suite_parts", n, 6)
