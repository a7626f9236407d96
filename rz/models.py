"""Models of the functions outside the workspace that the analysed code calls (core, alloc, std, tokio)."""
import re
from .absint import (S, unk, UNIT, TRUE, FALSE, NONE, OPT, RES, CF, POLL, E1, some, ok, err, Sym, has_ref, subst)
from .program import decode_fmt

ALLV = {OPT: frozenset(["None", "Some"]), RES: frozenset(["Ok", "Err"]),
        CF: frozenset(["Continue", "Break"]), POLL: frozenset(["Ready", "Pending"])}


class Models(dict):
    def __init__(self):
        super().__init__()
        self.pats = []

    def fallback(self, E, st, c):
        for r, h in self.pats:
            if r.search(c.name):
                x = h(E, st, c)
                if x is not None:
                    return x
        return None


MODELS = Models()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def pat(*pats):
    def d(f):
        for p in pats:
            MODELS.pats.append((re.compile(p), f))
        return f
    return d


# -- helpers ---------------------------------------------------------------
def loc_of(E, st, a):
    """location an argument designates (through references), or None"""
    n = 0
    loc = None
    while a[0] == "R" and n < 8:
        loc = a[1]
        a = E.load(st, loc)
        n += 1
    return loc, E.norm(st, a)


def overwrite(E, st, loc, v, new):
    """store new at loc; returns v, the value read from it before"""
    E.aged = None
    E.write_loc(st, loc, new)
    return subst(v, *E.aged) if E.aged else v


def payload(E, st, v, adt, var, f="0"):
    v = E.deref(st, v)
    return E.field(st, v, f, var)


def split(E, st, a, adt):
    """[(state, variant)] for each variant the value may be; state refined."""
    loc, v = loc_of(E, st, a)
    vs = E.variants_of(st, v)
    if vs is None:
        vs = ALLV[adt]
    out = []
    for n in sorted(vs):
        s = st.copy()
        if E.refine_variants(s, loc, v, frozenset([n])):
            out.append((s, n))
    return out


def isv(E, st, a, adt, names):
    loc, v = loc_of(E, st, a)
    vs = E.variants_of(st, v)
    names = frozenset(names)
    if vs is not None:
        if vs <= names:
            return TRUE
        if not vs & names:
            return FALSE
    return ("isv", loc, v, names, ALLV.get(adt) or frozenset(E.P.variants.get(adt, ())))


def both(adt, a, va, b, vb):
    return ("E", adt, tuple(sorted(((a, tuple(va)), (b, tuple(vb))))))


def callf(E, st, c, f, args):
    return E.call_value(st, f, args, c, c.stack, 0)


def mapvals(outs, g):
    return [(s, g(v)) for s, v in outs]


# -- ? operator ------------------------------------------------------------
@model("<core::result::Result as core::ops::try_trait::Try>::branch")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "E":
        out = []
        for n, fs in v[2]:
            if n == "Ok":
                out.append(("Continue", fs))
            else:
                out.append(("Break", (("0", ("E", RES, (("Err", fs),))),)))
        return [(st, ("E", CF, tuple(sorted(out))))]
    return [(s, E1(CF, "Continue", payload(E, s, v, RES, "Ok")) if n == "Ok" else
             E1(CF, "Break", err(payload(E, s, v, RES, "Err")))) for s, n in split(E, st, c.args[0], RES)]


@model("<core::option::Option as core::ops::try_trait::Try>::branch")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "E":
        out = []
        for n, fs in v[2]:
            out.append(("Continue", fs) if n == "Some" else ("Break", (("0", NONE),)))
        return [(st, ("E", CF, tuple(sorted(out))))]
    return [(s, E1(CF, "Continue", payload(E, s, v, OPT, "Some")) if n == "Some" else
             E1(CF, "Break", NONE)) for s, n in split(E, st, c.args[0], OPT)]


@model("<core::result::Result as core::ops::try_trait::FromResidual>::from_residual")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(st, err(payload(E, st, v, RES, "Err")))]


@model("<core::option::Option as core::ops::try_trait::FromResidual>::from_residual")
def _(E, st, c):
    return [(st, NONE)]


@pat(r"ops::try_trait::FromResidual>::from_residual$", r"ops::try_trait::Try>::branch$")
def _(E, st, c):
    if "Poll" in c.name and c.name.endswith("branch"):
        return None
    return None


# -- Option / Result -------------------------------------------------------
@model("core::option::Option::is_some")
def _(E, st, c):
    return [(st, isv(E, st, c.args[0], OPT, ["Some"]))]


@model("core::option::Option::is_none")
def _(E, st, c):
    return [(st, isv(E, st, c.args[0], OPT, ["None"]))]


@model("core::result::Result::is_ok")
def _(E, st, c):
    return [(st, isv(E, st, c.args[0], RES, ["Ok"]))]


@model("core::result::Result::is_err")
def _(E, st, c):
    return [(st, isv(E, st, c.args[0], RES, ["Err"]))]


def combin(adt, on, rest):
    """rest: variant -> lambda(payload)->value ; on: variant whose payload goes through the closure"""
    pass


def hof(adt, hot, wrap_hot, cold):
    """combinator: closure called on payload of variant `hot`."""
    def h(E, st, c):
        v = E.deref(st, c.args[0])
        out = []
        for s, n in split(E, st, c.args[0], adt):
            if n == hot:
                p = payload(E, s, v, adt, hot) if hot != "None" else None
                for s2, r in callf(E, s, c, c.args[-1], [p] if p is not None else []):
                    out.append((s2, wrap_hot(E, s2, c, r)))
            else:
                p = payload(E, s, v, adt, n) if n != "None" else None
                out.append((s, cold(E, s, c, p)))
        return out
    return h


MODELS["core::option::Option::map"] = hof(OPT, "Some", lambda E, s, c, r: some(r), lambda E, s, c, p: NONE)
MODELS["core::option::Option::and_then"] = hof(OPT, "Some", lambda E, s, c, r: r, lambda E, s, c, p: NONE)
MODELS["core::option::Option::is_some_and"] = hof(OPT, "Some", lambda E, s, c, r: r, lambda E, s, c, p: FALSE)
MODELS["core::option::Option::is_none_or"] = hof(OPT, "Some", lambda E, s, c, r: r, lambda E, s, c, p: TRUE)
MODELS["core::option::Option::or_else"] = hof(OPT, "None", lambda E, s, c, r: r, lambda E, s, c, p: some(p))
MODELS["core::option::Option::unwrap_or_else"] = hof(OPT, "None", lambda E, s, c, r: r, lambda E, s, c, p: p)
MODELS["core::option::Option::ok_or_else"] = hof(OPT, "None", lambda E, s, c, r: err(r), lambda E, s, c, p: ok(p))
MODELS["core::result::Result::map"] = hof(RES, "Ok", lambda E, s, c, r: ok(r), lambda E, s, c, p: err(p))
MODELS["core::result::Result::map_err"] = hof(RES, "Err", lambda E, s, c, r: err(r), lambda E, s, c, p: ok(p))
MODELS["core::result::Result::and_then"] = hof(RES, "Ok", lambda E, s, c, r: r, lambda E, s, c, p: err(p))
MODELS["core::result::Result::or_else"] = hof(RES, "Err", lambda E, s, c, r: r, lambda E, s, c, p: ok(p))
MODELS["core::result::Result::unwrap_or_else"] = hof(RES, "Err", lambda E, s, c, r: r, lambda E, s, c, p: p)
MODELS["core::result::Result::is_ok_and"] = hof(RES, "Ok", lambda E, s, c, r: r, lambda E, s, c, p: FALSE)
MODELS["core::result::Result::is_err_and"] = hof(RES, "Err", lambda E, s, c, r: r, lambda E, s, c, p: FALSE)
MODELS["core::result::Result::inspect_err"] = hof(RES, "Err", lambda E, s, c, r: err(c.fresh("e")), lambda E, s, c, p: ok(p))


@model("core::option::Option::filter")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    out = []
    for s, n in split(E, st, c.args[0], OPT):
        if n == "None":
            out.append((s, NONE))
            continue
        p = payload(E, s, v, OPT, "Some")
        for s2, r in callf(E, s, c, c.args[1], [p]):
            t = E.truth(s2, r)
            if t != 0:
                s3 = s2.copy()
                if E.assume(s3, r, 1):
                    out.append((s3, some(p)))
            if t != 1:
                s3 = s2.copy()
                if E.assume(s3, r, 0):
                    out.append((s3, NONE))
    return out


@model("core::option::Option::map_or", "core::option::Option::map_or_else", "core::result::Result::map_or",
       "core::result::Result::map_or_else")
def _(E, st, c):
    adt, hot = (OPT, "Some") if "Option" in c.name else (RES, "Ok")
    v = E.deref(st, c.args[0])
    out = []
    for s, n in split(E, st, c.args[0], adt):
        if n == hot:
            out += callf(E, s, c, c.args[2], [payload(E, s, v, adt, hot)])
        elif c.name.endswith("_else"):
            out += callf(E, s, c, c.args[1], [payload(E, s, v, adt, n)] if adt == RES else [])
        else:
            out.append((s, c.args[1]))
    return out


@model("core::option::Option::ok_or")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(s, ok(payload(E, s, v, OPT, "Some")) if n == "Some" else err(c.args[1])) for s, n in split(E, st, c.args[0], OPT)]


@model("core::option::Option::or")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(s, some(payload(E, s, v, OPT, "Some")) if n == "Some" else c.args[1]) for s, n in split(E, st, c.args[0], OPT)]


@model("core::option::Option::and", "core::result::Result::and")
def _(E, st, c):
    adt, hot = (OPT, "Some") if "Option" in c.name else (RES, "Ok")
    v = E.deref(st, c.args[0])
    return [(s, c.args[1] if n == hot else (NONE if adt == OPT else err(payload(E, s, v, RES, "Err"))))
            for s, n in split(E, st, c.args[0], adt)]


@model("core::result::Result::or")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(s, ok(payload(E, s, v, RES, "Ok")) if n == "Ok" else c.args[1]) for s, n in split(E, st, c.args[0], RES)]


@model("core::result::Result::ok")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(s, some(payload(E, s, v, RES, "Ok")) if n == "Ok" else NONE) for s, n in split(E, st, c.args[0], RES)]


@model("core::result::Result::err")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(s, some(payload(E, s, v, RES, "Err")) if n == "Err" else NONE) for s, n in split(E, st, c.args[0], RES)]


def unwrap(adt, hot):
    def h(E, st, c):
        v = E.deref(st, c.args[0])
        return [(s, payload(E, s, v, adt, hot)) for s, n in split(E, st, c.args[0], adt) if n == hot]
    return h


for n in ("unwrap", "expect", "unwrap_unchecked"):
    MODELS["core::option::Option::" + n] = unwrap(OPT, "Some")
    MODELS["core::result::Result::" + n] = unwrap(RES, "Ok")
for n in ("unwrap_err", "expect_err"):
    MODELS["core::result::Result::" + n] = unwrap(RES, "Err")


@model("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def _(E, st, c):
    adt, hot = (OPT, "Some") if "Option" in c.name else (RES, "Ok")
    v = E.deref(st, c.args[0])
    return [(s, payload(E, s, v, adt, hot) if n == hot else c.args[1]) for s, n in split(E, st, c.args[0], adt)]


def default_of(c):
    ty = c.fn.locals[c.term[3][0]][0] if c.term and not c.term[3][1] else ""
    if ty == "bool":
        return FALSE
    if ty in ("usize", "u64", "u32", "i32", "i64", "u8", "u128"):
        return ("i", 0)
    if ty.startswith("alloc::vec::Vec"):
        return ("L", "e", None)
    if ty.startswith("core::option::Option"):
        return NONE
    if ty == "alloc::string::String":
        return ("s", "")
    return unk("default", ty)


@model("core::default::Default::default", "<bool as core::default::Default>::default", "<usize as core::default::Default>::default",
       "<u64 as core::default::Default>::default", "<u32 as core::default::Default>::default", "<i32 as core::default::Default>::default",
       "<alloc::string::String as core::default::Default>::default", "<core::option::Option as core::default::Default>::default")
def _(E, st, c):
    if c.k is not None and E.P.targets(c.k):
        return None
    return [(st, default_of(c))]


@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def _(E, st, c):
    adt, hot = (OPT, "Some") if "Option" in c.name else (RES, "Ok")
    v = E.deref(st, c.args[0])
    return [(s, payload(E, s, v, adt, hot) if n == hot else default_of(c)) for s, n in split(E, st, c.args[0], adt)]


@model("core::option::Option::flatten", "core::result::Result::flatten")
def _(E, st, c):
    adt, hot = (OPT, "Some") if "Option" in c.name else (RES, "Ok")
    v = E.deref(st, c.args[0])
    return [(s, payload(E, s, v, adt, hot) if n == hot else (NONE if adt == OPT else err(payload(E, s, v, RES, "Err"))))
            for s, n in split(E, st, c.args[0], adt)]


@model("core::option::Option::transpose")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    out = []
    for s, n in split(E, st, c.args[0], OPT):
        if n == "None":
            out.append((s, ok(NONE)))
            continue
        p = payload(E, s, v, OPT, "Some")
        for s2, m in split(E, s, p, RES):
            out.append((s2, ok(some(payload(E, s2, p, RES, "Ok"))) if m == "Ok" else err(payload(E, s2, p, RES, "Err"))))
    return out


@model("core::option::Option::take")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    if loc is not None:
        v = overwrite(E, st, loc, v, NONE)
    return [(st, v)]


@model("core::option::Option::get_or_insert", "core::option::Option::insert")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    vs = E.variants_of(st, v)
    if loc is None or c.name.endswith("get_or_insert") and (vs is None or len(vs) != 1):
        return E.external(st, c, c.stack, 0)
    if c.name.endswith("::insert") or vs == {"None"}:
        E.write_loc(st, loc, some(c.args[1]))
    return [(st, c.fresh())]


@model("core::mem::take", "core::mem::replace")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    if loc is not None:
        v = overwrite(E, st, loc, v, c.args[1] if len(c.args) > 1 else c.fresh("dflt"))
    return [(st, v)]


# as_ref & friends: identity on the (dereferenced) option value
@model("core::option::Option::as_ref", "core::option::Option::as_deref", "core::option::Option::cloned",
       "core::option::Option::copied", "core::option::Option::as_mut", "core::option::Option::as_deref_mut",
       "core::result::Result::as_ref", "core::result::Result::as_deref", "core::result::Result::as_mut",
       "core::option::Option::iter", "core::result::Result::cloned", "core::option::Option::as_slice")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    return [(st, v)]


@model("core::bool::then", "bool::then")
def _(E, st, c):
    out = []
    for t in (0, 1):
        s = st.copy()
        if E.assume(s, c.args[0], t):
            if t:
                out += mapvals(callf(E, s, c, c.args[1], []), some)
            else:
                out.append((s, NONE))
    return out


@model("core::bool::then_some", "bool::then_some")
def _(E, st, c):
    out = []
    for t in (0, 1):
        s = st.copy()
        if E.assume(s, c.args[0], t):
            out.append((s, some(c.args[1]) if t else NONE))
    return out


# -- transparent functions --------------------------------------------------
TRANSPARENT = re.compile(
    r"( as core::clone::Clone>::clone$| as core::ops::deref::Deref(Mut)?>::deref(_mut)?$"
    r"|ToOwned>::to_owned$|ToString>::to_string$|convert::AsRef>::as_ref$|convert::AsMut>::as_mut$|borrow::Borrow>::borrow$"
    r"|convert::Into>::into$|convert::Into::into$|convert::From>::from$|convert::AsRef::as_ref$"
    r"|^alloc::boxed::Box::new$|^alloc::boxed::Box::pin$|^alloc::rcs::arc::Arc::new$|^alloc::rc::Rc::new$"
    r"|^alloc::sync::Arc::new$|^core::pin::Pin::new(_unchecked)?$|^core::pin::Pin::as_mut$|^core::hint::must_use$"
    r"|Path::to_path_buf$|PathBuf::as_path$|Path::new$|String::as_str$|str::to_string$|OsString::as_os_str$"
    r"|String::as_bytes$|str::as_bytes$|^str::as_ref$|Path::as_os_str$|PathBuf::into_os_string$|Path::to_string_lossy$"
    r"|Path::display$|Path::to_str_lossy$|OsStr::to_string_lossy$|OsStr::to_os_string$|Cow::into_owned$|borrow::Cow::to_mut$"
    r"|core::future::into_future::IntoFuture>::into_future$|core::future::into_future::IntoFuture::into_future$"
    r"|^alloc::string::String::into_boxed_str$|^str::to_owned$|^core::convert::identity$|^core::iter::traits::collect::IntoIterator>::into_iter$"
    r"|^\[T\]::to_vec$|^alloc::vec::Vec::as_slice$|^alloc::vec::Vec::into_boxed_slice$|^alloc::slice::.*::to_vec$"
    r"|^core::ops::function::identity$|AsDisplay>::as_display$|^std::sync::poison::PoisonError::into_inner$"
    r"|^tokio::task::coop::|^core::mem::manually_drop::|^alloc::boxed::Box::into_pin$|^core::cell::RefCell::borrow(_mut)?$"
    r"|^core::fmt::Arguments::from_str$|^alloc::sync::Arc::clone$)")

TRANSP_NOT = re.compile(r"^<(core::io::error::Error|std::io::error::Error|serde_json::.*Error) as core::convert::From|Iterator|str as core::str::traits::FromStr")


@pat(TRANSPARENT.pattern)
def _(E, st, c):
    if TRANSP_NOT.search(c.name):
        return None
    if not c.args:
        return None
    a = c.args[0]
    nm = c.name
    if nm.endswith("::clone") or nm.endswith("to_vec") or nm.endswith("to_owned") or nm.endswith("to_path_buf") \
            or nm.endswith("to_string"):
        return [(st, E.deref(st, a))]
    return [(st, a)]


# -- Iterators / vectors ----------------------------------------------------
@pat(r"IntoIterator(>)?::into_iter$", r"^\[T\]::iter(_mut)?$", r"^alloc::vec::Vec::(iter|drain|into_iter)$",
     r"Iterator::(rev|cloned|copied|by_ref|peekable|fuse)$", r"^\[T\]::to_vec$", r"^alloc::vec::Vec::into_boxed_slice$")
def _(E, st, c):
    v = E.deref(st, c.args[0]) if c.args[0][0] == "R" else c.args[0]
    if v[0] in ("L",) or v[0] == "A" and v[1] == "miter":
        return [(st, v)]
    if v[0] == "A" and v[1] == "array":
        if not v[2]:
            return [(st, ("L", "e", None))]
        el = v[2][0][1]
        ph = S("r", c.ctx, c.block, c.name, "el")
        for _, x in v[2][1:]:
            el = E.join_val(el, x, ph)
        return [(st, ("L", "n", el))]
    return [(st, ("A", "iter", (("src", v),)))]


@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity", "std::collections::hash::set::HashSet::new",
       "std::collections::hash::map::HashMap::new", "<alloc::vec::Vec as core::default::Default>::default",
       "<std::collections::hash::map::HashMap as core::default::Default>::default",
       "alloc::collections::btree::map::BTreeMap::new", "alloc::collections::vec_deque::VecDeque::new")
def _(E, st, c):
    return [(st, ("L", "e", None))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::into_vec", "[T]::into_vec")
def _(E, st, c):
    v = boxed_array(E, st, c.args[0])
    el = None
    for x in _arr(v):
        el = x if el is None else E.join_val(el, x, S("r", c.ctx, c.block, c.name, "el"))
    return [(st, ("L", "n", el))]


def boxed_array(E, st, v):
    """the array behind vec![...]: Box<MaybeUninit<[T; n]>> written through .value.value"""
    v = E.deref(st, v)
    if v[0] == "?":
        v = E.deref(st, E.field(st, E.field(st, v, "value"), "value"))
    return v


def _arr(v):
    if v[0] == "A" and v[1] == "array":
        return [x for _, x in v[2]]
    if v[0] == "A":
        out = []
        for _, x in v[2]:
            out += _arr(x)
        return out
    return []


@model("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back",
       "alloc::collections::vec_deque::VecDeque::push_front", "std::collections::hash::set::HashSet::insert",
       "std::collections::hash::map::HashMap::insert", "alloc::vec::Vec::insert")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    if loc is None:
        if v[0] == "?":
            loc = (("h", v[1]), ())
        else:
            return None
    x = c.args[-1]
    if v[0] == "L":
        el = x if v[2] is None else E.join_val(v[2], x, S("r", c.ctx, c.block, c.name, "el"))
        E.write_loc(st, loc, ("L", "n", el))
    else:
        E.write_loc(st, loc, ("L", "n", None))
    if c.name.endswith("push") or c.name.endswith("_back") or c.name.endswith("_front") or "vec" in c.name:
        return [(st, UNIT)]
    return [(st, c.fresh())]


@model("alloc::vec::Vec::clear")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    if loc is not None:
        E.write_loc(st, loc, ("L", "e", None))
    return [(st, UNIT)]


@model("alloc::vec::Vec::is_empty", "[T]::is_empty", "std::collections::hash::map::HashMap::is_empty",
       "std::collections::hash::set::HashSet::is_empty", "alloc::string::String::is_empty", "str::is_empty")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "L" and v[1] in "en":
        return [(st, TRUE if v[1] == "e" else FALSE)]
    if v[0] == "s":
        return [(st, TRUE if v[1] == "" else FALSE)]
    if v[0] == "A" and v[1] == "array":
        return [(st, FALSE if v[2] else TRUE)]
    if v[0] == "?":
        return [(st, unk("is_empty", v[1]))]
    return [(st, c.fresh())]


@pat(r"Iterator>::next$", r"Iterator::next$", r"ReadDir>::next$")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "A" and v[1] == "miter":
        return [(st, both(OPT, "None", (), "Some", (("0", v[2][0][1]),)))]
    if v[0] == "L":
        if v[1] == "e":
            return [(st, NONE)]
        el = v[2] if v[2] is not None else c.fresh("el")
        return [(st, both(OPT, "None", (), "Some", (("0", el),)))]
    src = S("v", v)
    return [(st, both(OPT, "None", (), "Some", (("0", c.fresh("")),)))]


def _closure_runs(E, st, c, f):
    """the closure handed to an iterator adapter runs zero, one or several times: [(state, value of one run or None)], or None
    when nothing of interest happens in it"""
    v = E.deref(st, f)
    if v[0] == "A" and isinstance(v[1], tuple) and v[1][0] == "closure":
        if v[1][1] not in E.relevant:
            return None
    elif v[0] == "F":
        k = E.fnconst[v[1]]
        if not E.M.event(E.P.cname(k), k) and not any(t.id in E.relevant for t in E.P.targets(k)):
            return None
    else:
        return None
    res = [(st.copy(), None)]
    cur = [(st.copy(), None)]
    for _ in range(2):
        new = []
        for s1, v1 in cur:
            for s2, v2 in E.call_value(s1.copy(), f, None, c, c.stack, 0):
                vs = E.variants_of(s2, v1) if v1 is not None else None
                new.append((s2, v1 if vs is not None and vs <= {"Err"} else v2))
        fs = {s.fsm for s, v in res if v is not None}
        res += new
        cur = [(s, v) for s, v in new if s.fsm not in fs and s.fsm != st.fsm]
        if not cur:
            break
    out = {}
    for s, v in res:
        vs = E.variants_of(s, v) if v is not None else None
        k = (s.fsm, v is None, vs if vs is not None and len(vs) == 1 else None, v if v is not None and v[0] == "i" else None)
        if k in out:
            o, ov = out[k]
            j, _ = E.join(o, s, (c.ctx, c.block, "ext", k[1]))
            out[k] = (j, E.join_val(ov, v, S("r", c.ctx, c.block, c.name, "mv", str(k[2]))) if v is not None else None)
        else:
            out[k] = (s, v)
    outs = []
    for s, v in out.values():
        s = s.copy()
        E.havoc_args(s, c)
        outs.append((s, v))
    return outs


def _only(E, s, v, name):
    vs = E.variants_of(s, v) if v is not None else None
    return vs is not None and vs == {name}


IT = "core::iter::traits::iterator::Iterator::"


@model(IT + "map", IT + "filter_map", IT + "flat_map")
def _(E, st, c):
    rs = _closure_runs(E, st, c, c.args[1]) if len(c.args) == 2 else None
    if rs is None:
        src = E.deref(st, c.args[0])
        outs = E.external(st, c, c.stack, 0)
        if src[0] == "L" and c.name.endswith("::map"):
            outs = [(s, ("L", src[1], v)) for s, v in outs]
        return outs
    out = []
    for s, v in rs:
        if v is not None and c.name.endswith("filter_map"):
            v = E.field(s, E.deref(s, v), "0", "Some") if _only(E, s, v, "Some") else None
        elif c.name.endswith("flat_map"):
            v = None
        out.append((s, ("A", "miter", (("el", v),)) if v is not None else c.fresh()))
    return out


@model(IT + "try_for_each", IT + "all", IT + "any", IT + "find_map", IT + "for_each", IT + "filter")
def _(E, st, c):
    if c.name.endswith("::filter"):
        src = E.deref(st, c.args[0])
        if src[0] == "A" and src[1] == "miter":
            out = []
            for s, v in E.call_value(st.copy(), c.args[1], [src[2][0][1]], c, c.stack, 0):
                out.append((s, c.fresh() if E.truth(s, v) == 0 else src))
            return out
    rs = _closure_runs(E, st, c, c.args[1]) if len(c.args) == 2 else None
    if rs is None or c.name.endswith(("for_each", "filter")) and not c.name.endswith("try_for_each"):
        return E.external(st, c, c.stack, 0)
    op = c.name.rsplit("::", 1)[1]
    out = []
    for s, v in rs:
        x = c.fresh()
        if op == "try_for_each":
            x = ok(UNIT) if v is None or _only(E, s, v, "Ok") else v if _only(E, s, v, "Err") else x
        elif op == "all" and (v is None or v[0] == "i"):
            x = TRUE if v is None else v
        elif op == "any" and (v is None or v[0] == "i"):
            x = FALSE if v is None else v
        elif op == "find_map":
            x = v if v is not None and _only(E, s, v, "Some") else NONE if v is None else x
        out.append((s, x))
    return out


@model(IT + "collect")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    if v[0] == "L" and (c.k or {}).get("ga", [""])[-1].startswith("alloc::vec::Vec<"):
        return [(st, v)]
    if v[0] == "A" and v[1] == "miter":
        el = v[2][0][1]
        to = (c.k or {}).get("ga", [""])[-1]
        if to.startswith(RES + "<"):
            if _only(E, st, el, "Err"):
                return [(st, err(E.field(st, E.deref(st, el), "0", "Err")))]
            if _only(E, st, el, "Ok"):
                return [(st, ok(("L", "n", E.field(st, E.deref(st, el), "0", "Ok"))))]
        elif to.startswith(OPT + "<"):
            if _only(E, st, el, "None"):
                return [(st, NONE)]
        elif to.startswith("alloc::vec::Vec<"):
            return [(st, ("L", "n", el))]
    return E.external(st, c, c.stack, 0)


# -- strings / format --------------------------------------------------------
@model("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
       "core::fmt::rt::Argument::new_lower_hex")
def _(E, st, c):
    return [(st, E.deref(st, c.args[0]))]


@model("core::fmt::Arguments::new")
def _(E, st, c):
    tpl = E.deref(st, c.args[0])
    arr = E.deref(st, c.args[1])
    parts = None
    if tpl[0] == "b":
        parts = decode_fmt(list(tpl[1]) if not isinstance(tpl[1], str) else tpl[1].encode("latin1"))
    if parts is None:
        return [(st, c.fresh())]
    vals = [x for _, x in arr[2]] if arr[0] == "A" else []
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(("s", p))
        else:
            out.append(E.deref(st, vals[p]) if p < len(vals) else unk("fmtarg", p))
    if all(x[0] == "s" for x in out):
        return [(st, ("s", "".join(x[1] for x in out)))]
    return [(st, unk("fmt", tuple(out)))]


@model("alloc::fmt::format")
def _(E, st, c):
    return [(st, E.deref(st, c.args[0]))]


@pat(r"^std::path::(Path|PathBuf)::(join|parent|with_extension|with_file_name|file_name|file_stem|extension|components|strip_prefix)$",
     r"^str::(to_lowercase|to_uppercase|trim.*|replace|len|contains|starts_with|ends_with|strip_prefix|strip_suffix|parse|split_once|rsplit_once|eq_ignore_ascii_case)$",
     r"^std::ffi::os_str::OsStr::to_str$", r"^std::path::Path::(to_str|starts_with|is_absolute|ends_with)$")
def _(E, st, c):
    args = tuple(E.deref(st, a) for a in c.args)
    if any(has_ref(a) for a in args):
        return None
    op = c.name.rsplit("::", 1)[1]
    if all(a[0] == "s" for a in args) and args:
        x = [a[1] for a in args]
        if op == "to_lowercase":
            return [(st, ("s", x[0].lower()))]
        if op == "to_uppercase":
            return [(st, ("s", x[0].upper()))]
        if op == "trim":
            return [(st, ("s", x[0].strip()))]
        if op == "replace" and len(x) == 3:
            return [(st, ("s", x[0].replace(x[1], x[2])))]
        if op == "contains" and len(x) == 2:
            return [(st, ("i", int(x[1] in x[0])))]
        if op == "starts_with" and len(x) == 2 and "path" not in c.name:
            return [(st, ("i", int(x[0].startswith(x[1]))))]
        if op == "ends_with" and len(x) == 2 and "path" not in c.name:
            return [(st, ("i", int(x[0].endswith(x[1]))))]
    return [(st, unk("pure", c.name.rsplit("::", 1)[1], args))]


def _depth(v):
    n = 0
    while v[0] == "?" and S.rev[v[1].i][0] == "pure":
        n += 1
        v = S.rev[v[1].i][2][0]
        if n > 6:
            break
    return n


@model("std::path::PathBuf::push", "std::path::PathBuf::set_file_name")
def _(E, st, c):
    """in-place forms of join and with_file_name"""
    loc, v = loc_of(E, st, c.args[0])
    x = E.deref(st, c.args[1])
    if loc is None or has_ref(v) or has_ref(x) or v[0] not in ("s", "?") or x[0] not in ("s", "?") or _depth(v) > 6:
        return None
    overwrite(E, st, loc, v, unk("pure", "join" if c.name.endswith("push") else "with_file_name", (v, x)))
    return [(st, UNIT)]


@model("alloc::string::String::push_str", "<alloc::string::String as core::ops::arith::Add>::add")
def _(E, st, c):
    """appending to a short known text is the same as formatting it"""
    add = c.name.endswith("add")
    loc, v = (None, E.deref(st, c.args[0])) if add else loc_of(E, st, c.args[0])
    x = E.deref(st, c.args[1])
    parts = (v,) if v[0] == "s" and v[1] else S.rev[v[1].i][1] if v[0] == "?" and S.rev[v[1].i][0] == "fmt" else ()
    if not parts or len(parts) > 4 or x[0] not in ("s", "?") or loc is None and not add:
        return None
    if all(p[0] == "s" for p in parts) and x[0] == "s":
        n = ("s", "".join(p[1] for p in parts) + x[1])
    else:
        n = unk("fmt", tuple(parts) + (x,))
    if add:
        return [(st, n)]
    overwrite(E, st, loc, v, n)
    return [(st, UNIT)]


# -- comparisons ---------------------------------------------------------------
@pat(r"core::cmp::PartialEq>::(eq|ne)$", r"core::cmp::PartialEq::(eq|ne)$")
def _(E, st, c):
    if len(c.args) != 2:
        return None
    a = c.args[0]; b = c.args[1]
    ne = c.name.endswith("ne")
    la, va = loc_of(E, st, a)
    lb, vb = loc_of(E, st, b)
    r = None
    for (l, v, o) in ((la, va, vb), (lb, vb, va)):
        if o[0] == "E" and len(o[2]) == 1 and not o[2][0][1] and v[0] in ("E", "?"):
            adt = o[1]
            r = isv(E, st, ("R", l, 0) if l is not None else v, adt, [o[2][0][0]])
            break
    if r is None and va[0] == "E" and vb[0] == "E" and va[1] == vb[1]:
        na, nb = dict(va[2]), dict(vb[2])
        if not set(na) & set(nb):
            r = FALSE
        elif len(na) == 1 and len(nb) == 1:
            fa, fb = list(na.values())[0], list(nb.values())[0]
            if len(fa) == 1 and len(fb) == 1:
                r = ("cmp", "eq", E.deref(st, fa[0][1]), E.deref(st, fb[0][1]))
                t = E.cmp_truth(st, r)
                if t is not None:
                    r = ("i", t)
    if r is None:
        if va[0] in ("i", "s", "?") or vb[0] in ("i", "s", "?"):
            r = ("cmp", "eq", va, vb)
            t = E.cmp_truth(st, r)
            if t is not None:
                r = ("i", t)
        else:
            r = unk("eq", S("v", va), S("v", vb))
    if ne:
        r = ("i", 1 - r[1]) if r[0] == "i" else ("not", r)
    return [(st, r)]


@pat(r"^<bool as core::ops::bit::Not>::not$")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    return [(st, ("i", 1 - v[1]) if v[0] == "i" else ("not", v))]


# -- closures -------------------------------------------------------------------
@pat(r"core::ops::function::Fn(Once|Mut)?(>)?::call(_once|_mut)?$")
def _(E, st, c):
    f = E.deref(st, c.args[0])
    if f[0] in ("F",) or (f[0] == "A" and isinstance(f[1], tuple)):
        tup = E.deref(st, c.args[1]) if len(c.args) > 1 else UNIT
        args = [v for _, v in tup[2]] if tup[0] == "A" else []
        return E.call_value(st, f, args, c, c.stack, 0)
    return None


# -- async ------------------------------------------------------------------------
@model("core::future::future::Future::poll", "<core::pin::Pin as core::future::future::Future>::poll")
def _(E, st, c):
    return mapvals(E.poll(st, c.args[0], c, c.stack, 0), lambda v: E1(POLL, "Ready", v))


@pat(r"core::future::future::Future>::poll$")
def _(E, st, c):
    return mapvals(E.poll(st, c.args[0], c, c.stack, 0), lambda v: E1(POLL, "Ready", v))


@model("core::future::get_context")
def _(E, st, c):
    return [(st, unk("taskctx"))]


@pat(r"^tokio::runtime::(runtime::Runtime|handle::Handle)::block_on$", r"futures.*::block_on$")
def _(E, st, c):
    return E.poll(st, c.args[1] if len(c.args) > 1 else c.args[0], c, c.stack, 0)


@pat(r"^tokio::(task::spawn::spawn|spawn)$", r"Runtime::spawn$", r"JoinSet::spawn$")
def _(E, st, c):
    # the task may run to completion at once or (as far as the spawner can see) not at all
    fut = E.deref(st, c.args[-1])
    if not (fut[0] == "A" and isinstance(fut[1], tuple)):
        return [(st, c.fresh("join"))]
    out = [(st.copy(), c.fresh("join"))]
    for s, v in E.poll(st, fut, c, c.stack, 0):
        out.append((s, ("A", "ready", (("0", both(RES, "Ok", (("0", v),), "Err", (("0", c.fresh("je")),))),))))
    return out


@pat(r"^tokio::task::(blocking::)?(spawn_blocking|block_in_place)$", r"^std::thread::spawn$")
def _(E, st, c):
    out = []
    for s, v in callf(E, st, c, c.args[-1], []):
        if c.name.endswith("in_place"):
            out.append((s, v))
        else:
            out.append((s, ("A", "ready", (("0", both(RES, "Ok", (("0", v),), "Err", (("0", c.fresh("je")),))),))))
    return out


@pat(r"^tokio::time::timeout::timeout$", r"^tokio::time::timeout$")
def _(E, st, c):
    out = []
    s0 = st.copy()
    for s, v in E.poll(st, c.args[1], c, c.stack, 0):
        out.append((s, ("A", "ready", (("0", both(RES, "Ok", (("0", v),), "Err", (("0", c.fresh("to")),))),))))
    return out or [(s0, c.fresh("to"))]


# -- locks: the guarded content is reread on every acquisition ---------------------
@pat(r"^(std::sync::poison::|tokio::sync::|parking_lot::|lock_api::)?.*(Mutex|RwLock)::(lock|read|write)$")
def _(E, st, c):
    v = E.deref(st, c.args[0])
    g = ("?", v[1]) if v[0] == "?" else c.fresh("guard")
    g = c.fresh("guard")
    if c.name.startswith("tokio"):
        return [(st, ("A", "ready", (("0", g),)))]
    if c.name.startswith("std"):
        return [(st, ok(g))]
    return [(st, g)]


@pat(r"^(core::panicking|std::rt::begin_panic|core::option::unwrap_failed)")
def _(E, st, c):
    return []


# -- process::Command builder: program and argument list ------------------------------
CMD = r"^(std::process|tokio::process)::Command::"


def cmd_const(E, st, v):
    v = E.deref(st, v)
    return v


@pat(CMD + r"new$")
def _(E, st, c):
    return [(st, ("A", "cmd", (("prog", cmd_const(E, st, c.args[0])),)))]


@pat(CMD + r"arg$", CMD + r"args$", CMD + r"(current_dir|env|envs|env_clear|env_remove|stdin|stdout|stderr|kill_on_drop|process_group|arg0|creation_flags)$")
def _(E, st, c):
    loc, v = loc_of(E, st, c.args[0])
    m = c.name.rsplit("::", 1)[1]
    if v[0] == "A" and v[1] == "cmd" and loc is not None:
        fs = v[2]
        n = sum(1 for k, _ in fs if k.startswith("a"))
        if m == "arg":
            fs = fs + (("a%d" % n, cmd_const(E, st, c.args[1])),) if n < 24 else fs
        elif m == "args":
            a = E.deref(st, c.args[1])
            if a[0] == "A" and a[1] == "array":
                for _, x in a[2]:
                    if n < 24:
                        fs = fs + (("a%d" % n, cmd_const(E, st, x)),)
                        n += 1
            else:
                fs = fs + (("a%d" % n, unk("args", S("v", a))),) if n < 24 else fs
        else:
            if not any(k == m for k, _ in fs):
                fs = fs + ((m, E.deref(st, c.args[1]) if len(c.args) > 1 else UNIT),)
        E.write_loc(st, loc, ("A", "cmd", fs))
    return [(st, c.args[0])]


def cmd_of(E, st, c):
    """(program, [args]) of the command a spawn/output/status call runs"""
    v = E.deref(st, c.args[0])
    if v[0] != "A" or v[1] != "cmd":
        return None, [], {}
    d = dict(v[2])
    args = [x for k, x in v[2] if k.startswith("a") and k[1:].isdigit()]
    return d.get("prog"), args, d


def cstr(v):
    return v[1] if v is not None and v[0] == "s" else None
