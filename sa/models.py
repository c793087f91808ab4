"""Transfer functions for the standard library and the buffer crate."""
import re
from terms import *
from engine import addidx, addslice, vset, elem, veclen, Prog

TABLE = {}


def norm(d):
    d = re.sub(r"::\{impl#\d+\}", "", d)
    d = d.replace("alloc::rcs::rc", "alloc::rc").replace("alloc::io", "std::io").replace("core::io", "std::io").replace("alloc::collections", "std::collections")
    return d


_cache = {}


def lookup(d, r, ta):
    k = (d, r)
    if k in _cache:
        m = _cache[k]
    else:
        n = norm(d)
        m = TABLE.get(n)
        if m is None:
            parts = n.split("::")
            for pre, nm in ((parts[0] + "::" + parts[1], parts[-1]) if len(parts) > 2 else ("", ""),):
                m = TABLE.get(pre + "::*::" + nm)
        if m is None and r:
            m = TABLE.get(norm(r))
        _cache[k] = m
    # I/O on a file object
    if ta and is_file_ty(ta[0]) and norm(d) not in NOT_IO:
        return io_call
    return m


def on_file(d, t):
    """a function outside the crate that takes a file as its first argument"""
    if t[0] in ("ref", "ptr") and is_file_ty(t) and norm(d) not in NOT_IO:
        return io_call
    return None


def is_file_ty(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    return t[0] == "adt" and (t[1].endswith("::BufFile") or t[1].endswith("::VarFile") or t[1] in ("std::fs::File", "rabuf::RaBuf"))


NOT_IO = {"core::ops::deref::Deref::deref", "core::clone::Clone::clone"}


def reg(*names):
    def w(f):
        for n in names:
            TABLE[n] = f
        return f
    return w


# ---------------------------------------------------------------- helpers
def one(v, st):
    return [(v, st)]


def deep(eng, st, x, t):
    """value behind all reference levels of a type"""
    while t[0] in ("ref", "ptr"):
        x = eng.load(st, x)
        t = t[2]
    return x, t


def tyname(t):
    while t[0] in ("ref", "ptr"):
        t = t[2]
    if t[0] == "adt":
        return t[1]
    return t[0]


def strip(d):
    return re.sub(r"\{impl#\d+\}::", "", d)


# ---------------------------------------------------------------- pointers
@reg("alloc::rc::new", "alloc::boxed::new", "alloc::sync::new")
def rc_new(eng, st, ctx, site, k):
    r = mk("alloc", ctx.id, site)
    if r in st.issued:
        eng.rename_old(st, r)
    else:
        st.issued = st.issued | {r}
    st.mem[r] = k.args[0]
    return one(mk("ref", r, ()), st)


@reg("core::clone::Clone::clone")
def clone(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    x = gdptr(eng, v)
    return one(v, st)


@reg("alloc::rc::downgrade", "alloc::rc::upgrade", "alloc::sync::downgrade")
def rc_down(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    if k.name == "downgrade":
        return one(mk("tup", v), st)
    v = v.a[0] if v.op == "tup" and v.a else mk("call", "upgraded", v)
    s2 = st.fork()
    return [(some(v), st), (NONE, s2)]


@reg("alloc::rc::try_unwrap", "alloc::rc::into_inner")
def rc_unwrap(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    if k.name == "into_inner":
        return None
    s2 = st.fork()
    return [(ok(v), st), (err(k.args[0]), s2)]


@reg("alloc::rc::ptr_eq")
def rc_ptr_eq(eng, st, ctx, site, k):
    return one(binop("Eq", eng.load(st, k.args[0]), eng.load(st, k.args[1])), st)


@reg("alloc::rc::strong_count")
def rc_strong(eng, st, ctx, site, k):
    return one(eng.fresh(st, ctx, site, "strong"), st)


@reg("core::cell::new", "core::cell::into_inner", "core::pin::new", "core::mem::manually_drop::new")
def cell_new(eng, st, ctx, site, k):
    return one(k.args[0], st)


@reg("core::cell::borrow", "core::cell::borrow_mut", "core::cell::get_mut")
def cell_borrow(eng, st, ctx, site, k):
    if k.name == "get_mut":
        return one(k.args[0], st)
    mode = "m" if k.name == "borrow_mut" else "s"
    p = k.args[0]
    while p.op == "gd":
        p = p.a[0]
    if not eng.opts.get("borrows"):
        return one(p, st)
    g = mk("gd", p, mode, ctx.id, site)
    lp = eng.locof(p)
    for h in st.bor:
        if eng.locof(h.a[0]) == lp and (mode == "m" or h.a[1] == "m"):
            eng.event(st, ctx, site + (h,), "conflict", mode, (g, h), sp=k.t["sp"])
    eng.gty[g] = tyname(k.ta[0]) if k.ta else ""
    eng.event(st, ctx, site, "borrow", mode, (p,), res=g, sp=k.t["sp"], x={"ct": eng.gty[g]})
    st.bor = st.bor | {g}
    return one(g, st)


@reg("core::cell::set", "core::cell::replace")
def cell_set(eng, st, ctx, site, k):
    old = eng.load(st, k.args[0])
    eng.store(st, k.args[0], k.args[1])
    return one(old if k.name == "replace" else UNIT, st)


@reg("core::cell::get")
def cell_get(eng, st, ctx, site, k):
    return one(eng.load(st, k.args[0]), st)


@reg("core::cell::try_borrow", "core::cell::try_borrow_mut")
def cell_try(eng, st, ctx, site, k):
    s2 = st.fork()
    return [(ok(k.args[0]), st), (err(UNIT), s2)]


@reg("core::cell::map")
def cell_map(eng, st, ctx, site, k):
    g = k.args[0]
    p = g.a[0] if g.op == "gd" else g
    outs = eng.call_value(st, ctx, site, k.args[1], [p], k.t)
    res = []
    for r, s in outs:
        if g.op == "gd":
            n = mk("gd", r, *g.a[1:])
            if g in s.bor:
                s.bor = (s.bor - {g}) | {n}
            res.append((n, s))
        else:
            res.append((r, s))
    return res


def gdptr(eng, v):
    if v.op == "gd":
        return v.a[0]
    if v.op == "phi":
        o = {gdptr(eng, x) for x in eng.phiops.get(v, ()) if x is not v}
        if len(o) == 1 and all(x.op == "gd" for x in eng.phiops[v]):
            return o.pop()
    return v


@reg("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut")
def deref(eng, st, ctx, site, k):
    n = tyname(k.ta[0])
    a = k.args[0]
    if "::rc::" in n or n.endswith("::Ref") or n.endswith("::RefMut") or n.endswith("boxed::Box") or n.endswith("::Arc"):
        return one(gdptr(eng, eng.load(st, a)), st)
    return one(a, st)


@reg("core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut", "core::convert::AsMut::as_mut",
     "alloc::vec::as_slice", "alloc::vec::as_mut_slice", "alloc::string::as_bytes", "core::str::as_bytes",
     "alloc::string::as_str", "core::slice::as_ref", "std::path::as_path", "alloc::string::into_bytes", "core::array::as_slice",
     "alloc::vec::into_boxed_slice", "core::slice::iter::as_slice")
def ident(eng, st, ctx, site, k):
    return one(k.args[0], st)


@reg("core::convert::AsRef::as_ref")
def as_ref(eng, st, ctx, site, k):
    n = tyname(k.ta[0])
    if n in ("alloc::vec::Vec", "alloc::string::String", "slice", "other", "array"):
        return one(k.args[0], st)
    return None


@reg("core::borrow::ToOwned::to_owned", "alloc::slice::to_vec", "alloc::slice::into_vec", "alloc::str::to_owned", "alloc::string::to_vec",
     "rabuf::maybe::into_vec", "core::hint::must_use", "core::hint::black_box")
def own(eng, st, ctx, site, k):
    t = k.t["at"][0]
    v = k.args[0]
    if t["k"] in ("ref", "ptr"):
        v = eng.load(st, v)
    return one(v, st)


@reg("core::mem::replace", "core::mem::take", "core::mem::swap")
def mem_replace(eng, st, ctx, site, k):
    old = eng.load(st, k.args[0])
    if k.name == "swap":
        o2 = eng.load(st, k.args[1])
        eng.store(st, k.args[0], o2)
        eng.store(st, k.args[1], old)
        return one(UNIT, st)
    new = k.args[1] if k.name == "replace" else default_of(k.ta[0])
    eng.store(st, k.args[0], new)
    return one(old, st)


@reg("core::mem::drop", "core::mem::forget")
def mem_drop(eng, st, ctx, site, k):
    if k.name == "drop":
        eng.drop_value(st, ctx, k.args[0], site, k.t)
    return one(UNIT, st)


def default_of(t):
    if t[0] == "adt":
        if t[1] in ("alloc::vec::Vec", "alloc::string::String") or "collections" in t[1]:
            return mk("vnew")
        if t[1] == OPTION:
            return NONE
        if t[1].endswith("PhantomData"):
            return mk("adt", t[1], 0)
    if t[0] == "other" and t[1] in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool"):
        return FALSE
    if t[0] == "tuple":
        return mk("tup", *[default_of(x) for x in t[1]])
    if t[0] == "array" and str(t[2]).isdigit():
        n = int(t[2])
        return mk("arr", *[default_of(t[1])] * n) if n <= 64 else mk("vrep", default_of(t[1]), c(n))
    return mk("default", str(t))


@reg("core::default::Default::default")
def default(eng, st, ctx, site, k):
    t = k.ta[0]
    if t[0] == "adt" and "::rc::" in t[1]:
        return None
    return one(default_of(t), st)


# ---------------------------------------------------------------- ? operator
@reg("core::ops::try_trait::Try::branch")
def branch(eng, st, ctx, site, k):
    v = k.args[0]
    n = tyname(k.ta[0])
    out = []
    for w, s in eng.cases(st, v):
        if n == OPTION:
            out.append((adt(CFLOW, 0, eng.payload(v, 1)), s) if w == 1 else (adt(CFLOW, 1, NONE), s))
        else:
            out.append((adt(CFLOW, 0, eng.payload(v, 0)), s) if w == 0 else (adt(CFLOW, 1, err(eng.payload(v, 1))), s))
    return out


@reg("core::ops::try_trait::FromResidual::from_residual")
def from_residual(eng, st, ctx, site, k):
    v = k.args[0]
    if tyname(k.ta[0]) == OPTION:
        return one(NONE, st)
    return one(err(eng.payload(v, 1)), st)


@reg("core::ops::try_trait::Try::from_output")
def from_output(eng, st, ctx, site, k):
    return one(some(k.args[0]) if tyname(k.ta[0]) == OPTION else ok(k.args[0]), st)


# ---------------------------------------------------------------- Option / Result
def _isopt(k):
    return "::option::" in k.d


def good(k):
    return 1 if _isopt(k) else 0


def wrap(k, v):
    return some(v) if _isopt(k) else ok(v)


def unsome(eng, v, w):
    return eng.payload(v, w)


OR = "core::option::%s"
RS = "core::result::%s"


def optres(*names):
    l = []
    for n in names:
        l += [OR % n, RS % n]
    return reg(*l)


@optres("unwrap", "expect", "unwrap_unchecked", "expect_err", "unwrap_err")
def unwrap(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    if "err" in k.name:
        g = 1
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out.append((eng.payload(v, g), s))
        else:
            eng.event(s, ctx, site, "panic", k.name, (v,), sp=k.t["sp"])
    return out


@optres("unwrap_or", "unwrap_or_default")
def unwrap_or(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        out.append((eng.payload(v, g), s) if w == g else (k.args[1] if len(k.args) > 1 else default_of(k.ta[0]), s))
    return out


@optres("unwrap_or_else")
def unwrap_or_else(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out.append((eng.payload(v, g), s))
        else:
            out += eng.call_value(s, ctx, site, k.args[1], [] if _isopt(k) else [eng.payload(v, 1)], k.t)
    return out


@optres("map")
def omap(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            for r, s2 in eng.call_value(s, ctx, site, k.args[1], [eng.payload(v, g)], k.t):
                out.append((wrap(k, r), s2))
        else:
            out.append((NONE if _isopt(k) else err(eng.payload(v, 1)), s))
    return out


@optres("and_then")
def and_then(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out += eng.call_value(s, ctx, site, k.args[1], [eng.payload(v, g)], k.t)
        else:
            out.append((NONE if _isopt(k) else err(eng.payload(v, 1)), s))
    return out


@optres("or_else")
def or_else(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out.append((wrap(k, eng.payload(v, g)), s))
        else:
            out += eng.call_value(s, ctx, site, k.args[1], [] if _isopt(k) else [eng.payload(v, 1)], k.t)
    return out


@optres("and", "or")
def andor(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if k.name == "and":
            out.append((k.args[1], s) if w == g else (NONE if _isopt(k) else err(eng.payload(v, 1)), s))
        else:
            out.append((wrap(k, eng.payload(v, g)), s) if w == g else (k.args[1], s))
    return out


@optres("map_or", "map_or_else")
def map_or(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out += eng.call_value(s, ctx, site, k.args[2], [eng.payload(v, g)], k.t)
        elif k.name == "map_or":
            out.append((k.args[1], s))
        else:
            out += eng.call_value(s, ctx, site, k.args[1], [] if _isopt(k) else [eng.payload(v, 1)], k.t)
    return out


@reg(RS % "map_err")
def map_err(eng, st, ctx, site, k):
    v = k.args[0]
    out = []
    for w, s in eng.cases(st, v):
        if w == 0:
            out.append((ok(eng.payload(v, 0)), s))
        else:
            for r, s2 in eng.call_value(s, ctx, site, k.args[1], [eng.payload(v, 1)], k.t):
                out.append((err(r), s2))
    return out


@reg(RS % "ok", RS % "err")
def res_ok(eng, st, ctx, site, k):
    v = k.args[0]
    out = []
    for w, s in eng.cases(st, v):
        g = 0 if k.name == "ok" else 1
        out.append((some(eng.payload(v, g)) if w == g else NONE, s))
    return out


@reg(OR % "ok_or", OR % "ok_or_else")
def ok_or(eng, st, ctx, site, k):
    v = k.args[0]
    out = []
    for w, s in eng.cases(st, v):
        if w == 1:
            out.append((ok(eng.payload(v, 1)), s))
        elif k.name == "ok_or":
            out.append((err(k.args[1]), s))
        else:
            for r, s2 in eng.call_value(s, ctx, site, k.args[1], [], k.t):
                out.append((err(r), s2))
    return out


@optres("is_some", "is_none", "is_ok", "is_err")
def is_some(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    out = []
    for w, s in eng.cases(st, v):
        tr = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[k.name]
        out.append((TRUE if w == tr else FALSE, s))
    return out


@optres("is_some_and", "is_ok_and", "is_none_or")
def is_some_and(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        if w == g:
            out += eng.call_value(s, ctx, site, k.args[1], [eng.payload(v, g)], k.t)
        else:
            out.append((TRUE if k.name == "is_none_or" else FALSE, s))
    return out


@optres("as_ref", "as_mut", "as_deref", "as_deref_mut")
def opt_as_ref(eng, st, ctx, site, k):
    p = k.args[0]
    v = eng.load(st, p)
    root, path = eng.locof(p)
    out = []
    g = good(k)
    e = "core::option::Option" if _isopt(k) else RESULT
    for w, s in eng.cases(st, v):
        if w == g or not _isopt(k):
            q = eng.mkref(root, path + (("v", w), ("f", 0, e, "0")))
            out.append((adt(e, w, q), s))
        else:
            out.append((NONE, s))
    return out


@optres("cloned", "copied")
def opt_cloned(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    out = []
    for w, s in eng.cases(st, v):
        out.append((wrap(k, eng.load(s, eng.payload(v, g))), s) if w == g else (NONE if _isopt(k) else v, s))
    return out


@reg(OR % "take", OR % "replace", OR % "insert")
def opt_take(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    eng.store(st, k.args[0], NONE if k.name == "take" else some(k.args[1]))
    return one(v, st)


@reg(OR % "filter")
def opt_filter(eng, st, ctx, site, k):
    v = k.args[0]
    out = []
    for w, s in eng.cases(st, v):
        if w == 0:
            out.append((NONE, s))
            continue
        p = eng.payload(v, 1)
        tmp = mk("cptr", p)
        for r, s2 in eng.call_value(s, ctx, site, k.args[1], [tmp], k.t):
            for b, s3 in fork_bool(eng, s2, r):
                out.append((v if b else NONE, s3))
    return out


def fork_bool(eng, st, t):
    x = eng.truth(st, t)
    if x is not None:
        return [(x, st)]
    s2 = st.fork()
    out = []
    if eng.assume(st, t, True):
        out.append((True, st))
    if eng.assume(s2, t, False):
        out.append((False, s2))
    return out


@reg(OR % "flatten", RS % "flatten")
def flatten(eng, st, ctx, site, k):
    v = k.args[0]
    g = good(k)
    return [(eng.payload(v, g) if w == g else (NONE if _isopt(k) else err(eng.payload(v, 1))), s) for w, s in eng.cases(st, v)]


@reg(OR % "transpose")
def transpose(eng, st, ctx, site, k):
    v = k.args[0]
    out = []
    for w, s in eng.cases(st, v):
        if w == 0:
            out.append((ok(NONE), s))
        else:
            p = eng.payload(v, 1)
            for w2, s2 in eng.cases(s, p):
                out.append((ok(some(eng.payload(p, 0))) if w2 == 0 else err(eng.payload(p, 1)), s2))
    return out


# ---------------------------------------------------------------- comparison
INTS = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char", "u128", "i128"}


def user_impl(eng, k, item, ta):
    tr = item.rsplit("::", 1)[0]
    n = len(eng.p.impl_by_tr.get(tr, [{"ta": ()}])[0]["ta"]) if eng.p.impl_by_tr.get(tr) else 1
    t = ta
    x = eng.p.find_impl(tr, tuple(t[:n]), item)
    if x and x[0] in eng.p.fns:
        f = eng.p.fns[x[0]]
        return f, x[1]
    return None


@reg("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def eq(eng, st, ctx, site, k):
    ta = k.ta
    a, b = k.args
    ta = list(ta)
    if len(ta) < 2:
        ta = [ta[0], ta[0]]
    while ta[0][0] == "ref" and ta[1][0] == "ref":
        a = eng.load(st, a)
        b = eng.load(st, b)
        ta = [ta[0][2], ta[1][2]]
    x = user_impl(eng, k, "core::cmp::PartialEq::eq", ta)
    if x:
        outs = eng.call_fn(st, ctx, site, x[0], x[1], [a, b], k.t)
    else:
        va, ty = deep(eng, st, eng.load(st, a), ta[0])
        vb, _ = deep(eng, st, eng.load(st, b), ta[1])
        if ty[0] == "adt" and ty[1].endswith("PhantomData"):
            outs = [(TRUE, st)]
        elif ty[0] == "adt" and ty[1] in (OPTION, ORDERING, RESULT):
            outs = []
            if va.op == "adt" and vb.op == "adt":
                if va.a[1] != vb.a[1]:
                    outs = [(FALSE, st)]
                elif va is vb or len(va.a) == 2:
                    outs = [(TRUE, st)]
                elif ty[1] == OPTION:
                    outs = [(eqt(va.a[2], vb.a[2]), st)]
            if not outs and ty[1] == ORDERING and (va.op == "adt" or vb.op == "adt"):
                if va.op == "adt":
                    va, vb = vb, va
                outs = [(TRUE if w == vb.a[1] else FALSE, s) for w, s in eng.cases(st, va, 3)]
            if not outs and ty[1] == OPTION and (va.op == "adt" or vb.op == "adt"):
                if va.op == "adt":
                    va, vb = vb, va
                for w, s in eng.cases(st, va, 2):
                    outs.append((FALSE, s) if w != vb.a[1] else ((TRUE, s) if w == 0 else (eqt(eng.payload(va, 1), vb.a[2]), s)))
            if not outs:
                outs = [(binop("Eq", va, vb), st)]
        else:
            outs = [(binop("Eq", va, vb), st)]
    if k.name == "ne":
        outs = [(neg(r), s) for r, s in outs]
    return outs


def eqt(a, b):
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1] or len(a.a) != len(b.a):
            return FALSE
        t = TRUE
        for x, y in zip(a.a[2:], b.a[2:]):
            q = eqt(x, y)
            if q is FALSE:
                return FALSE
            if q is not TRUE:
                t = q if t is TRUE else mk("op", "BitAnd", t, q)
        return t
    return binop("Eq", a, b)


def ordering(n):
    return mk("adt", ORDERING, n)


def int_cmp(eng, st, a, b):
    out = []
    if eng.opts.get("cmpwhole"):
        return [(mk("call", "cmp", a, b), st)]
    d = sub(a, b)
    if d.op == "c":
        v = d.a[0]
        return [(ordering(0 if v < 0 else 1 if v == 0 else 2), st)]
    for i, q in ((0, binop("Lt", a, b)), (1, binop("Eq", a, b)), (2, binop("Lt", b, a))):
        s = st.fork()
        if eng.assume(s, q, True):
            good = True
            if i == 1:
                good = eng.assume(s, binop("Lt", a, b), False) and eng.assume(s, binop("Lt", b, a), False)
            else:
                good = eng.assume(s, binop("Eq", a, b), False)
            if good:
                # both orders are kept, for where the three cases meet again
                for j, x in ((0, binop("Lt", a, b)), (2, binop("Lt", b, a))):
                    if x.op == "op":
                        s.facts[x] = 1 if i == j else 0
                        if i != j and eng.opts.get("learn"):
                            eng.opts["learn"](eng, s, x, False)
                out.append((ordering(i), s))
    return out


@reg("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def cmp(eng, st, ctx, site, k):
    ta = list(k.ta)
    if len(ta) < 2:
        ta = [ta[0], ta[0]]
    a, b = k.args
    while ta[0][0] == "ref" and ta[1][0] == "ref":
        a = eng.load(st, a)
        b = eng.load(st, b)
        ta = [ta[0][2], ta[1][2]]
    part = k.name == "partial_cmp"
    w = (lambda r: some(r)) if part else (lambda r: r)
    x = user_impl(eng, k, k.d if "::cmp::" in k.d else "core::cmp::Ord::cmp", ta)
    if x:
        return eng.call_fn(st, ctx, site, x[0], x[1], [a, b], k.t)
    va = eng.load(st, a)
    vb = eng.load(st, b)
    if ta[0][0] == "other" and ta[0][1] in INTS:
        return [(w(r), s) for r, s in int_cmp(eng, st, va, vb)]
    if ta[0][0] == "adt" and ta[0][1].endswith("PhantomData"):
        return one(w(ordering(1)), st)
    return one(w(mk("call", "cmp", va, vb)), st)


@reg("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def ordop(eng, st, ctx, site, k):
    ta = list(k.ta)
    if len(ta) < 2:
        ta = [ta[0], ta[0]]
    a, b = k.args
    while ta[0][0] == "ref" and ta[1][0] == "ref":
        a = eng.load(st, a)
        b = eng.load(st, b)
        ta = [ta[0][2], ta[1][2]]
    if ta[0][0] == "other" and ta[0][1] in INTS:
        va = eng.load(st, a)
        vb = eng.load(st, b)
        return one(binop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[k.name], va, vb), st)
    x = user_impl(eng, k, "core::cmp::PartialOrd::partial_cmp", ta)
    if x:
        # a newtype over one integer compares as that integer
        va = eng.load(st, a)
        vb = eng.load(st, b)
        outs = []
        for r, s in eng.call_fn(st, ctx, site, x[0], x[1], [a, b], k.t):
            for w, s2 in eng.cases(s, r):
                if w == 0:
                    outs.append((FALSE, s2))
                    continue
                p = eng.payload(r, 1)
                for o, s3 in eng.cases(s2, p, 3):
                    outs.append((TRUE if o in {"lt": (0,), "le": (0, 1), "gt": (2,), "ge": (1, 2)}[k.name] else FALSE, s3))
        return outs
    return one(mk("call", "ord_" + k.name, eng.load(st, a), eng.load(st, b)), st)


@reg("core::cmp::Ord::max", "core::cmp::Ord::min")
def ordmax(eng, st, ctx, site, k):
    a, b = k.args
    t = k.ta[0]
    if t[0] == "other" and t[1] in INTS:
        q = binop("Lt", a, b)
        out = []
        if k.name == "max" and a.op == "len" and b.op == "len" and eng.truth(st, q) is None:
            return one(mk("call", "max", a, b), st)
        for x, s in fork_bool(eng, st, q):
            out.append(((b if x else a) if k.name == "max" else (a if x else b), s))
        return out
    return None


@reg("core::cmp::is_eq", "core::cmp::is_ne", "core::cmp::is_lt", "core::cmp::is_gt", "core::cmp::is_le", "core::cmp::is_ge")
def ord_is(eng, st, ctx, site, k):
    ok_ = {"is_eq": (1,), "is_ne": (0, 2), "is_lt": (0,), "is_gt": (2,), "is_le": (0, 1), "is_ge": (1, 2)}[k.name]
    return [(TRUE if w in ok_ else FALSE, s) for w, s in eng.cases(st, k.args[0], 3)]


@reg("core::cmp::reverse")
def ord_rev(eng, st, ctx, site, k):
    if eng.opts.get("cmpwhole"):
        return one(mk("call", "cmprev", k.args[0]), st)
    return [(ordering(2 - w), s) for w, s in eng.cases(st, k.args[0], 3)]


@reg("core::cmp::then", "core::cmp::then_with")
def ord_then(eng, st, ctx, site, k):
    out = []
    if eng.opts.get("cmpwhole"):
        more = [(k.args[1], st)] if k.name == "then" else eng.call_value(st, ctx, site, k.args[1], [], k.t)
        return [(mk("call", "cmpthen", k.args[0], x), s) for x, s in more]
    for w, s in eng.cases(st, k.args[0], 3):
        if w != 1:
            out.append((ordering(w), s))
        elif k.name == "then":
            out.append((k.args[1], s))
        else:
            out += eng.call_value(s, ctx, site, k.args[1], [], k.t)
    return out


# ---------------------------------------------------------------- conversion
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "u128": 128}


def conv(eng, st, ctx, site, k, T_, U, x):
    """U::from(x: T)"""
    if T_ == U:
        return one(x, st)
    f = eng.p.find_impl("core::convert::From", (U, T_), "core::convert::From::from")
    if f and f[0] in eng.p.fns:
        fn = eng.p.fns[f[0]]
        return eng.call_fn(st, ctx, site, fn, f[1], [x], k.t)
    if T_[0] == "other" and U[0] == "other" and T_[1] in BITS:
        return one(x, st)
    if T_ == ("other", "bool") and U[0] == "other" and U[1] in BITS:
        return one(x if x.op == "c" else mk("b2i", x), st)
    if U[0] == "adt" and U[1] == OPTION:
        return one(some(x), st)
    if tyname(U) in ("alloc::vec::Vec", "alloc::string::String") and tyname(T_) in ("alloc::vec::Vec", "alloc::string::String", "slice", "other", "array"):
        y = x
        t = T_
        while t[0] == "ref":
            y = eng.load(st, y)
            t = t[2]
        return one(y, st)
    if U[0] == "adt" and ("::rc::" in U[1]):
        return rc_new(eng, st, ctx, site, k)
    y, _ = deep(eng, st, x, T_)
    return one(mk("call", "from:" + tyname(U), y), st)


@reg("core::convert::Into::into")
def into(eng, st, ctx, site, k):
    f = user_impl(eng, k, "core::convert::Into::into", k.ta)
    if f:
        return eng.call_fn(st, ctx, site, f[0], f[1], [k.args[0]], k.t)
    return conv(eng, st, ctx, site, k, k.ta[0], k.ta[1], k.args[0])


@reg("core::convert::From::from")
def from_(eng, st, ctx, site, k):
    return conv(eng, st, ctx, site, k, k.ta[1], k.ta[0], k.args[0])


@reg("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(eng, st, ctx, site, k):
    T_, U = (k.ta[0], k.ta[1]) if k.name == "try_into" else (k.ta[1], k.ta[0])
    x = k.args[0]
    f = eng.p.find_impl("core::convert::TryFrom", (U, T_), "core::convert::TryFrom::try_from")
    if f and f[0] in eng.p.fns:
        return eng.call_fn(st, ctx, site, eng.p.fns[f[0]], f[1], [x], k.t)
    if U[0] == "other" and U[1] in BITS:
        q = mk("op", "Fits", x, BITS[U[1]])
        if x.op == "c":
            return one(ok(c(x.a[0])) if 0 <= x.a[0] < (1 << BITS[U[1]]) else err(UNIT), st)
        if T_[0] == "other" and BITS.get(T_[1], 999) <= BITS[U[1]] and not T_[1].startswith("i"):
            return one(ok(x), st)
        out = []
        for b, s in fork_bool(eng, st, q):
            out.append((ok(x), s) if b else (err(UNIT), s))
        return out
    y, _ = deep(eng, st, x, T_)
    s2 = st.fork()
    return [(ok(y), st), (err(mk("call", "tryerr", y)), s2)]


# ---------------------------------------------------------------- Vec / slice
@reg("alloc::vec::new", "alloc::vec::with_capacity", "alloc::string::new", "alloc::string::with_capacity",
     "std::collections::btree::map::new", "std::collections::hash::map::new", "std::collections::hash::map::with_capacity_and_hasher",
     "std::collections::hash::map::with_hasher", "std::collections::hash::map::with_capacity", "std::collections::btree::set::new", "std::collections::hash::set::new")
def vnew(eng, st, ctx, site, k):
    return one(mk("vnew"), st)


def vop(eng, st, k, new, ret=UNIT):
    eng.store(st, k.args[0], new)
    return one(ret, st)


@reg("alloc::vec::push", "alloc::string::push")
def vpush(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    if eng.opts.get("pushev"):
        eng.event(st, ctx, site, "push", "", (v, k.args[1]), sp=k.t["sp"])
    return vop(eng, st, k, mk("vpush", v, k.args[1]))


@reg("alloc::vec::insert")
def vinsert(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    eng.event(st, ctx, site, "vins", "", (v, k.args[1], k.args[2]), sp=k.t["sp"]) if eng.opts.get("vecev") else None
    return vop(eng, st, k, mk("vins", v, k.args[1], k.args[2]))


@reg("alloc::vec::remove")
def vremove(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    return vop(eng, st, k, mk("vrem", v, k.args[1]), elem(v, k.args[1]))


@reg("alloc::vec::swap_remove")
def vswap_remove(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    return vop(eng, st, k, mk("vrem", mk("vshuf", v, k.args[1]), k.args[1]), elem(v, k.args[1]))


@reg("alloc::vec::pop")
def vpop(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    s2 = st.fork()
    i = add(veclen(v), c(-1))
    out = []
    if eng.assume(st, binop("Eq", veclen(v), c(0)), False):
        eng.store(st, k.args[0], mk("vrem", v, i))
        if eng.opts.get("iterev"):
            eng.event(st, ctx, site + (True,), "next", "some", (mk("it", "pop" if eng.opts.get("pushev") else "vec", v, c(0)),), res=elem(v, i), sp=k.t["sp"])
        out.append((some(elem(v, i)), st))
    if eng.assume(s2, binop("Eq", veclen(v), c(0)), True):
        if eng.opts.get("iterev"):
            eng.event(s2, ctx, site + (False,), "next", "none", (mk("it", "pop" if eng.opts.get("pushev") else "vec", v, c(0)),), sp=k.t["sp"])
        out.append((NONE, s2))
    return out


@reg("alloc::vec::clear", "std::collections::hash::map::clear", "std::collections::btree::map::clear", "alloc::string::clear")
def vclear(eng, st, ctx, site, k):
    return vop(eng, st, k, mk("vnew"))


@reg("alloc::vec::truncate")
def vtrunc(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    return vop(eng, st, k, mk("slice", v, c(0), k.args[1]))


@reg("alloc::vec::resize")
def vresize(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    n = k.args[1]
    if v.op == "vnew":
        return vop(eng, st, k, mk("vrep", k.args[2], n))
    return vop(eng, st, k, mk("vresize", v, n, k.args[2]))


@reg("alloc::vec::extend_from_slice", "alloc::vec::append", "alloc::vec::extend_from_within")
def vextend(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    w = eng.load(st, k.args[1])
    if k.name == "append":
        eng.store(st, k.args[1], mk("vnew"))
    return vop(eng, st, k, mk("vext", v, w) if v.op != "vnew" else w)


@reg("core::iter::traits::collect::Extend::extend")
def iextend(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    it = to_iter(eng, st, k.args[1], k.ta[1] if len(k.ta) > 1 else None)
    if it is not None and it.op == "it":
        w = iter_value(it, eng, st)
        if w is not None:
            return vop(eng, st, k, mk("vext", v, w))
    return None


def iter_value(it, eng=None, st=None):
    """the sequence an (untouched) iterator yields, if it is a plain element-wise copy"""
    if it.op != "it":
        return None
    kd = it.a[0]
    if kd == "slice" and it.a[2] is c(0) and eng is not None:
        return eng.load(st, it.a[1])        # items are taken by reference and copied in
    if kd in ("vec", "svals", "op") and it.a[2] is c(0):
        return it.a[1]
    if kd in ("cloned", "copied"):
        v = iter_value(it.a[1], eng, st)
        if v is None or it.a[1].op == "it" and it.a[1].a[0] == "slice" and eng is not None:
            return v
        return mk("vcloned", v)
    return None


def pure_chain(it):
    """an iterator that yields one item for every element of its source"""
    if it.op != "it":
        return False
    if it.a[0] in ("vec", "svals", "op", "slice"):
        return it.a[2] is c(0)
    if it.a[0] in ("cloned", "copied", "map", "rev", "enumerate"):
        return pure_chain(it.a[1])
    return False


@reg("alloc::vec::split_off", "alloc::vec::drain")
def vsplit(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    i = k.args[1]
    if k.name == "drain":
        a, b = range_of(k.ta, i, 1)
        if a is None:
            return None
        val = mk("slice", v, a, b if b is not None else "end") if not (a is c(0) and b is None) else v
        if b is None:
            eng.store(st, k.args[0], mk("slice", v, c(0), a))
        else:
            eng.store(st, k.args[0], mk("vdrain", v, a, b))
        return one(mk("it", "vec", val, c(0)), st)
    eng.store(st, k.args[0], mk("slice", v, c(0), i))
    return one(mk("slice", v, i, "end"), st)


@reg("alloc::vec::len", "core::slice::len", "core::str::len", "alloc::string::len", "std::collections::hash::map::len", "std::collections::btree::map::len")
def vlen(eng, st, ctx, site, k):
    return one(veclen(eng.load(st, k.args[0])), st)


@reg("alloc::vec::is_empty", "core::slice::is_empty", "core::str::is_empty", "alloc::string::is_empty", "std::collections::hash::map::is_empty", "std::collections::btree::map::is_empty")
def vempty(eng, st, ctx, site, k):
    return one(binop("Eq", veclen(eng.load(st, k.args[0])), c(0)), st)


@reg("alloc::vec::as_ptr", "alloc::vec::as_mut_ptr", "core::slice::as_ptr", "core::slice::as_mut_ptr")
def as_ptr(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    return one(eng.mkref(r, addidx(p, c(0))), st)


def unchecked(eng, st, ctx, site, root, path, sp):
    if eng.opts.get("unchecked") and path and path[-1][0] == "i":
        v = eng.get(st, root, path[:-1])
        eng.event(st, ctx, site + ("u",), "uncheckedptr", "", (v, path[-1][1]), sp=sp)


@reg("core::ptr::const_ptr::add", "core::ptr::mut_ptr::add", "core::ptr::const_ptr::offset", "core::ptr::mut_ptr::offset")
def ptr_add(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    if p and p[-1][0] == "i":
        p = p[:-1] + (("i", add(p[-1][1], k.args[1])),)
        unchecked(eng, st, ctx, site, r, p, k.t["sp"])
        return one(eng.mkref(r, p), st)
    return one(eng.mkref(r, addidx(p, k.args[1])), st)


@reg("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut")
def raw_parts(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    if p and p[-1][0] == "i":
        a = p[-1][1]
        p = p[:-1]
    else:
        a = c(0)
    if eng.opts.get("unchecked"):
        eng.event(st, ctx, site + ("u",), "uncheckedrange", "", (eng.get(st, r, p), a, add(a, k.args[1])), sp=k.t["sp"])
    if a is c(0) and k.args[1] is veclen(eng.get(st, r, p)):
        return one(eng.mkref(r, p), st)
    return one(eng.mkref(r, addslice(p, a, add(a, k.args[1]))), st)


def range_of(ta, v, i=1):
    """(start, end|None) of a range-typed index value, (None, None) when not a range"""
    t = ta[i] if len(ta) > i else None
    n = v.a[0] if v.op == "adt" else (t[1] if t and t[0] == "adt" else "")
    if n.endswith("::RangeFull"):
        return c(0), None
    if v.op == "adt":
        if n.endswith("::RangeInclusive"):
            return v.a[2], add(v.a[3], c(1))
        if n.endswith("::RangeToInclusive"):
            return c(0), add(v.a[2], c(1))
        if n.endswith("::RangeFrom"):
            return v.a[2], None
        if n.endswith("::RangeTo"):
            return c(0), v.a[2]
        if n.endswith("::Range"):
            return v.a[2], v.a[3]
    return None, None


@reg("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    n = tyname(k.ta[0])
    if "collections" in n:
        return None
    if n.startswith("siamesedb"):
        return None
    a, b = range_of(k.ta, k.args[1])
    if a is not None:
        return one(eng.mkref(r, addslice(p, a, b)), st)
    i = k.args[1]
    if not eng.assume(st, binop("Lt", i, veclen(eng.get(st, r, p))), True):
        return []
    return one(eng.mkref(r, addidx(p, i)), st)


@reg("core::slice::get_unchecked", "core::slice::get_unchecked_mut")
def get_unchecked(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    a, b = range_of(k.ta, k.args[1])
    if a is not None:
        if eng.opts.get("unchecked"):
            eng.event(st, ctx, site + ("u",), "uncheckedrange", "", (eng.get(st, r, p), a, b if b is not None else veclen(eng.get(st, r, p))), sp=k.t["sp"])
        return one(eng.mkref(r, addslice(p, a, b)), st)
    q = addidx(p, k.args[1])
    if eng.opts.get("unchecked"):
        eng.event(st, ctx, site + ("u",), "unchecked", "", (eng.get(st, r, p), k.args[1]), sp=k.t["sp"])
    return one(eng.mkref(r, q), st)


@reg("core::slice::get", "core::slice::get_mut", "core::str::get")
def get(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    a, b = range_of(k.ta, k.args[1])
    if a is not None:
        s2 = st.fork()
        return [(some(eng.mkref(r, addslice(p, a, b))), st), (NONE, s2)]
    i = k.args[1]
    out = []
    for x, s in fork_bool(eng, st, binop("Lt", i, veclen(eng.get(st, r, p)))):
        out.append((some(eng.mkref(r, addidx(p, i))), s) if x else (NONE, s))
    return out


@reg("core::slice::last", "core::slice::last_mut", "core::slice::first", "core::slice::first_mut")
def last(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    v = eng.get(st, r, p)
    i = c(0) if "first" in k.name else add(veclen(v), c(-1))
    out = []
    for x, s in fork_bool(eng, st, binop("Eq", veclen(v), c(0))):
        out.append((NONE, s) if x else (some(eng.mkref(r, addidx(p, i))), s))
    return out


@reg("core::slice::split_at", "core::slice::split_at_mut")
def split_at(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    return one(mk("tup", eng.mkref(r, addslice(p, c(0), k.args[1])), eng.mkref(r, addslice(p, k.args[1], None))), st)


@reg("core::slice::copy_from_slice", "core::slice::clone_from_slice")
def copy_from_slice(eng, st, ctx, site, k):
    eng.store(st, k.args[0], eng.load(st, k.args[1]))
    return one(UNIT, st)


@reg("core::slice::swap")
def slice_swap(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    v = eng.get(st, r, p)
    i, j = k.args[1], k.args[2]
    eng.put(st, r, p, vset(vset(v, i, elem(v, j)), j, elem(v, i)))
    return one(UNIT, st)


@reg("core::slice::fill")
def slice_fill(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    v = eng.get(st, r, p)
    eng.put(st, r, p, mk("vrep", k.args[1], veclen(v)))
    return one(UNIT, st)


@reg("core::slice::concat", "alloc::slice::concat")
def slice_concat(eng, st, ctx, site, k):
    return one(mk("call", "concat", eng.load(st, k.args[0])), st)


@reg("alloc::slice::sort_by", "core::slice::sort_unstable_by", "alloc::slice::sort_by_key", "core::slice::sort_unstable_by_key",
     "alloc::slice::sort", "core::slice::sort_unstable", "alloc::slice::sort_by_cached_key")
def sort(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    v = eng.get(st, r, p)
    key = UNIT
    if len(k.args) > 1:
        ia = mk("idx", "sa")
        ib = mk("idx", "sb")
        pa = eng.mkref(r, addidx(p, ia))
        pb = eng.mkref(r, addidx(p, ib))
        outs = eng.call_value(st.fork(), ctx, site, k.args[1], [pa] if "key" in k.name else [pa, pb], k.t)
        key = mk("tup", *[x for x, _ in outs])
    stable = "unstable" not in k.name
    n = mk("vsorted", v, key, "stable" if stable else "unstable")
    eng.event(st, ctx, site, "sort", k.name, (v, key), res=n, sp=k.t["sp"])
    eng.put(st, r, p, n)
    return one(UNIT, st)


@reg("core::slice::reverse")
def reverse(eng, st, ctx, site, k):
    r, p = eng.locof(k.args[0])
    v = eng.get(st, r, p)
    eng.put(st, r, p, mk("vrev", v))
    return one(UNIT, st)


@reg("core::slice::binary_search", "core::slice::binary_search_by", "core::slice::binary_search_by_key")
def bsearch(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    if k.name == "binary_search":
        key = eng.load(st, k.args[1])
    elif k.name == "binary_search_by_key":
        r, p = eng.locof(k.args[0])
        outs = eng.call_value(st.fork(), ctx, site, k.args[2], [eng.mkref(r, addidx(p, mk("idx", "bs")))], k.t)
        key = mk("tup", eng.load(st, k.args[1]), *[x for x, _ in outs])
    else:
        r, p = eng.locof(k.args[0])
        i = eng.fresh(st, ctx, site, "bsi")
        outs = eng.call_value(st, ctx, site, k.args[1], [eng.mkref(r, addidx(p, i))], k.t)
        if not outs:
            return []
        # effects of the comparator: join all outcomes
        cur = outs[0][1]
        key = mk("tup", *[x for x, _ in outs])
        for x, s in outs[1:]:
            eng.join(cur, s, eng.mpid(ctx, site, "bs"))
        st = cur
    idx = mk("call", "bsearch", v, key)
    s2 = st.fork()
    out = []
    if eng.assume(st, binop("Lt", idx, veclen(v)), True):
        out.append((ok(idx), st))
    i2 = mk("call", "bsearch_ins", v, key)
    if k.name == "binary_search" and k.ta and k.ta[0][0] == "other":
        r, p = eng.locof(k.args[0])

        def at(s, i):
            return eng.get(s, r, addidx(p, i))
        out = [(x, s) for x, s in out if eng.assume(s, binop("Eq", at(s, idx), key), True)]
        s3 = s2.fork()
        if eng.assume(s2, binop("Lt", i2, veclen(v)), True) and eng.assume(s2, binop("Lt", key, at(s2, i2)), True):
            out.append((err(i2), s2))
        if eng.assume(s3, binop("Lt", i2, veclen(v)), False) and eng.assume(s3, binop("Eq", i2, veclen(v)), True):
            out.append((err(i2), s3))
        return out
    if eng.assume(s2, binop("Lt", veclen(v), i2), False):
        out.append((err(i2), s2))
    return out


@reg("core::slice::partition_point")
def ppoint(eng, st, ctx, site, k):
    """the first element for which the predicate is false, or the length"""
    v = eng.load(st, k.args[0])
    r, p = eng.locof(k.args[0])
    s2 = st.fork()
    i = mk("call", "ppoint", v, *[x for x in (k.args[1],) if isinstance(x, T)])
    out = []
    if eng.assume(st, binop("Lt", i, veclen(v)), True):
        cur = []
        s3 = st.fork()
        if eng.assume(s3, binop("Eq", i, c(0)), True):
            cur.append(s3)
        if eng.assume(st, binop("Eq", i, c(0)), False):
            for x, s in eng.call_value(st, ctx, site + ("p",), k.args[1], [eng.mkref(r, addidx(p, sub(i, c(1))))], k.t):
                cur += [s3 for b, s3 in fork_bool(eng, s, x) if b]
        for s0 in cur:
            for x, s in eng.call_value(s0, ctx, site, k.args[1], [eng.mkref(r, addidx(p, i))], k.t):
                out += [(i, s3) for b, s3 in fork_bool(eng, s, x) if not b]
    n = veclen(v)
    if eng.assume(s2, binop("Eq", i, n), True):
        s3 = s2.fork()
        if eng.assume(s3, binop("Eq", n, c(0)), True):
            out.append((n, s3))
        if eng.assume(s2, binop("Eq", n, c(0)), False):
            for x, s in eng.call_value(s2, ctx, site + ("l",), k.args[1], [eng.mkref(r, addidx(p, sub(n, c(1))))], k.t):
                out += [(n, s3) for b, s3 in fork_bool(eng, s, x) if b]
    return out


@reg("core::slice::contains", "core::slice::starts_with", "core::slice::ends_with")
def contains_(eng, st, ctx, site, k):
    return one(mk("call", k.name, eng.load(st, k.args[0]), eng.load(st, k.args[1])), st)


# ---------------------------------------------------------------- iterators
@reg("core::slice::iter", "core::slice::iter_mut")
def siter(eng, st, ctx, site, k):
    return one(mk("it", "slice", k.args[0], c(0)), st)


@reg("core::slice::chunks", "core::slice::chunks_exact", "core::slice::chunks_mut", "core::slice::windows")
def chunks(eng, st, ctx, site, k):
    return one(mk("it", "chunks", k.args[0], c(0), k.args[1]), st)


def to_iter(eng, st, v, t):
    if v.op == "it":
        return v
    if v.op == "adt" and v.a[0].endswith("::Range") and len(v.a) == 4:
        return mk("it", "range", v.a[2], v.a[3])
    if v.op == "adt" and v.a[0].endswith("::RangeFrom"):
        return mk("it", "range", v.a[2], mk("inf"))
    if v.op == "adt" and v.a[0].endswith("::RangeInclusive"):
        return mk("it", "range", v.a[2], add(v.a[3], c(1)))
    if t is not None:
        n = tyname(t)
        if t[0] == "ref" and (n in ("alloc::vec::Vec", "slice", "array")):
            return mk("it", "slice", v, c(0))
        if t[0] == "adt" and n == "alloc::vec::Vec" or t[0] == "array":
            return mk("it", "vec", v, c(0))
        if t[0] == "adt" and n == OPTION:
            return mk("it", "opt", v)
    if v.op in ("arr", "vpush", "vext", "vsorted", "vrep"):
        return mk("it", "vec", v, c(0))
    return None


@reg("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(eng, st, ctx, site, k):
    f = user_impl(eng, k, "core::iter::traits::collect::IntoIterator::into_iter", k.ta)
    if f:
        return eng.call_fn(st, ctx, site, f[0], f[1], [k.args[0]], k.t)
    it = to_iter(eng, st, k.args[0], k.ta[0])
    if it is not None:
        return one(it, st)
    return one(k.args[0], st)


@reg("core::ops::range::new")
def range_new(eng, st, ctx, site, k):
    if len(k.args) == 2:
        return one(mk("it", "range", k.args[0], add(k.args[1], c(1))), st)
    return None


IT = "core::iter::traits::iterator::Iterator::"


@reg(IT + "map", IT + "filter", IT + "filter_map", IT + "take", IT + "skip", IT + "enumerate", IT + "cloned", IT + "copied", IT + "rev",
     IT + "zip", IT + "take_while", IT + "skip_while", IT + "chain", IT + "peekable", IT + "by_ref", IT + "inspect", IT + "step_by", IT + "fuse")
def adapt(eng, st, ctx, site, k):
    n = k.name
    src = k.args[0]
    if n == "by_ref":
        return one(src, st)
    it = to_iter(eng, st, src, k.ta[0])
    if it is None:
        it = mk("it", "op", src, c(0))
    if n == "fuse" or n == "peekable" and False:
        return one(it, st)
    if n == "enumerate":
        return one(mk("it", "enumerate", it, c(0)), st)
    if n in ("cloned", "copied"):
        return one(mk("it", "cloned", it), st)
    if n == "rev":
        return one(mk("it", "rev", it), st)
    if n == "zip" or n == "chain":
        o = to_iter(eng, st, k.args[1], k.ta[1] if len(k.ta) > 1 else None)
        return one(mk("it", n, it, o if o is not None else mk("it", "op", k.args[1], c(0))), st)
    if n == "take":
        return one(mk("it", "take", it, k.args[1]), st)
    if len(k.args) > 1:
        return one(mk("it", n, it, k.args[1]), st)
    return one(mk("it", n, it), st)


def it_len(eng, st, it):
    kd = it.a[0]
    if kd == "range":
        return sub(it.a[2], it.a[1])
    if kd == "slice":
        return sub(veclen(eng.load(st, it.a[1])), it.a[2])
    if kd == "vec":
        return sub(veclen(it.a[1]), it.a[2])
    if kd in ("map", "cloned", "rev", "enumerate", "inspect"):
        return it_len(eng, st, it.a[1])
    return mk("itlen", it)


def it_next(eng, st, ctx, site, it, k, back=False, ev=None):
    """-> list of (item | None, new iterator, state)"""
    kd = it.a[0] if it.op == "it" else None
    if kd == "range":
        a, b = it.a[1], it.a[2]
        out = []
        if b.op == "inf":
            return [(a, mk("it", "range", add(a, c(1)), b), st)]
        for x, s in fork_bool(eng, st, binop("Lt", a, b)):
            if not x:
                out.append((None, it, s))
            elif back:
                e = add(b, c(-1))
                out.append((e, mk("it", "range", a, e), s))
            else:
                out.append((a, mk("it", "range", add(a, c(1)), b), s))
        return out
    if kd in ("slice", "vec", "op"):
        pos = it.a[2]
        if kd == "slice":
            v = eng.load(st, it.a[1])
        else:
            v = it.a[1]
        n = veclen(v)
        out = []
        for x, s in fork_bool(eng, st, binop("Lt", pos, n)):
            if not x:
                out.append((None, it, s))
                continue
            i = pos if not back else sub(add(n, c(-1)), pos)
            if kd == "slice":
                r, p = eng.locof(it.a[1])
                x_ = eng.mkref(r, addidx(p, i))
            else:
                x_ = elem(v, i)
            out.append((x_, mk("it", kd, it.a[1], add(pos, c(1))), s))
        return out
    if kd == "rev":
        return [(x, mk("it", "rev", i2), s) for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, not back)]
    if kd == "chunks":
        r, p = eng.locof(it.a[1])
        v = eng.get(st, r, p)
        pos = it.a[2]
        out = []
        for x, s in fork_bool(eng, st, binop("Lt", pos, veclen(v))):
            if not x:
                out.append((None, it, s))
            else:
                out.append((eng.mkref(r, addslice(p, pos, mk("chunkend", pos, it.a[3], v))), mk("it", "chunks", it.a[1], add(pos, it.a[3]), it.a[3]), s))
        return out
    if kd == "enumerate":
        out = []
        for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, back):
            n = it.a[2]
            m = mk("enum", n, eng.load(s, x) if x.op == "ref" else x) if x is not None and eng.opts.get("pushev") else n
            out.append((mk("tup", m, x) if x is not None else None, mk("it", "enumerate", i2, add(n, c(1))), s))
        return out
    if kd == "cloned":
        return [(eng.load(s, x) if x is not None else None, mk("it", "cloned", i2), s) for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, back)]
    if kd == "take":
        out = []
        for b, s in fork_bool(eng, st, binop("Eq", it.a[2], c(0))):
            if b:
                out.append((None, it, s))
            else:
                for x, i2, s2 in it_next(eng, s, ctx, site, it.a[1], k, back):
                    out.append((x, mk("it", "take", i2, add(it.a[2], c(-1))), s2))
        return out
    if kd == "zip":
        out = []
        for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k):
            if x is None:
                out.append((None, it, s))
                continue
            for y, j2, s2 in it_next(eng, s, ctx, site, it.a[2], k):
                out.append((mk("tup", x, y) if y is not None else None, mk("it", "zip", i2, j2), s2))
        return out
    if kd == "map":
        out = []
        inner = ev if ev and it.a[1].op == "it" and it.a[1].a[0] == "map" else None
        for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, back, ev=inner):
            if ev and not inner:
                eng.event(s, ctx, ev[0] + ("it", x is None, ev[1]), "next", "none" if x is None else "some", (it.a[1],), res=x, sp=k.t["sp"] if k.t else None)
            if x is None:
                out.append((None, mk("it", "map", i2, it.a[2]), s))
                continue
            for r, s2 in eng.call_value(s, ctx, site, it.a[2], [x], k.t):
                out.append((r, mk("it", "map", i2, it.a[2]), s2))
        return out
    if kd in ("filter", "filter_map", "take_while", "skip_while"):
        out = []
        for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, back):
            j2 = mk("it", kd, i2, it.a[2])
            if x is None:
                out.append((None, j2, s))
                continue
            for r, s2 in eng.call_value(s, ctx, site, it.a[2], [x if kd == "filter_map" else mk("cptr", x)], k.t):
                if kd == "filter_map":
                    for w, s3 in eng.cases(s2, r):
                        if w == 1:
                            out.append((eng.payload(r, 1), j2, s3))
                else:
                    for b, s3 in fork_bool(eng, s2, r):
                        if not b and kd == "filter" and eng.opts.get("iterev"):
                            eng.event(s3, ctx, site + ("skip",), "next", "skip", (it,), res=x, sp=k.t["sp"] if k.t else None)
                        if b or kd == "skip_while":
                            out.append((x, j2, s3))
                        elif kd == "take_while":
                            out.append((None, j2, s3))
        return out
    if kd in ("skip", "step_by", "peekable", "inspect", "chain"):
        # positions are not tracked through these
        out = []
        for x, i2, s in it_next(eng, st, ctx, site, it.a[1], k, back):
            out.append((x, mk("it", kd, i2, *it.a[2:]), s))
        return out
    if kd == "opt":
        return [((eng.payload(it.a[1], 1) if w == 1 else None), mk("it", "opt", NONE), s) for w, s in eng.cases(st, it.a[1])]
    # unknown iterator
    s2 = st.fork()
    x = eng.fresh(st, ctx, site, "item")
    return [(x, it, st), (None, it, s2)]


@reg(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back")
def inext(eng, st, ctx, site, k):
    f = user_impl(eng, k, "core::iter::traits::iterator::Iterator::next", k.ta)
    if f:
        return eng.call_fn(st, ctx, site, f[0], f[1], list(k.args), k.t)
    v = eng.load(st, k.args[0])
    it = v if v.op == "it" else to_iter(eng, st, v, None)
    if it is None:
        it = v
    out = []
    for x, i2, s in it_next(eng, st, ctx, site, it, k, k.name == "next_back"):
        eng.store(s, k.args[0], i2)
        if eng.opts.get("iterev"):
            eng.event(s, ctx, site + (x is None,), "next", "none" if x is None else "some", (it,), res=x, sp=k.t["sp"])
        out.append((some(x) if x is not None else NONE, s))
    return out


@reg("alloc::vec::from_elem")
def from_elem(eng, st, ctx, site, k):
    return one(mk("vrep", k.args[0], k.args[1]), st)


def gen_loop(eng, st, ctx, site, it, k, body, quiet=False):
    """run body(item, state)->[(exit value | None to go on, state)] for every item, to a fixpoint.
    returns (early exits [(value, state)], [states at exhaustion])"""
    key = mk("itvar", ctx.id, site)
    st.mem[key] = it
    tr = (lambda s: eng.track(eng, s)) if eng.track else (lambda s: None)
    heads = {tr(st): st}
    todo = [tr(st)]
    res = {}
    n = 0
    while todo:
        hk = todo.pop()
        n += 1
        if n > 400:
            raise Exception("loop does not converge")
        cur = heads[hk]
        early = []
        done = []
        nxt = []
        w = cur.fork()
        it0 = w.mem[key]
        # where a closure makes the item: the round begins before it runs
        first = eng.opts.get("pushev") and it0.op == "it" and it0.a[0] == "map"
        for x, i2, s in it_next(eng, w, ctx, site + ((hk,) if hk is not None else ()), w.mem[key], k, ev=(site, hk) if first else None):
            if eng.opts.get("iterev") and not quiet and not first:
                eng.event(s, ctx, site + ("it", x is None, hk), "next", "none" if x is None else "some", (it0,), res=x, sp=k.t["sp"] if k.t else None)
            if x is None:
                done.append(s)
                continue
            s.mem[key] = i2
            for v, s2 in body(x, s):
                if v is None:
                    nxt.append(s2)
                else:
                    early.append((v, s2))
        res[hk] = (early, done)
        for s in nxt:
            k2 = tr(s)
            h = heads.get(k2)
            if h is None:
                heads[k2] = s
                todo.append(k2)
            elif eng.join(h, s, eng.mpid(ctx, site, ("loop", k2))):
                if k2 not in todo:
                    todo.append(k2)
    early = [e for r in res.values() for e in r[0]]
    done = [d for r in res.values() for d in r[1]]
    for s in done:
        s.mem.pop(key, None)
    for _, s in early:
        s.mem.pop(key, None)
    return early, done


@reg(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(eng, st, ctx, site, k):
    it = k.args[0]
    target = Prog.sub(eng.p.ty(k.t["dt"]), ctx.sub)
    if it.op != "it":
        it2 = to_iter(eng, st, it, k.ta[0])
        it = it2 if it2 is not None else mk("it", "op", it, c(0))
    isres = tyname(target) == RESULT
    isopt = tyname(target) == OPTION
    items = []
    acc = mk("accvar", ctx.id, site)
    st.mem[acc] = mk("vnew")

    def pushed(s, x):
        if eng.opts.get("pushev"):
            eng.event(s, ctx, site + ("acc",), "push", "", (s.mem[acc], x), sp=k.t["sp"])

    def body(x, s):
        if isres:
            out = []
            for w, s2 in eng.cases(s, x):
                if w == 0:
                    pushed(s2, eng.payload(x, 0))
                    s2.mem[acc] = mk("vpush", s2.mem[acc], eng.payload(x, 0))
                    out.append((None, s2))
                else:
                    out.append((err(eng.payload(x, 1)), s2))
            return out
        if isopt:
            out = []
            for w, s2 in eng.cases(s, x):
                if w == 1:
                    pushed(s2, eng.payload(x, 1))
                    s2.mem[acc] = mk("vpush", s2.mem[acc], eng.payload(x, 1))
                    out.append((None, s2))
                else:
                    out.append((NONE, s2))
            return out
        pushed(s, x)
        s.mem[acc] = mk("vpush", s.mem[acc], x)
        return [(None, s)]

    plain = iter_value(it)
    if plain is not None and not isres and not isopt:
        st.mem.pop(acc)
        return one(plain, st)
    early, done = gen_loop(eng, st, ctx, site, it, k, body, not eng.opts.get("pushev"))
    out = []
    for v, s in early:
        s.mem.pop(acc, None)
        out.append((v, s))
    for s in done:
        v = s.mem.pop(acc)
        if v.op == "phi" and pure_chain(it):
            v = mk("vcoll", v, it)
        out.append((ok(v) if isres else some(v) if isopt else v, s))
    return out


@reg(IT + "for_each", IT + "try_for_each")
def for_each(eng, st, ctx, site, k):
    it = to_iter(eng, st, k.args[0] if k.name == "for_each" else eng.load(st, k.args[0]), k.ta[0])
    if it is None:
        it = mk("it", "op", k.args[0], c(0))
    tr = k.name == "try_for_each"

    def body(x, s):
        out = []
        for r, s2 in eng.call_value(s, ctx, site + ("b",), k.args[1], [x], k.t):
            if not tr:
                out.append((None, s2))
            else:
                for w, s3 in eng.cases(s2, r):
                    out.append((None, s3) if w == 0 else (err(eng.payload(r, 1)), s3))
        return out
    early, done = gen_loop(eng, st, ctx, site, it, k, body)
    return early + [(ok(UNIT) if tr else UNIT, s) for s in done]


@reg(IT + "position", IT + "any", IT + "all", IT + "find", IT + "find_map", IT + "rposition")
def position(eng, st, ctx, site, k):
    pit = k.args[0]
    v = eng.load(st, pit)
    it = v if v.op == "it" else to_iter(eng, st, v, k.ta[0])
    if it is None:
        it = mk("it", "op", v, c(0))
    n = mk("posvar", ctx.id, site)
    st.mem[n] = c(0)

    def body(x, s):
        out = []
        a = mk("cptr", x) if k.name == "find" else x
        for r, s2 in eng.call_value(s, ctx, site + ("b",), k.args[1], [a], k.t):
            if k.name == "find_map":
                for w, s3 in eng.cases(s2, r):
                    out.append((None, s3) if w == 0 else (r, s3))
                continue
            for b, s3 in fork_bool(eng, s2, r):
                if k.name == "all":
                    b = not b
                if b:
                    out.append(({"position": some(s3.mem[n]), "rposition": some(s3.mem[n]), "any": TRUE, "all": FALSE, "find": some(x)}[k.name], s3))
                else:
                    s3.mem[n] = add(s3.mem[n], c(1))
                    out.append((None, s3))
        return out
    early, done = gen_loop(eng, st, ctx, site, it, k, body)
    end = {"position": NONE, "rposition": NONE, "any": FALSE, "all": TRUE, "find": NONE, "find_map": NONE}[k.name]
    res = early + [(end, s) for s in done]
    for _, s in res:
        s.mem.pop(n, None)
    return res


@reg(IT + "fold", IT + "try_fold")
def fold(eng, st, ctx, site, k):
    it = to_iter(eng, st, k.args[0], k.ta[0])
    if k.name == "try_fold" or it is None:
        return None
    acc = mk("accvar", ctx.id, site)
    st.mem[acc] = k.args[1]

    def body(x, s):
        out = []
        for r, s2 in eng.call_value(s, ctx, site + ("b",), k.args[2], [s.mem[acc], x], k.t):
            s2.mem[acc] = r
            out.append((None, s2))
        return out
    early, done = gen_loop(eng, st, ctx, site, it, k, body)
    return [(s.mem.pop(acc), s) for s in done]


@reg(IT + "count", IT + "sum", IT + "max", IT + "min", IT + "last")
def icount(eng, st, ctx, site, k):
    return one(mk("call", k.name, k.args[0]), st)


# ---------------------------------------------------------------- fn traits
@reg("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once")
def fncall(eng, st, ctx, site, k):
    f = k.args[0]
    tup = k.args[1]
    n = len(k.ta[1][1]) if len(k.ta) > 1 and k.ta[1][0] == "tuple" else (len(tup.a) if tup.op == "tup" else 1)
    av = [tup.a[i] if tup.op == "tup" else mk("fld", tup, i, str(i), "") for i in range(n)]
    return eng.call_value(st, ctx, site, f, av, k.t)


# ---------------------------------------------------------------- integers
@reg("core::num::wrapping_add", "core::num::wrapping_sub", "core::num::wrapping_mul", "core::num::unchecked_add", "core::num::unchecked_sub")
def wrapping(eng, st, ctx, site, k):
    return one(binop({"add": "Add", "sub": "Sub", "mul": "Mul"}[k.name.split("_")[1]], *k.args), st)


@reg("core::num::saturating_add", "core::num::saturating_sub", "core::num::saturating_mul")
def saturating(eng, st, ctx, site, k):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul"}[k.name.split("_")[1]]
    a, b = k.args
    if op == "Sub":
        return [(c(0), s) if x else (sub(a, b), s) for x, s in fork_bool(eng, st, binop("Lt", a, b))]
    return one(binop(op, a, b), st)


@reg("core::num::checked_add", "core::num::checked_sub", "core::num::checked_mul", "core::num::checked_div", "core::num::checked_rem")
def checked(eng, st, ctx, site, k):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}[k.name.split("_")[1]]
    a, b = k.args
    if op == "Sub":
        return [(NONE, s) if x else (some(sub(a, b)), s) for x, s in fork_bool(eng, st, binop("Lt", a, b))]
    s2 = st.fork()
    return [(some(binop(op, a, b)), st), (NONE, s2)]


@reg("core::num::to_be_bytes", "core::num::to_le_bytes", "core::num::to_ne_bytes")
def to_bytes(eng, st, ctx, site, k):
    return one(mk("call", k.name, k.args[0], mk("w", k.t["at"][0].get("s", ""))), st)


@reg("core::num::from_be_bytes", "core::num::from_le_bytes", "core::num::from_ne_bytes")
def from_bytes(eng, st, ctx, site, k):
    a = k.args[0]
    if a.op == "call" and a.a[0] == "to" + k.name[4:]:
        return one(a.a[1], st)
    return one(mk("call", k.name, a), st)


@reg("core::bool::then", "core::bool::then_some")
def bool_then(eng, st, ctx, site, k):
    out = []
    for b, s in fork_bool(eng, st, k.args[0]):
        if not b:
            out.append((NONE, s))
        elif k.name == "then_some":
            out.append((some(k.args[1]), s))
        else:
            out += [(some(r), s2) for r, s2 in eng.call_value(s, ctx, site, k.args[1], [], k.t)]
    return out


# ---------------------------------------------------------------- maps
@reg("std::collections::btree::map::get", "std::collections::hash::map::get")
def map_get(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    key = eng.load(st, k.args[1])
    x = m
    while x.op == "minsert":
        if x.a[1] is key:
            return one(some(mk("cptr", x.a[2])), st)
        x = x.a[0]
    if x.op == "vnew" and m is x:
        return one(NONE, st)
    if key_of_map(eng, key, m):
        return one(some(mk("call", "map_val", m, key)), st)
    return one(mk("call", "map_get", m, key), st)


def map_place(eng, m):
    while m.op in ("hv", "phi"):
        if m.op == "hv":
            m = m.a[0]
        else:
            o = [x for x in eng.phiops.get(m, ()) if x is not m]
            if not o:
                return None
            m = o[0]
    return (m.a[2], m.a[3]) if m.op == "fld" else None


def phi_leaves(eng, t):
    """the values that can flow into a join"""
    seen, out, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and eng.phiops.get(x):
            todo += list(eng.phiops[x])
        else:
            out.add(x)
    return out


def counts_from_zero(eng, i):
    """an index that starts at 0 and goes up in steps of one; the first rounds of a loop are unrolled, so that the
    walk must also have been seen at 0 (see starts_at_zero) unless it ends right there"""
    seen, todo = set(), [i]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and eng.phiops.get(x):
            todo += list(eng.phiops[x])
        elif x not in (c(0), c(1), c(2)):
            q = [y for y in subterms(x) if y.op == "phi" and sub(x, y) is c(1)]
            if not q:
                return False
            todo += q
    return True


def iter_pos(it):
    """the position of an iterator in what it walks"""
    while it.op == "it" and it.a[0] not in ("vec", "op", "slice", "svals", "range"):
        it = it.a[1]
    if it.op != "it":
        return None
    return it.a[1] if it.a[0] == "range" else it.a[2]


def key_of_map(eng, key, m):
    """the key was taken from this very map (which nothing was removed from)"""
    while key.op in ("deref", "cptr"):
        key = key.a[0]
    if key.op == "phi":
        o = phi_leaves(eng, key)
        return bool(o) and all(key_of_map(eng, x, m) for x in o)
    if key.op != "elem":
        return False
    v = key.a[0]
    while v.op == "vcloned":
        v = v.a[0]
    if v.op == "call" and v.a[0] == "map_keys":
        a, b = map_place(eng, v.a[1]), map_place(eng, m)
        return a is not None and a == b
    return False


@reg("std::collections::btree::map::get_mut", "std::collections::hash::map::get_mut")
def map_get_mut(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    return one(mk("call", "map_get", m, eng.load(st, k.args[1])), st)


@reg("std::collections::btree::map::contains_key", "std::collections::hash::map::contains_key")
def map_contains(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    key = eng.load(st, k.args[1])
    v = mk("call", "map_get", m, key)
    if m.op == "minsert" and m.a[1] is key:
        return one(TRUE, st)
    return [(TRUE if w == 1 else FALSE, s) for w, s in eng.cases(st, v)]


@reg("std::collections::btree::map::insert", "std::collections::hash::map::insert")
def map_insert(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    key = k.args[1]
    old = mk("call", "map_get_val", m, key)
    eng.event(st, ctx, site, "mapinsert", "", (k.args[0], key, k.args[2]), sp=k.t["sp"])
    return vop(eng, st, k, mk("minsert", m, key, k.args[2]), old)


@reg("std::collections::btree::map::remove", "std::collections::hash::map::remove")
def map_remove(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    key = eng.load(st, k.args[1])
    old = mk("call", "map_get_val", m, key)
    return vop(eng, st, k, mk("mremove", m, key), old)


@reg("std::collections::btree::map::keys", "std::collections::btree::map::values", "std::collections::btree::map::iter", "std::collections::hash::map::keys",
     "std::collections::hash::map::values", "std::collections::hash::map::iter", "std::collections::btree::map::values_mut", "std::collections::btree::map::iter_mut")
def map_iter(eng, st, ctx, site, k):
    m = eng.load(st, k.args[0])
    kind = {"keys": "keys", "values": "values", "values_mut": "values", "iter": "iter", "iter_mut": "iter"}[k.name]
    return one(mk("it", "op", mk("call", "map_" + kind, m), c(0)), st)


@reg("core::hash::Hash::hash")
def hash_(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    h = eng.load(st, k.args[1])
    f = user_impl(eng, k, "core::hash::Hash::hash", k.ta)
    if f:
        return eng.call_fn(st, ctx, site, f[0], f[1], list(k.args), k.t)
    eng.store(st, k.args[1], mk("call", "hashed", h, v))
    return one(UNIT, st)


@reg(*["core::hash::Hasher::write" + x for x in ("", "_u8", "_u16", "_u32", "_u64", "_usize", "_i8", "_i32", "_i64", "_str", "_length_prefix")])
def hasher_write(eng, st, ctx, site, k):
    f = user_impl(eng, k, "core::hash::Hasher::" + k.name, k.ta)
    if f:
        return eng.call_fn(st, ctx, site, f[0], f[1], list(k.args), k.t)
    v = eng.load(st, k.args[1]) if k.args[1].op == "ref" else k.args[1]
    eng.store(st, k.args[0], mk("call", "hashed", eng.load(st, k.args[0]), v))
    return one(UNIT, st)


# ---------------------------------------------------------------- strings / fmt / paths: pure
@reg("alloc::fmt::format", "core::fmt::rt::new_display", "core::fmt::rt::new_debug", "core::fmt::rt::new_lower_hex", "core::fmt::new", "core::fmt::from_str",
     "core::fmt::rt::new_upper_hex")
def fmt_(eng, st, ctx, site, k):
    return eng.pure(st, ctx, site, k.d, k.args, k.t)


@reg("std::path::push")
def path_push(eng, st, ctx, site, k):
    v = eng.load(st, k.args[0])
    x, _ = deep(eng, st, k.args[1], k.ta[-1] if k.ta else ("other", ""))
    eng.store(st, k.args[0], mk("call", "path_join", v, x))
    return one(UNIT, st)


@reg("std::path::to_path_buf")
def to_path_buf(eng, st, ctx, site, k):
    return one(eng.load(st, k.args[0]), st)


# ---------------------------------------------------------------- files
@reg("std::fs::new")
def oo_new(eng, st, ctx, site, k):
    return one(mk("oo"), st)


@reg("std::fs::read", "std::fs::write", "std::fs::create", "std::fs::truncate", "std::fs::append", "std::fs::create_new")
def oo_set(eng, st, ctx, site, k):
    if len(k.args) != 2 or "OpenOptions" not in tyname(Prog.sub(eng.p.ty(k.t["at"][0]), ctx.sub)):
        return io_call(eng, st, ctx, site, k)
    v = eng.load(st, k.args[0])
    m = dict(v.a) if v.op == "oo" else {}
    m[k.name] = k.args[1]
    eng.store(st, k.args[0], mk("oo", *sorted(m.items())))
    return one(k.args[0], st)


def kind_of(t):
    """which of the four files a location belongs to"""
    best = None
    for x in subterms(t):
        if x.op == "fld" and len(x.a) >= 4:
            n = x.a[2]
            ow = x.a[3]
            if n in ("key_file", "val_file", "idx_file", "htx_file") and ow.endswith("FileDbXxxInner"):
                return n.split("_")[0]
            if ow.endswith("::KeyFile") or ow.endswith("VarFileKeyCache"):
                best = best or "key"
            elif ow.endswith("::ValueFile") or ow.endswith("VarFileValueCache"):
                best = best or "val"
            elif ow.endswith("::IdxFile") or ow.endswith("VarFileNodeCache"):
                best = best or "idx"
            elif ow.endswith("::HtxFile") or ow.endswith("VarFileHtxCache"):
                best = best or "htx"
        elif x.op == "deref" or x.op == "arg":
            pass
    return best


def kind_of_path(path):
    for e in path:
        if e[0] == "f":
            ow = e[2]
            for n, kd in (("KeyCache", "key"), ("ValueCache", "val"), ("NodeCache", "idx"), ("HtxCache", "htx"), ("::KeyFile", "key"), ("::ValueFile", "val"), ("::IdxFile", "idx"), ("::HtxFile", "htx")):
                if ow.endswith(n):
                    return kd
    return None


def kind_of_ctx(eng, ctx):
    x = ctx
    while x is not None:
        s = x.fn.self_ty
        if s is not None and s[0] == "adt":
            for n, kd in (("KeyCache", "key"), ("ValueCache", "val"), ("NodeCache", "idx"), ("HtxCache", "htx"), ("::KeyFile", "key"), ("::ValueFile", "val"), ("::IdxFile", "idx"), ("::HtxFile", "htx")):
                if s[1].endswith(n):
                    return kd
        m = re.search(r"inner::(key|val|idx|htx)::", x.fn.d)
        if m:
            return m.group(1)
        x = x.parent
    return None


def file_id(eng, st, ctx, p):
    root, path = eng.locof(p)
    q = tuple(e for e in path if not (e[0] == "f" and e[3] == "buf_file"))
    fid = eng.mkref(root, q)
    kd = kind_of(root) or kind_of_path(path) or kind_of_ctx(eng, ctx)
    return fid, kd


def io_call(eng, st, ctx, site, k):
    """an operation on a file: an event that succeeds or fails"""
    at = k.t["at"]
    fid, kd = (None, None)
    for a, ty in zip(k.args, at):
        t = Prog.sub(eng.p.ty(ty), ctx.sub)
        if is_file_ty(t):
            fid, kd = file_id(eng, st, ctx, a) if t[0] == "ref" else (a, kind_of_ctx(eng, ctx))
            break
    vals = []
    outs = []
    for a, ty in zip(k.args[0:], at[0:]):
        t = Prog.sub(eng.p.ty(ty), ctx.sub)
        if t[0] in ("ref", "ptr") and not is_file_ty(t):
            if t[1]:
                outs.append(a)
                vals.append(eng.load(st, a))
            else:
                vals.append(eng.load(st, a))
        elif not is_file_ty(t) or t[0] != "ref":
            vals.append(a)
    dt = Prog.sub(eng.p.ty(k.t["dt"]), ctx.sub)
    name = k.name
    if not (dt[0] == "adt" and dt[1] == RESULT):
        n = eng.event(st, ctx, site, "io", name, tuple(vals), file=(fid, kd), sp=k.t["sp"])
        v = eng.fresh(st, ctx, site, "io") if dt != ("tuple", ()) else UNIT
        n.res = v
        return one(v, st)
    n = eng.event(st, ctx, site, "io", name, tuple(vals), file=(fid, kd), sp=k.t["sp"])
    s2 = st.fork()
    pt = dt[2][0]
    v = UNIT if pt == ("tuple", ()) else eng.fresh(st, ctx, site, "io")
    bs = []
    for i, o in enumerate(outs):
        b = eng.fresh(st, ctx, site, ("buf", i))
        old = eng.load(st, o)
        eng.store(st, o, mk("vsized", b, veclen(old)))
        eng.store(s2, o, mk("vsized", eng.fresh(s2, ctx, site, ("ebuf", i)), veclen(old)))
        bs.append(b)
    n.res = v if not bs else bs[0]
    eng.event(st, ctx, site, "ok", name, tuple(vals), res=n.res, file=(fid, kd), sp=k.t["sp"])
    e = eng.fresh(s2, ctx, site, "ioerr")
    eng.event(s2, ctx, site, "err", name, tuple(vals), res=e, file=(fid, kd), sp=k.t["sp"])
    return [(ok(v), st), (err(e), s2)]


@reg("std::fs::open", "std::fs::create_dir_all", "std::fs::create_dir", "std::fs::remove_file", "std::fs::metadata", "std::fs::rename", "std::fs::set_len",
     "std::path::exists", "rabuf::with_capacity", "rabuf::with_per_mille", "rabuf::new", "std::fs::sync_all", "std::fs::sync_data")
def fs_call(eng, st, ctx, site, k):
    return io_call(eng, st, ctx, site, k)
