"""Hash-consed value terms (the value-numbering domain of the analyser)."""


class T(object):
    __slots__ = ("op", "a", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    return t


def reset():
    _tab.clear()


def c(v):
    return mk("c", int(v))


UNIT = mk("tup")
TRUE = mk("c", 1)
FALSE = mk("c", 0)

RESULT = "core::result::Result"
OPTION = "core::option::Option"
CFLOW = "core::ops::control_flow::ControlFlow"
ORDERING = "core::cmp::Ordering"
ORD_DISCR = {0: 255, 1: 0, 2: 1}
ENUM_NV = {RESULT: 2, OPTION: 2, CFLOW: 2, ORDERING: 3}


def adt(d, v, *f):
    return mk("adt", d, v, *f)


def ok(v):
    return adt(RESULT, 0, v)


def err(v):
    return adt(RESULT, 1, v)


def some(v):
    return adt(OPTION, 1, v)


NONE = mk("adt", OPTION, 0)


def is_c(t):
    return t.op == "c"


# ---------------------------------------------------------------- linear arithmetic
def lin_parts(t):
    if t.op == "c":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mk_lin(k, parts):
    parts = tuple(sorted(((x, n) for x, n in parts.items() if n != 0), key=lambda p: p[0].id))
    if not parts:
        return c(k)
    if k == 0 and len(parts) == 1 and parts[0][1] == 1:
        return parts[0][0]
    return mk("lin", k, parts)


def add(a, b, sb=1):
    ka, pa = lin_parts(a)
    kb, pb = lin_parts(b)
    d = dict(pa)
    for x, n in pb:
        d[x] = d.get(x, 0) + sb * n
    return mk_lin(ka + sb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        k, p = lin_parts(b)
        n = a.a[0]
        return mk_lin(k * n, {x: m * n for x, m in p})
    if a.id > b.id:
        a, b = b, a
    return mk("op", "Mul", a, b)


def neg(t):
    if t.op == "not":
        return t.a[0]
    if t.op == "c":
        return c(0 if t.a[0] else 1)
    return mk("not", t)


def binop(op, a, b):
    if op in ("Add", "AddUnchecked"):
        return add(a, b)
    if op in ("Sub", "SubUnchecked"):
        return sub(a, b)
    if op in ("Mul", "MulUnchecked"):
        return mul(a, b)
    if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
        return mk("tup", binop(op[:3], a, b), FALSE)
    if op == "Ne":
        return neg(binop("Eq", a, b))
    if op == "Gt":
        return binop("Lt", b, a)
    if op == "Ge":
        return neg(binop("Lt", a, b))
    if op == "Le":
        return neg(binop("Lt", b, a))
    if op in ("Eq", "Lt"):
        d = sub(a, b)
        if d.op == "c":
            v = d.a[0]
            return c(v == 0 if op == "Eq" else v < 0)
        if op == "Eq" and (a.op == "b2i" and b.op == "c" or b.op == "b2i" and a.op == "c"):
            x, k = (a, b) if a.op == "b2i" else (b, a)
            return FALSE if k.a[0] not in (0, 1) else x.a[0] if k.a[0] else neg(x.a[0])
        if op == "Eq":
            # bool == const
            if b.op == "c" and a.op in ("not", "op") and (a.op == "not" or a.a[0] in ("Eq", "Lt")):
                return a if b.a[0] else neg(a)
            if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
                return FALSE
            if a.id > b.id:
                a, b = b, a
        return mk("op", op, a, b)
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        if op == "Div" and y:
            return c(x // y)
        if op == "Rem" and y:
            return c(x % y)
        if op == "BitAnd":
            return c(x & y)
        if op == "BitOr":
            return c(x | y)
        if op == "BitXor":
            return c(x ^ y)
        if op in ("Shl", "ShlUnchecked"):
            return c((x << y) & ((1 << 64) - 1))
        if op in ("Shr", "ShrUnchecked"):
            return c(x >> y)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a is b and op != "BitXor":
            return a
        if a.id > b.id:
            a, b = b, a
        # boolean connectives with a constant
        for x, y in ((a, b), (b, a)):
            if x.op == "c" and x.a[0] == 0:
                if op == "BitAnd":
                    return FALSE
                return y
    return mk("op", op, a, b)


# ---------------------------------------------------------------- traversal
def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _tup(x):
                yield y


def _tup(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in _tup(y):
                yield z


def subterms(t, seen=None):
    """all subterms of t, t included (each once)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


def subst(t, m, memo):
    """replace terms by map m (identity keys), rebuilding"""
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a:
        memo[t] = t
        return t
    ch = False
    na = []
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
        elif isinstance(x, tuple):
            y = _subst_tup(x, m, memo)
        else:
            y = x
        if y is not x:
            ch = True
        na.append(y)
    if not ch:
        r = t
    else:
        if t.op == "lin":
            d = {}
            k = na[0]
            for x, n in na[1]:
                k2, p2 = lin_parts(x)
                k += k2 * n
                for y, n2 in p2:
                    d[y] = d.get(y, 0) + n * n2
            r = mk_lin(k, d)
        else:
            r = mk(t.op, *na)
    memo[t] = r
    return r


def _subst_tup(x, m, memo):
    ch = False
    o = []
    for y in x:
        if isinstance(y, T):
            z = subst(y, m, memo)
        elif isinstance(y, tuple):
            z = _subst_tup(y, m, memo)
        else:
            z = y
        if z is not y:
            ch = True
        o.append(z)
    return tuple(o) if ch else x


def show(t, d=6):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        return str(t)
    if d <= 0:
        return "…"
    o = t.op
    a = t.a
    if o == "c":
        return str(a[0])
    if o == "adt":
        return "%s#%s(%s)" % (a[0].split("::")[-1], a[1], ",".join(show(x, d - 1) for x in a[2:]))
    if o == "fld":
        return "%s.%s" % (show(a[0], d - 1), a[2] if a[2] else a[1])
    if o == "deref":
        return "*%s" % show(a[0], d)
    if o == "ref":
        return "&%s%s" % (show(a[0], d - 1), "".join("." + showp(p, d - 1) for p in a[1]))
    if o == "lin":
        return "(" + "+".join(["%s%s" % ("" if n == 1 else "%d*" % n, show(x, d - 1)) for x, n in a[1]] + ([str(a[0])] if a[0] else [])) + ")"
    if o == "op":
        return "%s(%s)" % (a[0], ",".join(show(x, d - 1) for x in a[1:]))
    if o == "obj":
        return "obj(%s;%s)" % (show(a[0], d - 1), ",".join("%s=%s" % (k[1] or k[0], show(v, d - 1)) for k, v in a[1]))
    if o == "call":
        return "%s(%s)" % (a[0].split("::")[-1], ",".join(show(x, d - 1) for x in a[1:]))
    if o == "loc":
        return "L%s_%s" % (a[0], a[1])
    return "%s(%s)" % (o, ",".join(show(x, d - 1) for x in a))


def showp(p, d=4):
    if p[0] == "f":
        return p[3] if len(p) > 3 and p[3] else str(p[1])
    return "%s" % (show(tuple(p[1:]), d),)


def ratio(a, b):
    """s with a == s * b, or None"""
    k, ps = lin_parts(b)
    ka, pa = lin_parts(a)
    if ps:
        x, n = ps[0]
        m = dict(pa).get(x, 0)
    else:
        m, n = ka, k
        if n == 0:
            return None
    if m % n:
        return None
    s = m // n
    return s if mul(c(s), b) is a else None
