"""Where in a file each access happens: symbolic positions, and the field layout they imply."""
from collections import namedtuple
from core import *
from models import phi_leaves, iter_pos, veclen

WIDTH = {"read_u8": 1, "read_u16_le": 2, "read_u32_le": 4, "read_u64_le": 8, "write_u8": 1, "write_u16_le": 2, "write_u32_le": 4, "write_u64_le": 8}
BYTES = ("write_all", "write_all_small", "write", "read_exact", "read_exact_small", "read_exact_maybeslice", "read_max_8_bytes")

# one access: node, file kind, write?, absolute position (term), bytes covered (term), part (None | "keys"/"downs" number), value written or read
Acc = namedtuple("Acc", "n kind wr pos w val seg")


def uncast(t):
    while t.op == "cast":
        t = t.a[1]
    return t


def parts(n, a):
    """[(width, value)] of an access, in file order; None: not known"""
    nm = n.name
    if nm in WIDTH:
        return [(c(WIDTH[nm]), a[0] if is_write(nm) else n.res)]
    if nm in ("write_all", "write_all_small", "write"):
        return [(veclen(a[0]), a[0])]
    if nm in ("read_exact", "read_exact_small"):
        return [(veclen(a[0]), n.res)]
    if nm in ("read_exact_maybeslice", "read_max_8_bytes"):
        return [(uncast(a[0]), n.res)]
    if nm == "write_zero":
        return [(uncast(a[0]), None)]
    if nm == "write_u64_le_slice":
        return [(mul(c(8), veclen(a[0])), a[0])]
    if nm == "write_u64_le_slice2":
        return [(mul(c(8), veclen(a[0])), a[0]), (mul(c(8), veclen(a[1])), a[1])]
    return None


def g(kind, what, *more):
    return mk("ghost", what, kind or "?", *more)


def get2(st, kind):
    """(base, offset from it): where the file is"""
    b, o, d = st.mem.get(g(kind, "base")), st.mem.get(g(kind, "off")), st.mem.get(g(kind, "delta"))
    return (b, add(o, d)) if b is not None and o is not None and d is not None else (None, None)


def put2(st, kind, b, o, d=c(0)):
    if b is None:
        for w in ("base", "off", "delta"):
            st.mem.pop(g(kind, w), None)
    else:
        st.mem[g(kind, "base")] = b
        st.mem[g(kind, "off")] = o
        st.mem[g(kind, "delta")] = d


KALL = KINDS + ("?",)


def bound(it):
    """the number of rounds of a counted walk"""
    while it.op == "it" and it.a[0] not in ("vec", "op", "slice", "svals", "range"):
        it = it.a[1]
    if it.op == "it" and it.a[0] == "range":
        return it.a[2]
    return None


def phis(t):
    return [x for x in subterms(t) if x.op == "phi"]


def left_loop(eng, st, n):
    """when a counted loop is left its counter has reached the bound: places that depend on it are fixed then"""
    pairs = {}
    if n.kind == "next":
        if n.name != "none":
            return
        i, nb = iter_pos(n.args[0]), bound(n.args[0])
        if i is None or i.op != "phi" or nb is None:
            return
        pairs[i] = nb
    for kind in KALL:
        d = st.mem.get(g(kind, "delta"))
        if d is None or d.op == "c":
            continue
        m = {}
        for x in phis(d):
            if x in pairs:
                m[x] = pairs[x]
            elif n.kind != "next":
                for k, v in st.facts.items():
                    if v == 0 and k.op == "op" and k.a[0] == "Lt" and uncast(k.a[1]) is x:
                        m[x] = k.a[2]
                        break
        if m:
            st.mem[g(kind, "delta")] = subst(d, m, {})


def adv(st, kind, w):
    st.mem[g(kind, "delta")] = add(st.mem[g(kind, "delta")], w)


def chain(n):
    """the call sites that lead to a node"""
    return (n.sp,) + tuple((d, s[1]) for d, s in n.ctx.stack() if s[0] != "root")


def track(eng, st, n):
    """fold one event into the position of its file"""
    if n.kind == "next":
        left_loop(eng, st, n)
        return
    if n.kind not in ("ok", "err") or n.file is None:
        return
    left_loop(eng, st, n)
    eng.lastacc = []
    kind = n.file[1] or "?"
    base, off = get2(st, kind)
    ki = KALL.index(kind) if kind in KALL else 4
    if n.kind == "err":
        put2(st, kind, None, None)
        return
    nm = n.name
    if nm == "seek":
        f = n.args[0]
        if f.op == "adt" and f.a[1] == 0:
            put2(st, kind, f.a[2], c(0))
            eng.posalias.setdefault(n.res, set()).add(f.a[2])
        elif f.op == "adt" and f.a[1] == 1 and f.a[2] is c(0):
            put2(st, kind, n.res, c(0))
            eng.eofs.add(n.res)
        elif f.op == "adt" and f.a[1] == 2 and base is not None:
            adv(st, kind, uncast(f.a[2]))
            eng.posalias.setdefault(n.res, set()).add(add(*get2(st, kind)))
            return
        else:
            put2(st, kind, None, None)
        st.trk = st.trk[:1] + (st.trk[1][:ki] + (chain(n),) + st.trk[1][ki + 1:],) + st.trk[2:]
        return
    if nm == "stream_position":
        if base is not None:
            if any(x.a[1].op == "ghost" for x in phis(off)):
                put2(st, kind, n.res, c(0))
            else:
                eng.posalias.setdefault(n.res, set()).add(add(base, off))
        return
    if nm in ("prepare", "set_len", "flush", "sync_all", "sync_data") or not (is_read(nm) or is_write(nm)):
        return
    ps = parts(n, n.args)
    if ps is None:
        put2(st, kind, None, None)
        if nm not in ("read_fill_buffer",):
            eng.lastacc = [Acc(n, kind, is_write(nm), None, None, None, None)]
            eng.acc.update(eng.lastacc)
        return
    o = off
    for w, v in ps:
        eng.lastacc.append(Acc(n, kind, is_write(nm), None if base is None else add(base, o), w, v, st.trk[1][ki]))
        if base is not None:
            o = add(o, w)
        if base is not None:
            adv(st, kind, w)
    eng.acc.update(eng.lastacc)


def run(W, label, fn, sub=None, opts=None, step=None, init=None, setup=None):
    o = {"iterev": True, "relghost": "delta"}
    o.update(opts or {})

    def su(eng, st, av):
        eng.posalias, eng.acc, eng.eofs, eng.lastacc = {}, set(), set(), ()
        if setup:
            setup(eng, st, av)

    def stp(eng, st, n):
        eng.lastacc = ()
        track(eng, st, n)
        if step:
            step(eng, st, n)
    return W.run(label, fn, sub or {}, stp, (init, (None,) * 5), su, o)


def resolve(eng, t, depth=0):
    """positions told by the file itself are the ones we know it is at"""
    m = {}
    for x in subterms(t):
        a = eng.posalias.get(x)
        if a and len(a) == 1:
            m[x] = next(iter(a))
    if not m or depth > 6:
        return t
    return resolve(eng, subst(t, m, {}), depth + 1)


F = lambda rel: mk("F", rel)
Can = namedtuple("Can", "a base rel w val fields")   # canonical access: record base (None: fixed place), bytes from it, ...


class Layout(object):
    """the accesses of one root in canonical form: positions relative to the record they belong to, lengths that were
    read from (or written into) the record itself named after the field that holds them"""

    def __init__(self, W, label, fn, sub=None, opts=None, step=None, init=None, setup=None):
        self.W, self.fn, self.label = W, fn, label
        self.eng = run(W, label, fn, sub, opts, step, init, setup)
        e = self.eng
        self.accs = [a._replace(pos=None if a.pos is None else resolve(e, a.pos), w=None if a.w is None else resolve(e, a.w)) for a in e.acc]
        self.readat = {}
        for a in self.accs:
            if not a.wr and a.pos is not None and a.val is not None:
                self.readat.setdefault(a.val, set()).add((a.kind, a.pos))
        self.can = []
        for a in self.accs:
            if a.pos is not None:
                b, rel = self.split(a.pos, a.kind)
                self.can.append([a, b, rel, a.w, a.val])
        # what fields hold: read values, and written lengths
        fld = {}
        for a, b, rel, w, v in self.can:
            if rel is not None and rel.op == "c" and v is not None and w.op == "c":
                if a.wr and len(lenparts(v)) == 1 and uncast(v).op == "len":
                    fld.setdefault((b, uncast(v)), set()).add(rel.a[0])
                elif not a.wr:
                    fld.setdefault((b, v), set()).add(rel.a[0])
        out = []
        for a, b, rel, w, v in self.can:
            m = {t: F(min(r)) for (bb, t), r in fld.items() if bb is b and len(r) == 1}
            rel = rel if rel is None else strip(subst(rel, m, {}))
            w2 = strip(subst(w, m, {}))
            out.append(Can(a, b, rel, w2, v, m))
        self.can = out

    def lenish(self, t):
        return t.op == "len" or t.op == "cast" and self.lenish(t.a[1])

    def split(self, pos, kind):
        """(record base, bytes from it)"""
        k, ps = lin_parts(pos)
        cand = []
        for x, n in ps:
            if n != 1 or self.lenish(x):
                continue
            good = True
            for y, m in ps:
                if y is x or m != 1 or self.lenish(y):
                    continue
                if not any(kk == kind and (sub(p, x).op == "c") for kk, p in self.readat.get(uncast(y), ())):
                    good = False
            if good:
                cand.append(x)
        if not cand:
            if all(n != 1 or self.lenish(x) for x, n in ps):
                return None, pos
            return None, None
        return cand[0], sub(pos, cand[0])


def lenparts(t):
    return [x for x, n in lin_parts(uncast(t))[1]]


def strip(t):
    """integer widths do not matter for places"""
    if t.op == "cast":
        return strip(t.a[1])
    if t.op == "lin":
        d = {}
        k = t.a[0]
        for x, n in t.a[1]:
            k2, p2 = lin_parts(strip(x))
            k += k2 * n
            for y, m in p2:
                d[y] = d.get(y, 0) + n * m
        return mk_lin(k, d)
    return t


def file_roots(W):
    """[(label, fn)]: the operations of the four file types, and methods of the map object that access them directly"""
    out = []
    for nm in ("KeyFile", "ValueFile", "IdxFile", "HtxFile"):
        t = W.adt(nm, opt=nm == "HtxFile")
        if t:
            out += [(nm + "::" + f.name, f) for f in W.methods(t).values()]
    vf = set()
    for t in ("VarFile", "VarFileNodeCache", "VarFileKeyCache", "VarFileValueCache", "VarFileHtxCache", "NodeCache"):
        t = W.adt(t, opt=True)
        if t:
            vf |= {f.d for f in W.methods(t).values()}
    for f in W.methods(W.INNER).values():
        if set(W.p.cg.get(f.d, ())) & vf and f.d not in W.p.rec:
            out.append(("Inner::" + f.name, f))
    return out
