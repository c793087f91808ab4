"""P05: every changed node is written and its new place linked.  P06: keys and children of nodes stay together."""
from core import *
from terms import *
import layout
from layout import strip, uncast
from rules_lists import reaches
from engine import veclen

OFFVAL = ("f", 0)


def num(t):
    """the number in a place"""
    t = strip(uncast(t))
    while t.op == "adt" and len(t.a) > 2:
        t = strip(uncast(t.a[2]))
    if t.op == "fld" and str(t.a[3]).endswith("::Offset"):
        return t
    return t


def item(t):
    """an entry of a list, without the wrapper of its number"""
    t = num(t)
    return t.a[0] if t.op == "fld" and str(t.a[3]).endswith("::Offset") else t


class Lin(object):
    """what is known about quantities on a path: lists of equal length, and linear facts"""

    def __init__(self, facts, pairs):
        self.pairs = pairs                      # children list -> keys list of the same node
        self.sub = {}
        self.ge = []
        self.dead = False
        for t, v in facts.items():
            if t.op == "op" and t.a[0] == "Eq" and v == 1:
                self.equal(self.lin(sub(t.a[1], t.a[2])))
        for t, v in facts.items():
            if t.op == "op" and t.a[0] in ("Lt", "Le"):
                a, b = self.lin(t.a[1]), self.lin(t.a[2])
                if t.a[0] == "Le":
                    self.ge.append(sub(b, a) if v else add(sub(a, b), c(-1)))
                else:
                    self.ge.append(add(sub(b, a), c(-1)) if v else sub(a, b))
        for x in self.ge:
            x = self.red(x)
            if x.op == "c" and x.a[0] < 0:
                self.dead = True

    def equal(self, d):
        k, ps = lin_parts(d)
        if len(ps) == 0:
            self.dead |= k != 0
            return
        for x, m in ps:
            if abs(m) == 1 and x.op == "len" and all(y.op == "len" for y, _ in ps):
                self.sub[x] = mul(sub(mk_lin(0, {x: m}), d), c(m))
                return

    def length(self, L):
        o = L.op
        if o == "vset":
            return self.length(L.a[0])
        if o in ("vins", "vpush"):
            return add(self.length(L.a[0]), c(1))
        if o == "vrem":
            return add(self.length(L.a[0]), c(-1))
        if o == "vext":
            return add(self.length(L.a[0]), self.length(L.a[1]))
        if o == "slice":
            return sub(self.length(L.a[0]) if L.a[2] == "end" else self.lin(L.a[2]), self.lin(L.a[1]))
        if o in ("vclone", "vcloned"):
            return self.length(L.a[0])
        if o in ("vresize", "vsized"):
            return self.lin(L.a[1])
        if L in self.pairs:
            return add(self.red(mk("len", self.pairs[L])), c(1))
        x = veclen(L)
        return self.red(x)

    def lin(self, t):
        if not hasattr(t, "op"):
            return c(0)
        k, ps = lin_parts(t)
        r = c(k)
        for x, m in ps:
            x = uncast(x)
            y = self.length(x.a[0]) if x.op == "len" else x
            r = add(r, mul(y, c(m)))
        return self.red(r)

    def red(self, t):
        for _ in range(4):
            k, ps = lin_parts(t)
            r = c(k)
            for x, m in ps:
                r = add(r, mul(self.sub.get(x, x), c(m)))
            if r is t:
                break
            t = r
        return t

    def known(self, d):
        """d >= 0 on this path"""
        d = self.red(d)
        if d.op == "c":
            return d.a[0] >= 0
        k, ps = lin_parts(d)
        if k >= 0 and all(m > 0 and (x.op == "len" or x.op == "ix") for x, m in ps):
            return True
        for g in self.ge:
            r = sub(d, self.red(g))
            if r.op == "c" and r.a[0] >= 0:
                return True
            k, ps = lin_parts(r)
            if k >= 0 and all(m > 0 and x.op == "len" for x, m in ps):
                return True
        return False


class Lost(Exception):
    pass


class Lists(object):
    """lists of keys and children as runs of entries of the lists they came from"""

    def __init__(self, L):
        self.L = L
        self.memo = {}

    def size(self, atoms):
        n = c(0)
        for a in atoms:
            n = add(n, c(1) if a[0] == "e" else sub(a[3], a[2]))
        return self.L.red(n)

    def split(self, atoms, i):
        """the entries before place i and those from it on"""
        L = self.L
        out, d = [], L.lin(i)
        atoms = list(atoms)
        while atoms:
            if d is c(0):
                return out, atoms
            a = atoms[0]
            n = c(1) if a[0] == "e" else L.red(sub(a[3], a[2]))
            r = L.red(sub(n, d))
            if r is c(0):
                return out + [a], atoms[1:]
            if a[0] == "e":
                if not L.known(add(d, c(-1))) and len(atoms) > 1:
                    raise Lost()
            elif (len(atoms) == 1 or L.known(r)) and (not out or L.known(d)):
                m = L.red(add(a[2], d))
                return out + [("s", a[1], a[2], m)], [("s", a[1], m, a[3])] + atoms[1:]
            elif not L.known(mul(r, c(-1))):
                raise Lost()
            out.append(a)
            atoms = atoms[1:]
            d = L.red(sub(d, n))
        if d is c(0):
            return out, []
        raise Lost()

    def whole(self, X):
        return [("s", X, c(0), self.L.length(X))]

    def cut(self, X, i):
        """X before and after place i, in the finest terms that can place i"""
        for xs in (self.norm(X), self.whole(X)):
            try:
                return self.split(xs, i)
            except Lost:
                pass
        raise Lost()

    def cut1(self, X, i):
        for xs in (self.norm(X), self.whole(X)):
            try:
                p, r = self.split(xs, i)
                q, r = self.split(r, c(1))
                return p, q, r
            except Lost:
                pass
        raise Lost()

    def entry(self, t):
        """an entry: a place in a list where it can be found"""
        t = item(t)
        if t.op == "elem":
            try:
                q = self.cut1(t.a[0], t.a[1])[1]
                if len(q) == 1:
                    return q[0]
            except Lost:
                pass
            return ("s", t.a[0], self.L.lin(t.a[1]), add(self.L.lin(t.a[1]), c(1)))
        return ("e", t)

    def norm(self, X):
        r = self.memo.get(X)
        if r is None:
            self.memo[X] = self.whole(X)
            r = self.memo[X] = self.tidy(self.norm1(X))
        return r

    def norm1(self, X):
        o = X.op
        L = self.L
        try:
            if o == "vset":
                p, q, r = self.cut1(X.a[0], X.a[1])
                return p + [self.entry(X.a[2])] + r
            if o == "vins":
                p, r = self.cut(X.a[0], X.a[1])
                return p + [self.entry(X.a[2])] + r
            if o == "vrem":
                p, q, r = self.cut1(X.a[0], X.a[1])
                return p + r
            if o == "vpush":
                return self.norm(X.a[0]) + [self.entry(X.a[1])]
            if o == "vext":
                return self.norm(X.a[0]) + self.norm(X.a[1])
            if o in ("vclone", "vcloned"):
                return self.norm(X.a[0])
            if o == "slice":
                for xs in (self.norm(X.a[0]), self.whole(X.a[0])):
                    try:
                        if X.a[2] != "end":
                            xs = self.split(xs, X.a[2])[0]
                        return self.split(xs, X.a[1])[1]
                    except Lost:
                        pass
                raise Lost()
            if o == "vresize":
                n = L.lin(X.a[1])
                if L.known(sub(L.length(X.a[0]), n)):
                    return self.cut(X.a[0], n)[0]
                raise Lost()
            if o == "vnew":
                return []
            if o == "arr":
                return [self.entry(x) for x in X.a]
            if o == "vrep" and X.a[1].op == "c" and X.a[1].a[0] <= 8:
                return [self.entry(X.a[0])] * X.a[1].a[0]
        except Lost:
            pass
        return self.whole(X)

    def tidy(self, atoms):
        L = self.L
        while True:
            out = []
            for a in atoms:
                if a[0] == "s":
                    a = ("s", a[1], L.red(a[2]), L.red(a[3]))
                    if a[2] is a[3]:
                        continue
                    if out and out[-1][0] == "s" and out[-1][1] is a[1] and out[-1][3] is a[2]:
                        out[-1] = ("s", a[1], out[-1][2], a[3])
                        continue
                out.append(a)
            # a list that is complete again is the list it was made of
            for i, a in enumerate(out):
                if a[0] == "s" and a[2] is c(0) and a[3] is L.length(a[1]):
                    r = self.memo.get(a[1]) or self.norm(a[1])
                    if r != [a]:
                        atoms = out[:i] + r + out[i + 1:]
                        break
            else:
                return out


def shows(atoms):
    return "[" + ", ".join(show(a[1], 3) if a[0] == "e" else "%s[%s..%s]" % (show(a[1], 3), show(a[2], 3), show(a[3], 3)) for a in atoms)[:300] + "]"


# ---------------------------------------------------------------------------------------------------- the operations
def adts_in(t, out=None, depth=0):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == "adt":
            out.add(t[1])
        for x in t:
            adts_in(x, out, depth + 1)
    return out


class Roles(object):
    """which functions read, write and free index nodes, and which change a tree"""

    def __init__(self, W):
        self.W = W
        p = W.p
        self.read, self.write, self.free = set(), set(), set()
        node = ("adt", W.NODE, ())
        for f in W.methods(W.VNC).values():
            ts = [f.lty[i + 1] for i in range(f.argc)]
            r = f.lty[0]
            if r[0] != "adt" or r[1] != RESULT:
                continue
            r = r[2][0]
            if r == node and len(ts) > 1 and ts[1][0] == "adt" and ts[1][1] == W.adt("Offset"):
                self.read.add(f.d)
            elif r == node and node in ts:
                self.write.add(f.d)
            elif node in ts:
                self.free.add(f.d)
        self.nodeio = self.read | self.write | self.free
        self.rec = {}
        for f in W.methods(W.INNER).values():
            ts = [f.lty[i + 1] for i in range(f.argc)]
            if f.d in p.rec and node in ts and f.lty[0][0] == "adt" and f.lty[0][1] == RESULT and reaches(W, f, self.write):
                if any(t[0] not in ("ref", "adt") or t[0] == "adt" and t != node for t in ts) or ts.count(node) != 1:
                    continue
                r = f.lty[0][2][0]
                parts = list(r[1]) if r[0] == "tuple" else [r]
                if node not in parts:
                    continue
                if any(t[0] == "adt" and t[1] == W.adt("Offset") for t in parts):
                    role = "max"
                elif any(t[0] == "ref" and t[2] == ("slice", ("other", "u8")) for t in ts):
                    role = "ins"
                else:
                    role = "del"
                self.rec[f.d] = (role, ts.index(node), parts, r[0] == "tuple")
        # what reads and writes files without touching nodes
        io = {f.d for f in W.p.fns.values() if f.self_ty and f.self_ty[0] == "adt" and f.self_ty[1] == W.adt("VarFile")}
        keep = {W.NODE, W.TREE}
        self.opaque = set()
        for f in W.p.fns.values():
            if f.kind == "Closure" or f.lty[0][0] != "adt" or f.lty[0][1] != RESULT or f.d in self.nodeio or f.d in self.rec:
                continue
            if reaches(W, f, self.nodeio) or not (f.d in io or reaches(W, f, io)):
                continue
            if keep & (adts_in(f.lty[0]) | set().union(*[adts_in(f.lty[i + 1]) for i in range(f.argc)])):
                continue
            self.opaque.add(f.d)
        self.roots = []
        for f in sorted(W.methods(W.INNER, "*").values(), key=lambda f: f.d):
            if f.d in self.rec:
                self.roots.append((self.rec[f.d][0], f))
            elif f.trait and f.trait.split("::")[-1] == "DbXxxObjectSafe" and reaches(W, f, set(self.rec)):
                self.roots.append(("top", f))


class Tree(object):
    def __init__(self, W, roles, role, fn):
        self.W, self.R, self.role, self.fn = W, roles, role, fn
        self.res = {}
        self.obl = {}
        self.ids = {}
        o = {"hook": {}, "rec": set(), "learn": self.learn}
        o.update(self.more())
        for d in roles.read:
            o["hook"][d] = self.h_read
        for d in roles.write:
            o["hook"][d] = self.h_write
        for d in roles.free:
            o["hook"][d] = self.h_free
        for d in roles.rec:
            o["hook"][d] = self.h_rec
        for d in roles.opaque:
            o["hook"][d] = self.h_opaque
        p = W.p
        tf = p.adts[W.TREE]["vs"][0]["f"]
        self.fields = {f["n"]: ("f", i, W.TREE, f["n"]) for i, f in enumerate(tf)}
        self.tys = {f["n"]: p.ty(f["t"]) for f in tf}
        off = W.adt("Offset")
        ve = [n for n, t in self.tys.items() if t[0] == "adt" and t[1].endswith("vec::Vec")]
        self.keys = [n for n in ve if "Key" in str(self.tys[n])][0]
        self.downs = [n for n in ve if n != self.keys and off in adts_in(self.tys[n])][0]
        self.place = [n for n, t in self.tys.items() if t[0] == "adt" and t[1] == off][0]
        self.psize = [n for n, t in self.tys.items() if t[0] == "adt" and t[1] == W.adt("Size")][0]
        bools = [n for n, t in self.tys.items() if t == ("other", "bool")]
        self.active = [n for n in bools if "active" in n][0]
        self.dirty = [n for n in bools if "dirty" in n][0]
        self.nf = ("f", 0, W.NODE, p.adts[W.NODE]["vs"][0]["f"][0]["n"])
        self.offv = ("f", 0, off, p.adts[off]["vs"][0]["f"][0]["n"])
        for d, h in self.hooks().items():
            o["hook"][d] = h
        self.eng = None
        args = []
        for i in range(fn.argc):
            args.append(mk("arg", fn.d, i, fn.lname[i + 1] or str(i)))
        self.node0 = None
        if role != "top":
            k = roles.rec[fn.d][1]
            self.node0 = mk("alloc", "given", fn.d)
            args[k] = mk("adt", W.NODE, 0, mk("ref", self.node0, ()))
        eng = self.eng = W.run("%s::%s" % (role, fn.name), fn, {}, self.step, frozenset(), self.setup, o, args=args)
        self.finish()

    def more(self):
        return {}

    def hooks(self):
        return {}

    def uid(self, *k):
        return self.ids.setdefault(k, len(self.ids))

    # ------------------------------------------------------------------------------------------------ nodes
    def fresh_node(self, eng, st, alloc, K, D, place, active=None):
        W = self.W
        v = mk("sym", "node", alloc)
        st.mem[alloc] = v
        self.put(eng, st, alloc, self.keys, K)
        self.put(eng, st, alloc, self.downs, D)
        self.put(eng, st, alloc, self.place, place)
        if active is not None:
            self.put(eng, st, alloc, self.active, active)
        return mk("adt", W.NODE, 0, mk("ref", alloc, ()))

    def put(self, eng, st, alloc, fl, v):
        eng.put(st, alloc, (self.fields[fl],), v)

    def getf(self, eng, st, alloc, fl, path=()):
        return eng.get(st, alloc, path + (self.fields[fl],))

    def at(self, eng, nd):
        r, q = eng.locof(eng.proj(nd, self.nf))
        return (r, q)

    def setup(self, eng, st, av):
        self.eng = eng
        if self.node0 is not None:
            K, D = mk("sym", "keys0"), mk("sym", "downs0")
            P = mk("sym", "place0")
            self.fresh_node(eng, st, self.node0, K, D, P, FALSE)
            st.trk = frozenset({("read", self.n(eng, P), K, D), ("handle", self.node0)})
            self.nonzero(eng, st, P)
        r, q = eng.locof(eng.inner)
        self.topat = None
        p = self.W.p
        for i, f in enumerate(p.adts[self.W.INNER]["vs"][0]["f"]):
            t = p.ty(f["t"])
            if t[0] == "adt" and t[1] == self.W.adt("IdxFile"):
                x = eng.get(st, r, q + (("f", i, self.W.INNER, f["n"]),))
                x = eng.proj(x, ("f", 0, t[1], p.adts[t[1]]["vs"][0]["f"][0]["n"]))
                r2, q2 = eng.locof(x)
                for j, g in enumerate(p.adts[self.W.VNC]["vs"][0]["f"]):
                    gt = p.ty(g["t"])
                    if gt[0] == "adt" and gt[1] == self.W.adt("Offset"):
                        self.topat = (r2, q2 + (("f", j, self.W.VNC, g["n"]),))
        self.top0 = self.n(eng, eng.get(st, *self.topat)) if self.topat else None

    def n(self, eng, off):
        return num(eng.proj(off, self.offv) if off.op != "adt" or True else off)

    def nonzero(self, eng, st, P):
        x = self.n(eng, P)
        st.facts[mk("op", "Eq", *sorted((x, c(0)), key=lambda t: t.id))] = 0

    def learn(self, eng, st, t, v):
        if st.trk is None or contains(t, lambda x: x.op == "phi"):
            return
        st.trk = st.trk | {("if", t, v)}

    def step(self, eng, st, n):
        pass

    # ------------------------------------------------------------------------------------------------ what is known
    def known(self, st):
        pairs = {}
        for y in st.trk:
            if y[0] in ("read", "pair") and y[-1].op == "sym" and y[-2].op == "sym":
                pairs[y[-1]] = y[-2]
        return Lin(st.facts, pairs)

    def same(self, st, a, b):
        return a is b or st.facts.get(mk("op", "Eq", a, b) if a.id <= b.id else mk("op", "Eq", b, a)) == 1

    def zero(self, st, x):
        if x is c(0) or x.op == "c" and x.a[0] == 0:
            return True
        return self.same(st, x, c(0)) or st.facts.get(mk("isc", x)) == 0

    def resolve(self, st, x):
        """what is kept at a place: ('stored'|'read', keys, children), ('left',), ('freed',) or None"""
        for k in ("stored",):
            for y in st.trk:
                if y[0] == k and self.same(st, x, y[1]):
                    return y[0], y[2], y[3]
        gone = {y[1]: y[0] for y in st.trk if y[0] in ("left", "freed")}
        if x in gone:
            return (gone[x],)
        for y in st.trk:
            if y[0] == "read" and self.same(st, x, y[1]) and y[1] not in gone:
                return y[0], y[2], y[3]
        return None

    def alias(self, st, x):
        """x and what is known to be the same place"""
        out = {x}
        for k, v in st.facts.items():
            if v == 1 and k.op == "op" and k.a[0] == "Eq" and (k.a[1] is x or k.a[2] is x):
                out |= {k.a[1], k.a[2]}
        return out

    def say(self, rule, site, good, text, eng=None, st=None):
        self.obl[rule] = self.obl.get(rule, 0) + 1
        k = (rule, site)
        if k not in self.res or self.res[k][0] and not good:
            n = eng.nodes[max(st.last)] if eng is not None and st.last else None
            self.res[k] = (good, text, n)

    def site(self, ctx, t):
        x = ctx
        while x is not None and x.fn.kind == "Closure":
            x = x.parent
        return short((x or ctx).fn.d)

    # ------------------------------------------------------------------------------------------------ hooks
    def fail(self, eng, st, ctx, site, f, t):
        s2 = st.fork()
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site, "nodeerr", f.name, (), res=e, sp=t["sp"])
        s2.trk = frozenset({("failed",)})
        return (err(e), s2)

    def h_opaque(self, eng, st, ctx, site, f, sub, args, t):
        f2 = self.fail(eng, st, ctx, site, f, t)
        v = mk("sym", "val", self.uid(ctx, site))
        eng.event(st, ctx, site, "opaque", f.name, (), res=v, sp=t["sp"])
        for a in args:
            for y in subterms(a):
                if y.op == "elem" or y.op == "sym":
                    st.trk = st.trk | {("gave", y)}
        st.trk = st.trk | {("val", v) + tuple(eng.pv(st, a) for a in args[1:2])}
        return [(ok(v), st), f2]

    def h_read(self, eng, st, ctx, site, f, sub, args, t):
        x = self.n(eng, args[1])
        bad = self.fail(eng, st, ctx, site, f, t)
        r = self.resolve(st, x)
        eng.event(st, ctx, site, "noderead", f.name, (x,), sp=t["sp"])
        self.say("P05.linked", "read:" + self.site(ctx, t), r is None or len(r) > 1,
                 "reads an index node at a place that the node has left or that was given back", eng, st)
        al = mk("alloc", "rd", self.uid(ctx, site))
        if r is None or len(r) == 1:
            K, D = mk("sym", "keys", x), mk("sym", "downs", x)
            st.trk = st.trk | {("read", x, K, D)}
        else:
            K, D = r[1], r[2]
        nd = self.fresh_node(eng, st, al, K, D, args[1], FALSE)
        st.trk = st.trk | {("handle", al)}
        return [(ok(nd), st), bad]

    def content(self, eng, st, nd):
        r, q = self.at(eng, nd)
        g = lambda fl: self.getf(eng, st, r, fl, q)
        return r, q, g(self.keys), g(self.downs), self.n(eng, g(self.place))

    def leave(self, st, x):
        """the node at x goes somewhere else"""
        st.trk = frozenset(y for y in st.trk if not (y[0] == "stored" and self.same(st, y[1], x)))
        if not self.zero(st, x):
            st.trk = st.trk | {("left", y) for y in self.alias(st, x)}

    def stale(self, eng, st, x, but):
        """other handles of the node that was at x are out of date"""
        st.trk = frozenset(y for y in st.trk if not (y[0] == "handle" and y[1] is not but and self.same(st, self.n(eng, self.getf(eng, st, y[1], self.place)), x)))

    def pair(self, eng, st, K, D, site, what):
        L = self.known(st)
        if L.dead:
            return
        d = L.red(sub(L.length(D), L.length(K)))
        self.say("P06.pair", site, d is c(1), "%s with %s keys and %s children" % (what, show(L.length(K), 3), show(L.length(D), 3)), eng, st)

    def h_write(self, eng, st, ctx, site, f, sub, args, t):
        k = [i for i in range(f.argc) if f.lty[i + 1] == ("adt", self.W.NODE, ())][0]
        news = [a for i, a in enumerate(args) if f.lty[i + 1] == ("other", "bool")]
        nd = args[k]
        bad = self.fail(eng, st, ctx, site, f, t)
        r, q, K, D, x = self.content(eng, st, nd)
        eng.event(st, ctx, site, "nodewrite", f.name, (x, K, D), sp=t["sp"])
        w = self.site(ctx, t)
        self.pair(eng, st, K, D, "write:" + w, "an index node is handed to the writer")
        old = self.resolve(st, x)
        self.say("P05.place", "write:" + w, not self.zero(st, x), "an index node is handed to the writer without a place", eng, st)
        if not any(n is TRUE for n in news):
            self.say("P05.linked", "write:" + w, old is not None and len(old) > 1,
                     "an index node is written back to a place that it has left or that was given back", eng, st)
        same = old is not None and len(old) > 1 and old[1] is K and old[2] is D
        dirty = self.getf(eng, st, r, self.dirty, q)
        self.say("P05.flag", "write:" + w, same or dirty is TRUE or eng.truth(st, dirty) is True,
                 "a changed index node is handed to the writer without its dirty mark: it would not be stored", eng, st)
        self.leave(st, x)
        self.stale(eng, st, x, r)
        P = mk("sym", "place", self.uid(ctx, site))
        eng.put(st, r, q + (self.fields[self.place],), P)
        eng.put(st, r, q + (self.fields[self.psize],), mk("sym", "size", self.uid(ctx, site)))
        eng.put(st, r, q + (self.fields[self.dirty],), mk("sym", "dirty", self.uid(ctx, site)))
        self.nonzero(eng, st, P)
        st.trk = st.trk | {("stored", self.n(eng, P), K, D), ("handle", r) if not q else ("other",)}
        return [(ok(nd), st), bad]

    def h_free(self, eng, st, ctx, site, f, sub, args, t):
        k = [i for i in range(f.argc) if f.lty[i + 1] == ("adt", self.W.NODE, ())][0]
        bad = self.fail(eng, st, ctx, site, f, t)
        r, q, K, D, x = self.content(eng, st, args[k])
        eng.event(st, ctx, site, "nodefree", f.name, (x,), sp=t["sp"])
        old = self.resolve(st, x)
        self.say("P05.linked", "free:" + self.site(ctx, t), old is not None and len(old) > 1, "gives back an index node's place that the node has left or that was given back before", eng, st)
        st.trk = frozenset(y for y in st.trk if not (y[0] == "stored" and self.same(st, y[1], x))) | {("freed", y) for y in self.alias(st, x)}
        return [(ok(eng.fresh(st, ctx, site, "fsz")), st), bad]

    def h_rec(self, eng, st, ctx, site, f, sub, args, t):
        role, k, parts, tup = self.R.rec[f.d]
        bad = self.fail(eng, st, ctx, site, f, t)
        r, q, K, D, x = self.content(eng, st, args[k])
        eng.event(st, ctx, site, "noderec", f.name, (x,), sp=t["sp"])
        w = self.site(ctx, t)
        old = self.resolve(st, x)
        self.say("P05.stored", "rec:" + w, old is not None and len(old) > 1 and old[1] is K and old[2] is D,
                 "a node that differs from what is stored is handed on to %s" % f.name, eng, st)
        self.leave(st, x)
        self.stale(eng, st, x, None)
        out = [bad]
        for act in (FALSE, TRUE) if role == "ins" else (FALSE,):
            s = st.fork()
            al = mk("alloc", "rc", self.uid(ctx, site, act))
            S = lambda n: mk("sym", n, self.uid(ctx, site, act))
            if act is TRUE:
                K2, D2 = mk("arr", S("akey")), mk("arr", S("adown0"), S("adown1"))
                P = mk("adt", self.W.adt("Offset"), 0, c(0), UNIT)
            else:
                K2, D2, P = S("rkeys"), S("rdowns"), S("rplace")
            nd = self.fresh_node(eng, s, al, K2, D2, P, act)
            if act is TRUE:
                self.put(eng, s, al, self.dirty, TRUE)
            g = {("handle", al), ("rec", role, K, D, K2, D2)}
            vals = []
            for pt in parts:
                if pt == ("adt", self.W.NODE, ()):
                    vals.append(nd)
                else:
                    v = S("rval%d" % len(vals))
                    vals.append(v)
                    if pt[0] == "adt" and pt[1] == self.W.adt("Offset"):
                        g = {("handle", al), ("rec", role, K, D, mk("vpush", K2, v), mk("vpush", D2, mk("adt", self.W.adt("Offset"), 0, c(0), UNIT)))}
            s.trk = s.trk | g
            if act is FALSE:
                self.nonzero(eng, s, P)
                s.trk = s.trk | {("stored", self.n(eng, P), K2, D2)}
            s.trk = s.trk | {("if", mk("sym", "act", self.uid(ctx, site)), act)}
            if act is FALSE:
                s.trk |= {("pair", K2, D2)}
            out.append((ok(mk("tup", *vals) if tup else vals[0]), s))
        return out

    # ------------------------------------------------------------------------------------------------ the end
    def offnum(self, t):
        return t if t.op == "c" else num(self.eng.proj(t, self.offv))

    def spots(self, st):
        """places that are entries of lists and have something to do with the nodes of this operation"""
        out = set()
        for y in st.trk:
            if y[0] in ("read", "stored", "left", "freed"):
                out.add(y[1])
        for k, v in st.facts.items():
            if k.op == "op" and k.a[0] == "Eq" and v == 1:
                out |= {k.a[1], k.a[2]}
        return [x for x in out if x.op == "fld" and x.a[0].op == "elem"]

    def flatten(self, st, Ls, K, D, resolve, seen):
        L = Ls.L
        AK, AD = Ls.norm(K), Ls.norm(D)
        spots = {}
        for x in self.spots(st):
            spots.setdefault(Ls.entry(x.a[0]), []).append(x)
        for _ in range(60):
            AK, AD = Ls.tidy(AK), Ls.tidy(AD)
            hit = None
            for i, a in enumerate(AD):
                if a[0] == "e":
                    x = self.offnum(a[1])
                    r = resolve([x] + spots.get(a, []))
                    if r is not None:
                        hit = (i, a, c(0), c(1), r, x)
                        break
                    continue
                for q, xs in spots.items():
                    if q[0] != "s" or q[1] is not a[1]:
                        continue
                    lo, hi = L.red(sub(q[2], a[2])), L.red(sub(a[3], q[3]))
                    whole = a[2] is c(0) and a[3] is L.length(a[1])
                    neg = lambda d: L.known(add(mul(d, c(-1)), c(-1)))
                    if not whole:
                        if neg(lo) or neg(hi):
                            continue
                        if not L.known(lo) and not L.known(hi):
                            raise Lost()
                    r = resolve(xs)
                    if r is not None:
                        hit = (i, a, lo, None, r, q)
                        break
                if hit:
                    break
            if not hit:
                return AK, AD
            i, a, lo, one, r, x = hit
            if a[0] == "s":
                p, q = Ls.split([a], lo)
                m, q = Ls.split(q, c(1))
                before, after = AD[:i] + p, q + AD[i + 1:]
            else:
                before, after = AD[:i], AD[i + 1:]
            if r[0] is None:
                AD = before + [r[1]] + after
                continue
            K1, D1 = r
            if x in seen:
                raise Lost()
            seen.add(x)
            k1, k2 = Ls.split(AK, Ls.size(before))
            AK = k1 + Ls.norm(K1) + k2
            AD = before + Ls.norm(D1) + after
        raise Lost()

    def diff(self, Ls, a, b):
        """what is left of two lists without what they start and end with"""
        L = Ls.L
        a, b = list(a), list(b)
        whole = lambda x, hi: hi is L.length(x[1])
        pre = c(0)
        while a and b:
            x, y = a[0], b[0]
            if x[0] != y[0] or x[1] is not y[1]:
                break
            if x[0] == "e":
                a, b = a[1:], b[1:]
                pre = add(pre, c(1))
                continue
            if x[2] is not y[2]:
                break
            if x[3] is y[3]:
                m = x[3]
            elif whole(x, x[3]) or L.known(sub(x[3], y[3])):
                m = y[3]
            elif whole(y, y[3]) or L.known(sub(y[3], x[3])):
                m = x[3]
            else:
                break
            pre = add(pre, sub(m, x[2]))
            a = ([("s", x[1], m, x[3])] if m is not x[3] else []) + a[1:]
            b = ([("s", y[1], m, y[3])] if m is not y[3] else []) + b[1:]
        while a and b:
            x, y = a[-1], b[-1]
            if x[0] != y[0] or x[1] is not y[1]:
                break
            if x[0] == "e":
                a, b = a[:-1], b[:-1]
                continue
            if x[3] is not y[3]:
                break
            if x[2] is y[2]:
                m = x[2]
            elif x[2] is c(0) or L.known(sub(y[2], x[2])):
                m = y[2]
            elif y[2] is c(0) or L.known(sub(x[2], y[2])):
                m = x[2]
            else:
                break
            a = a[:-1] + ([("s", x[1], x[2], m)] if m is not x[2] else [])
            b = b[:-1] + ([("s", y[1], y[2], m)] if m is not y[2] else [])
        return L.red(pre), a, b

    def zeros(self, Ls, st, atoms):
        """the number of entries when all are known to be 0"""
        n = 0
        for a in atoms:
            if a[0] == "e":
                if not self.zero(st, self.offnum(a[1])):
                    return None
                n += 1
                continue
            d = Ls.L.red(sub(a[3], a[2]))
            if d is not c(1):
                return None
            if not any(k.op == "op" and k.a[0] == "Eq" and v == 1 and c(0) in k.a and self.entry_of(Ls, k) == a for k, v in st.facts.items()):
                return None
            n += 1
        return n

    def entry_of(self, Ls, k):
        x = k.a[2] if k.a[1] is c(0) else k.a[1]
        if x.op == "fld" and x.a[0].op == "elem":
            return Ls.entry(x.a[0])
        return None

    def result(self, v):
        """(node, other parts) of the value of a success"""
        role, k, parts, tup = self.R.rec[self.fn.d]
        vs = [self.eng.proj(v, ("f", i, "", str(i))) for i in range(len(parts))] if tup else [v]
        nd = [x for x, pt in zip(vs, parts) if pt == ("adt", self.W.NODE, ())][0]
        key = [x for x, pt in zip(vs, parts) if pt[0] == "adt" and pt[1] == self.W.adt("Offset")]
        return nd, (key[0] if key else None)

    def finish(self):
        self.count = 0
        for r, st in self.eng.exits:
            v = self.eng.variant(st, r)
            if v == 1 or ("failed",) in st.trk:
                continue
            L = self.known(st)
            if L.dead:
                continue
            if self.twice(st, Lists(L)):
                continue
            self.count += 1
            self.exit(st, L, self.eng.payload(r, 0))

    def twice(self, st, Ls):
        """the path holds only if one key record is linked from two entries of the tree"""
        lists = {y[2] for y in st.trk if y[0] == "read"} | {y[1] for y in st.trk if y[0] == "pair"}
        vals = {y[4].a[1] for y in st.trk if y[0] == "rec" and y[1] == "max"}

        def entry(x):
            if x.op != "fld":
                return None
            if x.a[0] in vals:
                return ("e", x.a[0])
            if x.a[0].op == "elem":
                q = Ls.entry(x.a[0])
                if q[0] == "s" and q[1] in lists or q[0] == "e" and q[1] in vals:
                    return q
            return None
        for k, v in st.facts.items():
            if v == 1 and k.op == "op" and k.a[0] == "Eq":
                a, b = entry(k.a[1]), entry(k.a[2])
                if a is not None and b is not None and a != b:
                    return True
        return False

    def exit(self, st, L, v):
        eng = self.eng
        Ls = Lists(L)
        w = self.role + ":" + short(self.fn.d)
        # what was changed is stored
        for y in st.trk:
            if y[0] != "handle":
                continue
            g = lambda fl: self.getf(eng, st, y[1], fl)
            if eng.truth(st, g(self.active)) is True:
                continue
            x = self.n(eng, g(self.place))
            r = self.resolve(st, x)
            if r is None or len(r) == 1:
                continue
            K, D = g(self.keys), g(self.downs)
            good = r[1] is K and r[2] is D or Ls.norm(r[1]) == Ls.norm(K) and Ls.norm(r[2]) == Ls.norm(D)
            self.say("P05.stored", w, good, "ends with success where a node was changed and not handed to the writer afterwards", eng, st)
        reads = {y[1]: (y[2], y[3]) for y in st.trk if y[0] == "read"}
        recs = {(y[2], y[3]): (y[4], y[5], y[1]) for y in st.trk if y[0] == "rec"}
        used = set()

        def old(xs):
            for x in xs:
                r = reads.get(x)
                if r is not None:
                    z = recs.get(r)
                    if z:
                        used.add(r)
                        return z[:2]
                    return r
            return None

        later = {y[2] for y in st.trk if y[0] == "pair"}
        reached = set()

        class Stale(Exception):
            pass

        def new(xs):
            if any(self.zero(st, x) for x in xs):
                return None
            rs = [self.resolve(st, x) for x in xs]
            for r in rs:
                if r is not None and len(r) > 1:
                    reached.add(r[1:])
                    return r[1:]
            gone = [r[0] for r in rs if r is not None]
            if gone:
                # the place may have become that of another node
                for k, v in st.facts.items():
                    if v == 1 and k.op == "op" and k.a[0] == "Eq" and (k.a[1] in xs or k.a[2] in xs):
                        y = k.a[2] if k.a[1] in xs else k.a[1]
                        if y.op != "fld" or any(z[0] in ("left", "freed") and z[1] is y for z in st.trk):
                            continue
                        q = Ls.entry(y.a[0])
                        if q[0] == "e" or q[1] in later:
                            r = self.resolve(st, y)
                            if r is None:
                                return None, q
                            if len(r) > 1:
                                reached.add(r[1:])
                                return r[1:]
                raise Stale(gone[0])
            return None
        key = None
        if self.role == "top":
            T = self.n(eng, eng.get(st, *self.topat))
            n0 = old([self.top0])
            try:
                n1 = new([T])
            except Stale as e:
                self.say("P05.root", w, False, "ends with success where the index header still leads to a root that %s" % ("was given back" if str(e) == "freed" else "has been moved or replaced"), eng, st)
                return
            self.say("P05.root", w, True, "the index header leads to the current root", eng, st)
            if n1 is None or n0 is None:
                good = self.same(st, T, self.top0) and not used
                self.say("P05.root", w, good, "ends with success where the index header leads to a place that holds no root", eng, st)
                return
        else:
            K0, D0, = [y[2:] for y in st.trk if y[0] == "read" and y[1] is self.n(eng, mk("sym", "place0"))][0]
            n0 = (K0, D0)
            nd, key = self.result(v)
            r, q, K, D, x = self.content(eng, st, nd)
            n1 = (K, D)
            act = eng.truth(st, eng.get(st, r, q + (self.fields[self.active],)))
            if act is True or self.zero(st, x):
                self.say("P05.place", w, self.role == "ins" and act is True, "answers an index node that has no place", eng, st)
                self.pair(eng, st, K, D, w, "answers a new node")
                L1, L2 = L.length(K), L.length(D)
                self.say("P06.active", w, L1 is c(1) and L2 is c(2), "answers a node to be linked above with %s keys and %s children" % (show(L1, 3), show(L2, 3)), eng, st)
            else:
                z = self.resolve(st, x)
                self.say("P05.stored", w + ":answer", z is not None and len(z) > 1, "answers a node whose place it has left or that was given back", eng, st)
        try:
            so, sn = set(), set()
            ok_, od = self.flatten(st, Ls, n0[0], n0[1], old, so)
            try:
                nk, nd_ = self.flatten(st, Ls, n1[0], n1[1], new, sn)
            except Stale as e:
                self.say("P05.linked", w, False, "ends with success where a child slot still leads to a node that %s" % ("was given back" if str(e) == "freed" else "has moved"), eng, st)
                return
            self.leaks(st, w, reached | {n1})
            self.say("P05.linked", w, True, "every child slot leads to the current place of its node", eng, st)
            if key is not None:
                nk, nd_ = Ls.tidy(nk + [Ls.entry(key)]), Ls.tidy(nd_ + [("e", c(0))])
        except Lost:
            self.say("P06.keep", w, False, "moves entries between nodes in a way that cannot be followed", eng, st)
            return
        pk, a, b = self.diff(Ls, ok_, nk)
        pd, d, e = self.diff(Ls, od, nd_)
        self.judge(st, Ls, w, pk, a, b, pd, d, e, recs, used)

    def leaks(self, st, w, reached):
        """every node that the operation had in hands is in the tree, or its place was given back"""
        out = []
        for y in sorted((y for y in st.trk if y[0] in ("read", "stored")), key=lambda y: show(y[1], 4)):
            r = self.resolve(st, y[1])
            if r is None or len(r) == 1 or r[1:] in reached:
                continue
            out.append(y)
        self.say("P28.leak", w, not out, "ends with success where a node is neither linked in the tree nor was given back (%s)" % ", ".join("%s at %s" % (y[0], show(y[1], 3)) for y in out), self.eng, st)

    def judge(self, st, Ls, w, pk, a, b, pd, d, e, recs, used):
        L = Ls.L
        eng = self.eng
        if len(a) == 1 and len(b) == 1 and self.number(a[0]) is not None and self.number(b[0]) is not None and self.same(st, self.number(a[0]), self.number(b[0])):
            a, b = [], []
        na, nb, nd, ne = [Ls.size(x) for x in (a, b, d, e)]
        zd, ze = self.zeros(Ls, st, d), self.zeros(Ls, st, e)
        kids = not d and not e or zd is not None and zd == ze
        one, two, no = c(1), c(2), c(0)
        inner = {r for r in used if recs[r][2] in ("ins", "del")}
        text = "keys %s became %s, children %s became %s" % (shows(a), shows(b), shows(d), shows(e))
        unused = [r for r in recs if r not in used]
        self.say("P06.keep", w + ":sub", not unused, "ends with success where the changed part of the tree is not linked", eng, st)
        self.say("P05.slot", w + ":sub", not unused, "ends with success where the changed part of the tree is not linked", eng, st)
        if not a and not b and kids:
            self.say("P06.keep", w, True, "all keys and children kept", eng, st)
            self.say("P05.slot", w, True, "all children kept in their slots", eng, st)
            return
        slots = lambda good: self.say("P05.slot", w, good, "ends with success where children got lost, doubled or out of their slots: children %s became %s" % (shows(d), shows(e)), eng, st)
        if inner or self.role in ("top", "max"):
            slots(kids)
            self.say("P06.keep", w, False, "ends with success where entries got lost, doubled or out of place: " + text, eng, st)
            return
        near = lambda p, q: L.red(sub(p, q)) in (c(0), c(1), c(-1))
        good, where = False, None
        if self.role == "ins":
            fresh = nb is one and b[0][0] == "e" and b[0][1].op != "c"
            empty = self.zero(st, Ls.L.length(mk("sym", "keys0"))) or L.length(mk("sym", "keys0")) is no
            if na is no and fresh and near(pk, pd) and ze is not None:
                if zd is not None and ze == zd + 1:
                    good, where = True, (1, pk)
                elif empty and nd is one and ze == 2:
                    good = True
            elif na is one and fresh and kids and a[0][0] == "s":
                good, where = self.gave(Ls, st, a[0]), (0, pk)
        elif self.role == "del":
            if na is one and nb is no and a[0][0] == "s" and zd is not None and ze is not None and zd == ze + 1 and near(pk, pd):
                good, where = self.gave(Ls, st, a[0]), (0, a[0][2])
        slots(good or kids)
        self.say("P06.keep", w, good, "ends with success where entries got lost, doubled or out of place: " + text, eng, st)

    def number(self, a):
        """the number kept in an entry"""
        if a[0] == "e":
            return self.offnum(a[1])
        if sub(a[3], a[2]) is c(1):
            return num(self.eng.proj(mk("elem", a[1], a[2]), self.offv))
        return None

    def gave(self, Ls, st, atom):
        return any(y[0] == "gave" and y[1].op == "elem" and Ls.entry(y[1]) == atom for y in st.trk)


def trees(W):
    if not hasattr(W, "_trees"):
        R = Roles(W)
        W._trees = R, [Tree(W, R, role, f) for role, f in R.roots]
    return W._trees


def report(W, R, pid):
    roles, ts = trees(W)
    R.rule("functions", "the functions that read, write and free index nodes, and the recursive ones that change the tree, are found")
    R.floor(pid + ".functions", len(roles.read), 1, "functions that read an index node")
    R.floor(pid + ".functions", len(roles.write), 1, "functions that write an index node")
    R.floor(pid + ".functions", len(roles.free), 1, "functions that give an index node back")
    R.floor(pid + ".functions", len({r for r, f in roles.roots}), 4, "kinds of tree operation (put and delete, and their recursive steps)")
    for t in ts:
        R.floor(pid + ".paths", t.count, 1, "ways to success of " + t.fn.name)
        for (rule, site), (good, text, n) in sorted(t.res.items(), key=lambda kv: kv[0]):
            if rule.startswith(pid):
                R.check(good, rule, t.role + ":" + site, "%s: %s" % (t.fn.name, text), n, t.eng)


def P05(W, R):
    R.rule("P05.stored", "at every success exit each node's keys and children are those last handed to the writer")
    R.rule("P05.linked", "no node is read, written, freed or linked at a place it has left or that was given back")
    R.rule("P05.slot", "the children of the tree, read in order, are at every success exit those at the start: each is linked in the slot that led to it or in the one that took its place")
    R.rule("P05.place", "no node is handed to the writer without a place, and only a new node to be linked above may be answered without one")
    R.rule("P05.flag", "a changed node carries its dirty mark when it is handed to the writer")
    R.rule("P05.root", "after put and delete the place of the root kept for the header is the current one")
    report(W, R, "P05")


def P06(W, R):
    R.rule("P06.pair", "a node has one more child than keys when it is handed to the writer")
    R.rule("P06.keep", "in-order keys and children at every success exit are those at the start, but for the one key the operation is about")
    R.rule("P06.active", "a node to be linked above has one key and two children")
    report(W, R, "P06")
