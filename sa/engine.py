"""Interprocedural value-numbering dataflow over MIR.

The analyser propagates, over the control-flow graph with all non-recursive callees
inlined, an abstract state (memory as hash-consed value terms, branch facts, live borrow
guards, control frontier).  States that reach one block are merged (phi terms) unless the
known variants/booleans of live locals differ.  It produces an event graph: nodes are
effects (file I/O, borrows, recursive calls, returns), edges are possible orders.
"""
import heapq
import itertools
from terms import *
from prog import Prog


class Budget(Exception):
    pass


class Ctx(object):
    __slots__ = ("id", "parent", "fn", "sub", "csite", "depth", "locs", "subkey")

    def stack(self):
        o = []
        x = self
        while x is not None:
            o.append((x.fn.d, x.csite))
            x = x.parent
        return o

    def fnames(self):
        o = []
        x = self
        while x is not None:
            o.append(x.fn.name)
            x = x.parent
        return o


class Node(object):
    __slots__ = ("id", "kind", "name", "args", "res", "file", "ctx", "sp", "succ", "pred", "x", "facts", "key")

    def __repr__(self):
        return "<%d %s %s %s @%s>" % (self.id, self.kind, self.name, self.args, self.sp)


class St(object):
    __slots__ = ("mem", "facts", "last", "bor", "issued", "epoch", "trk")

    def fork(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.last = self.last
        s.bor = self.bor
        s.issued = self.issued
        s.epoch = self.epoch
        s.trk = self.trk
        return s


def is_opaque_enum(t):
    return t.op not in ("adt", "c")


class Engine(object):
    def __init__(self, prog, opaque=None, models=None, on_event=None, opts=None):
        self.p = prog
        self.opaque = opaque or (lambda d, tr: False)
        import models as M
        self.M = M
        self.models = M.TABLE
        self.on_event = on_event
        self.opts = opts or {}
        self.track = self.opts.get("track")
        self.rawev = self.opts.get("unchecked", False)
        self.gty = {}
        self.nodes = []
        self.nodekey = {}
        self._ctx = {}
        self.ctxs = []
        self.phiops = {}
        self.rows = {}
        self.jold, self.jnew, self.jfacts = {}, {}, ()
        self.joincalls = self.opts.get("joincalls", ())     # functions of which two results are joined argument by argument
        self.refjoin = self.opts.get("refjoin", False)      # two references into one list are one reference to a joined index
        self.ghostsame = self.opts.get("ghostsame", ())
        self.relfacts = self.opts.get("relfacts", ())
        self.meets = {} if self.opts.get("meets") else None    # join -> [({phi: value}, facts on that side)]
        self.relghost = (opts or {}).get("relghost")
        self.mp = {}
        self.steps = 0
        self.budget = self.opts.get("budget", 3000000)
        self.fn_seen = set()
        self.call_count = 0
        self.unknown_ext = {}
        self.fnc = {}
        self.roots_rec = set(self.opts.get("rec", prog.rec))
        self._mods = {}
        self.subtab = {}
        self.tytab = {}
        self.edge_die = {}
        self.consts_seen = {}
        self.visits = {}
        self.mergers = 0

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, fn, sub, site):
        k = (parent.id if parent else -1, fn.d, getattr(fn, "promoted", None), site)
        x = self._ctx.get(k)
        if x is None:
            x = Ctx()
            x.id = len(self.ctxs)
            x.parent = parent
            x.fn = fn
            x.sub = sub
            x.csite = site
            x.depth = parent.depth + 1 if parent else 0
            x.locs = {}
            x.subkey = None
            self.ctxs.append(x)
            self._ctx[k] = x
            self.fn_seen.add(fn.d)
        x.sub = sub
        return x

    def subkey(self, sub):
        k = tuple(sorted(sub.items()))
        t = mk("sub", k)
        self.subtab[t] = sub
        return t

    def loc(self, ctx, i):
        r = ctx.locs.get(i)
        if r is None:
            r = mk("loc", ctx.id, i)
            ctx.locs[i] = r
        return r

    # ------------------------------------------------------------ memory
    def default(self, st, root):
        if root.op == "loc" or root.op == "alloc":
            return mk("uninit", root)
        if root.op == "cptr":
            return root.a[0]
        v = mk("deref", root)
        if st.epoch is not None:
            v = self.hv(v, st.epoch)
        return v

    def get(self, st, root, path=()):
        v = st.mem.get(root)
        if v is None:
            v = self.default(st, root)
        for e in path:
            v = self.proj(v, e)
        return v

    def default_at(self, st, root, path):
        """value a place had at entry"""
        v = self.default(st, root)
        for e in path:
            v = self.proj(v, e)
        return v

    def locof(self, p):
        while p.op in ("gd", "dynref"):
            p = p.a[0]
        if p.op == "ref":
            return p.a[0], p.a[1]
        return p, ()

    def mkref(self, root, path):
        if not path and root.op not in ("loc", "alloc"):
            return root
        return mk("ref", root, path)

    def load(self, st, p):
        r, q = self.locof(p)
        return self.get(st, r, q)

    def put(self, st, root, path, v):
        if root.op == "phi" and root in self.phiops:
            # weak update of every pointer merged here
            for o in self.phiops[root]:
                if o.op == "ref":
                    r, q = o.a
                    cur = self.get(st, r, q + path)
                    self.put(st, r, q + path, mk("weak", cur, v) if cur is not v else v)
        if path:
            cur = st.mem.get(root)
            if cur is None:
                cur = self.default(st, root)
            v = self.upd(cur, path, v)
        st.mem[root] = v

    def store(self, st, p, v):
        r, q = self.locof(p)
        self.put(st, r, q, v)

    def places(self, root, path):
        """the places that a write there may reach"""
        if root.op == "phi" and root in self.phiops:
            return [(o.a[0], o.a[1] + path) for o in self.phiops[root] if o.op == "ref"]
        return [(root, path)]

    def upd(self, cur, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "f":
            n = self.upd(self.proj(cur, e), path[1:], v)
            return self.setf(cur, e, n)
        if e[0] == "v":
            if cur.op == "adt":
                return self.upd(cur, path[1:], v)
            return self.upd(mk("as", cur, e[1]), path[1:], v)
        if e[0] == "i":
            n = self.upd(self.proj(cur, e), path[1:], v) if len(path) > 1 else v
            return vset(cur, e[1], n)
        if e[0] == "sl":
            n = self.upd(self.proj(cur, e), path[1:], v) if len(path) > 1 else v
            return mk("slset", cur, e[1], e[2], n)
        return mk("sym?", cur, v)

    def setf(self, cur, e, n):
        i = e[1]
        o = cur.op
        if o == "adt":
            a = list(cur.a)
            if 2 + i < len(a):
                a[2 + i] = n
                return mk("adt", *a)
        elif o == "tup":
            a = list(cur.a)
            if i < len(a):
                a[i] = n
                return mk("tup", *a)
        elif o == "clo":
            a = list(cur.a)
            a[2 + i] = n
            return mk("clo", *a)
        elif o == "obj":
            m = dict(cur.a[1])
            m[(i, e[3], e[2])] = n
            return mk("obj", cur.a[0], tuple(sorted(m.items(), key=lambda kv: (kv[0][0], kv[0][1]))))
        return mk("obj", cur, (((i, e[3], e[2]), n),))

    def proj(self, v, e):
        k = e[0]
        o = v.op
        if k == "f":
            i = e[1]
            if o == "adt":
                if 2 + i < len(v.a):
                    return v.a[2 + i]
            elif o == "tup":
                if i < len(v.a):
                    return v.a[i]
            elif o == "clo":
                if 2 + i < len(v.a):
                    return v.a[2 + i]
            elif o == "obj":
                for kk, x in v.a[1]:
                    if kk[0] == i and kk[1] == e[3]:
                        return x
                return self.proj(v.a[0], e)
            elif o == "hv":
                return self.proj_hv(v, e)
            elif o == "as" and v.a[0].op == "adt":
                return self.proj(v.a[0], e)
            elif o == "collres" and False:
                pass
            return mk("fld", v, i, e[3], e[2])
        if k == "v":
            if o == "adt":
                if v.a[1] == e[1]:
                    return v
                return mk("bottom", v.a[0], e[1])
            if o == "obj":
                # an enum whose payload was updated in place
                return v
            return mk("as", v, e[1])
        if k == "i":
            return elem(v, e[1])
        if k == "sl":
            if e[1].op == "c" and e[1].a[0] == 0 and e[2] is None:
                return v
            return mk("slice", v, e[1], e[2] if e[2] is not None else "end")
        return mk("sym?", v)

    # values after an opaque (recursive) call
    def hv(self, v, ep):
        o = v.op
        if o in ("c", "ref", "fn", "clo", "gd"):
            return v
        if o == "hv" and v.a[1] is ep:
            return v
        if o == "adt":
            d = v.a[0]
            if d not in self.p.adts:
                return mk("hv", v, ep)
            out = []
            vs = self.p.adts[d]["vs"]
            fs = vs[v.a[1]]["f"] if v.a[1] < len(vs) else []
            for i, x in enumerate(v.a[2:]):
                nm = fs[i]["n"] if i < len(fs) else str(i)
                out.append(self.hv_field(x, d, nm, i, ep, v))
            return mk("adt", d, v.a[1], *out)
        if o == "obj":
            base = self.hv(v.a[0], ep)
            ents = []
            for (i, nm, d), x in v.a[1]:
                ents.append(((i, nm, d), self.hv_field(x, d, nm, i, ep, v)))
            return mk("obj", base, tuple(ents))
        return mk("hv", v, ep)

    def hv_field(self, x, d, nm, i, ep, whole):
        M = self._epmods.get(ep, {})
        m = M.get((d, nm))
        if m is not None:
            if m != "top" and x.op == "c" and m == {x.a[0]}:
                return x
            return mk("fld", mk("hv", whole, ep), i, nm, d)
        if self.is_ptr_field(d, nm):
            return x
        if self.is_scalar_field(d, nm):
            return x
        return self.hv(x, ep)

    _epmods = {}

    def proj_hv(self, v, e):
        x = self.proj(v.a[0], e)
        return self.hv_field(x, e[2], e[3], e[1], v.a[1], v.a[0]) if (e[2], e[3]) not in self._epmods.get(v.a[1], {}) else self._hvf(v, e, x)

    def _hvf(self, v, e, x):
        m = self._epmods[v.a[1]][(e[2], e[3])]
        if m != "top" and x.op == "c" and m == {x.a[0]}:
            return x
        return mk("fld", v, e[1], e[3], e[2])

    def _fty(self, d, nm):
        a = self.p.adts.get(d)
        if a is None:
            return None
        for vv in a["vs"]:
            for f in vv["f"]:
                if f["n"] == nm:
                    return f["t"]
        return None

    def is_ptr_field(self, d, nm):
        t = self._fty(d, nm)
        if t is None:
            return False
        if t["k"] in ("ref", "ptr"):
            return True
        return t["k"] == "adt" and t["d"].startswith("alloc::rc") or (t["k"] == "adt" and ("::Rc" in t["d"] or "::Weak" in t["d"]))

    def is_scalar_field(self, d, nm):
        t = self._fty(d, nm)
        if t is None:
            return False
        return t["k"] == "other" or (t["k"] == "adt" and t["d"] not in self.p.adts)

    # ------------------------------------------------------------ facts
    def variant(self, st, t):
        """known variant index of an enum value, or None"""
        if t.op == "adt":
            return t.a[1]
        v = st.facts.get(mk("discr", t))
        if v is None:
            return None
        return v

    def truth(self, st, t):
        if t.op == "c":
            return bool(t.a[0])
        if t.op == "not":
            x = self.truth(st, t.a[0])
            return None if x is None else not x
        v = st.facts.get(t)
        if v is not None:
            return bool(v)
        if t.op == "op":
            if t.a[0] == "BitAnd":
                x = self.truth(st, t.a[1])
                y = self.truth(st, t.a[2])
                if x is False or y is False:
                    return False
                if x and y:
                    return True
            elif t.a[0] == "BitOr":
                x = self.truth(st, t.a[1])
                y = self.truth(st, t.a[2])
                if x or y:
                    return True
                if x is False and y is False:
                    return False
            elif t.a[0] == "Eq":
                # facts on strict order refute equality
                a, b = t.a[1], t.a[2]
                if st.facts.get(mk("op", "Lt", a, b)) == 1 or st.facts.get(mk("op", "Lt", b, a)) == 1:
                    return False
                # equality with a known-constant term
                if b.op == "c" or a.op == "c":
                    if a.op == "c":
                        a, b = b, a
                    k = st.facts.get(mk("isc", a))
                    if k is not None:
                        return k == b.a[0]
            elif t.a[0] == "Lt":
                a, b = t.a[1], t.a[2]
                if st.facts.get(mk("op", "Lt", b, a)) == 1:
                    return False
                if a.id <= b.id:
                    q = mk("op", "Eq", a, b)
                else:
                    q = mk("op", "Eq", b, a)
                if st.facts.get(q) == 1:
                    return False
        return None

    def assume(self, st, t, val):
        """add the fact t == val (bool); returns False when contradictory"""
        cur = self.truth(st, t)
        if cur is not None:
            return cur == val
        while t.op == "not":
            t = t.a[0]
            val = not val
        st.facts[t] = 1 if val else 0
        if self.opts.get("learn"):
            self.opts["learn"](self, st, t, val)
        if t.op == "op" and t.a[0] == "Eq" and val:
            a, b = t.a[1], t.a[2]
            if a.op == "c":
                a, b = b, a
            if b.op == "c":
                st.facts[mk("isc", a)] = b.a[0]
        if t.op == "op" and t.a[0] == "BitAnd" and val:
            self.assume(st, t.a[1], True)
            self.assume(st, t.a[2], True)
        if t.op == "op" and t.a[0] == "BitOr" and not val:
            self.assume(st, t.a[1], False)
            self.assume(st, t.a[2], False)
        return True

    def assume_variant(self, st, t, v):
        if t.op == "adt":
            return t.a[1] == v
        d = mk("discr", t)
        cur = st.facts.get(d)
        if cur is not None:
            return cur == v
        for o in st.facts.get(mk("notdiscr", t), ()):
            if o == v:
                return False
        st.facts[d] = v
        if self.opts.get("learn"):
            self.opts["learn"](self, st, d, v)
        return True

    def cases(self, st, t, n=2):
        """fork on the variant of enum value t: list of (variant, state)"""
        v = self.variant(st, t)
        if v is not None:
            return [(v, st)]
        if t.op == "phi":
            pass
        out = []
        for v in range(n):
            s = st.fork()
            if self.assume_variant(s, t, v):
                out.append((v, s))
        return out

    def payload(self, t, v, i=0, d=None):
        if t.op == "adt":
            return t.a[2 + i] if 2 + i < len(t.a) else mk("bottom", "p", v)
        return mk("fld", mk("as", t, v), i, str(i), d or "")

    # ------------------------------------------------------------ fresh values
    def fresh(self, st, ctx, site, tag):
        s = mk("sym", ctx.id, site, tag)
        if s in st.issued:
            self.rename_old(st, s)
        else:
            st.issued = st.issued | {s}
        return s

    def rename_old(self, st, s):
        m = {s: mk("old", s)}
        memo = {mk("old", s): mk("old", s)}
        mem = {}
        for k, v in st.mem.items():
            mem[subst(k, m, memo)] = subst(v, m, memo)
        st.mem = mem
        st.facts = {subst(k, m, memo): v for k, v in st.facts.items()}
        if st.bor:
            st.bor = frozenset(subst(k, m, memo) for k in st.bor)

    # ------------------------------------------------------------ events
    def event(self, st, ctx, site, kind, name, args=(), res=None, file=None, sp=None, x=None):
        k = (ctx.id, site, kind, name)
        n = self.nodekey.get(k)
        if n is None:
            n = Node()
            n.id = len(self.nodes)
            n.succ = set()
            n.pred = set()
            n.key = k
            n.x = {}
            self.nodes.append(n)
            self.nodekey[k] = n
        n.kind = kind
        n.name = name
        n.args = args
        n.res = res
        n.file = file
        n.ctx = ctx
        n.sp = sp
        n.facts = None
        if x:
            n.x.update(x)
        for l in st.last:
            self.nodes[l].succ.add(n.id)
            n.pred.add(l)
        st.last = frozenset((n.id,))
        if self.on_event:
            self.on_event(self, st, n)
        return n

    # ------------------------------------------------------------ merging
    def join(self, old, new, mpid):
        """merge new into old in place; returns changed"""
        ch = False
        om = old.mem
        nm = new.mem
        rel = None
        rows = self.rows.setdefault(mpid, [{}])
        rows.append({})
        self.jold, self.jnew, self.jfacts = {}, {}, ()      # what meets in this join: phi -> value on either side
        late, cong = [], []
        self.jcong = cong
        if self.relghost:
            rel = self.join_linear(old, new, mpid)
        for k, v in nm.items():
            o = om.get(k)
            if rel and k in rel:
                if rel[k] is not o:
                    om[k] = rel[k]
                    ch = True
                continue
            if o is v:
                continue
            if o is not None and (k.op == "ghost" and k.a[0] in self.ghostsame or self.relfacts and o.op in ("op", "not", "call") and o.op == v.op):
                late.append((k, o, v))
                continue
            if o is None:
                if k.op == "loc" or k.op == "alloc":
                    if k.op == "alloc":
                        om[k] = v
                        ch = True
                    continue
                o = self.default(old, k)
                if o is v:
                    om[k] = v
                    continue
            r = self.jv(o, v, mpid, k, ())
            if r is not om.get(k):
                om[k] = r
                ch = True
        for k in list(om.keys()):
            if k not in nm:
                if k.op == "loc":
                    del om[k]
                    ch = True
                elif k.op != "alloc":
                    o = om[k]
                    r = self.jv(o, self.default(new, k), mpid, k, ())
                    if r is not o:
                        om[k] = r
                        ch = True
        for k, o, v in late:
            # a place that is the same as a variable's on both sides stays the same as that variable
            r = None
            if not (o.op == "phi" and o.a[0] == mpid and o.a[1] is k):
                for ph, x in self.jold.items():
                    if x is o and self.jnew[ph] is v:
                        r = ph
                        break
            if r is None:
                r = self.congruent(o, v)
                if r is not None:
                    cong.append((r, o, v))
            if r is None:
                r = self.jv(o, v, mpid, k, ())
            if r is not om.get(k):
                om[k] = r
                ch = True
        of = old.facts
        nf = new.facts
        if self.meets is not None:
            for m, fa in ((self.jold, of), (self.jnew, nf)):
                m = {ph: x for ph, x in m.items() if ph is not x}
                if m:
                    self.meets.setdefault(mpid, []).append((m, dict(fa)))
        if self.relfacts and of is not nf:
            ch = self.join_facts(of, nf) or ch
        if of is not nf:
            for k in [k for k, v in of.items() if k.op in ("discr", "notdiscr") and nf.get(k) != v]:
                ch = self.join_variants(of, nf, k.a[0], k.a[0], k.a[0]) or ch
            for r, o, v in cong:
                ch = self.join_variants(of, nf, r, o, v) or ch
            rm = [k for k, v in of.items() if nf.get(k) != v and k not in self.jfacts]
            if rm:
                ch = True
                for k in rm:
                    del of[k]
        if not new.last <= old.last:
            old.last = old.last | new.last
            ch = True
        if not new.bor <= old.bor:
            old.bor = old.bor | new.bor
            ch = True
        if not new.issued <= old.issued:
            old.issued = old.issued | new.issued
        if new.epoch is not old.epoch:
            # an epoch that covers both
            parts = set()
            for e in (old.epoch, new.epoch):
                if e is not None:
                    parts |= set(e.a) if e.op == "epj" else {e}
            parts = sorted(parts, key=lambda x: x.id)
            e = parts[0] if len(parts) == 1 else mk("epj", *parts)
            if e is not old.epoch:
                if e.op == "epj":
                    md = {}
                    for x in e.a:
                        for kk, vv in self._epmods.get(x, {}).items():
                            md[kk] = vv if kk not in md else ("top" if "top" in (vv, md[kk]) else vv | md[kk])
                    self._epmods[e] = md
                old.epoch = e
                ch = True
        return ch

    def congruent(self, o, n):
        """the same question asked on both sides about what becomes one variable"""
        if o is n:
            return o
        for ph, x in self.jold.items():
            if x is o and self.jnew[ph] is n:
                return ph
        if o.op != n.op or o.op not in ("op", "not", "call", "deref") or len(o.a) != len(n.a):
            return None
        r = []
        for x, y in zip(o.a, n.a):
            if isinstance(x, T) and isinstance(y, T):
                x = self.congruent(x, y)
                if x is None:
                    return None
            elif x != y:
                return None
            r.append(x)
        if o.op == "op" and o.a[0] == "Eq" and r[1].id > r[2].id:
            r[1], r[2] = r[2], r[1]
        return mk(o.op, *r)

    def join_variants(self, of, nf, t, o, v):
        """which variants t, which is o on one side and v on the other, is on neither"""
        k = mk("notdiscr", t)

        def out(facts, t):
            d = facts.get(mk("discr", t))
            return {0, 1, 2} - {d} if d is not None else set(facts.get(mk("notdiscr", t), ()))
        x = tuple(sorted(out(of, o) & out(nf, v)))
        if x and x != (2,):
            self.jfacts = set(self.jfacts) | {k}
            if of.get(k) != x:
                of[k] = x
                return True
        return False

    def join_facts(self, of, nf):
        """relations that hold on both sides between what becomes one variable hold for the variable; relfacts may name,
        for a relation, a function that tells when the other facts imply it"""
        new = {}

        zero = c(0) if "eqz" in self.relfacts else None

        def holds(facts, k, v):
            if k in facts:
                return facts[k] == v
            if k.op == "op":
                x = k.a[2] if k.a[1] is zero else k.a[1]
                return x.op == "c" and (x.a[0] == 0) == bool(v)
            imp = self.relfacts[k.op]
            return imp is not None and imp(self, facts, k)

        def form(k, xs):
            if k.op != "op":
                return mk(k.op, *xs)
            x = xs[0]
            return mk("op", "Eq", x, zero) if x.id <= zero.id else mk("op", "Eq", zero, x)

        def cand(x, side, oside):
            """what x can become, with what that is on the other side"""
            r = [(x, x)] + [(ph, oside[ph]) for ph, y in side.items() if y is x]
            if isinstance(x, T) and x.op in ("fld", "elem"):
                for i in (0,) if x.op == "fld" else (0, 1):
                    y = x.a[i]
                    if isinstance(y, T) and y.op != "c":
                        for p, q in cand(y, side, oside):
                            if p is not y:
                                r.append((mk(x.op, *(x.a[:i] + (p,) + x.a[i + 1:])), mk(x.op, *(x.a[:i] + (q,) + x.a[i + 1:]))))
            return r
        for facts, side in ((nf, self.jnew), (of, self.jold)):
            other, oside = (of, self.jold) if facts is nf else (nf, self.jnew)
            for k, v in list(facts.items()):
                if k.op == "op" and zero is not None and k.a[0] == "Eq" and zero in k.a[1:]:
                    xs = [k.a[2] if k.a[1] is zero else k.a[1]]
                elif k.op in self.relfacts and v == 1:
                    xs = k.a
                else:
                    continue
                ch = [cand(x, side, oside) for x in xs]
                for combo in itertools.product(*ch):
                    r = form(k, [z[0] for z in combo])
                    if r not in new and holds(other, form(k, [z[1] for z in combo]), v):
                        new[r] = v
        for op in self.opts.get("relall", ()):
            for ph, y in self.jnew.items():
                r = mk(op, ph)
                if r not in new and isinstance(y, T) and isinstance(self.jold.get(ph), T) and holds(nf, mk(op, y), 1) and holds(of, mk(op, self.jold[ph]), 1):
                    new[r] = 1
        for r in self.opts.get("relnull", ()):
            if r not in new and holds(nf, r, 1) and holds(of, r, 1):
                new[r] = 1
        self.jfacts = set(new)
        ch = False
        for k, v in new.items():
            if of.get(k) != v:
                of[k] = v
                ch = True
        return ch

    def zeros(self, facts):
        """quantities known to be zero"""
        m = {}
        for k, v in facts.items():
            if v == 0 and k.op == "op" and k.a[0] == "Lt" and k.a[1] is c(0):
                m[k.a[2]] = c(0)
            elif v == 1 and k.op == "op" and k.a[0] == "Eq" and k.a[1] is c(0):
                m[k.a[2]] = c(0)
            elif v == 1 and k.op == "op" and k.a[0] == "Eq" and k.a[2] is c(0):
                m[k.a[1]] = c(0)
        return m

    def join_linear(self, old, new, mpid):
        """merge counted quantities: two states in which a quantity differs by a fixed multiple of what a counter differs by
        are one state in which it is that multiple of the counter"""
        om, nm = old.mem, new.mem
        out = {}
        cand = None
        zo = zn = None
        for k, v in nm.items():
            if k.op != "ghost" or k.a[0] != self.relghost:
                continue
            o = om.get(k)
            if o is None:
                continue
            own = [x for x in subterms(o) if x.op == "phi" and x.a[0] == mpid]
            if o is v and not own:
                continue
            if o is not v and not own:
                if zo is None:
                    zo, zn = self.zeros(old.facts), self.zeros(new.facts)
                if zo and subst(v, zo, {}) is o:
                    out[k] = v
                    continue
                if zn and subst(o, zn, {}) is v:
                    out[k] = o
                    continue
            if cand is None:
                cand = []
                for kk, y in nm.items():
                    x = om.get(kk)
                    if x is not None and x is not y and kk.op != "ghost":
                        self.leaves(x, y, mpid, kk, (), cand, False)
            r = None
            dd = sub(v, o)
            for x, y, ph, it in sorted(cand, key=lambda q: (q[2] not in own, not q[3], q[2].id)):
                cd = sub(y, x)
                if own and ph not in own and dd is not c(0):
                    continue
                s = ratio(dd, cd)
                if s is not None and (s or not own):
                    r = add(o, mul(c(s), sub(ph, x)))
                    break
                if s == 0 and ph in own:
                    break
            if own and o is v and not any(q[2] in own for q in cand):
                r = o
            if r is None:
                r = mk("phi", mpid, k, ())
                self.phiops.setdefault(r, set()).update(z for z in (o, v) if z is not r)
            out[k] = r
        return out

    def leaves(self, o, n, mpid, root, path, out, it):
        """positions at which two values differ, as jv merges them"""
        if o is n:
            return
        if o.op == n.op and o.op in ("adt", "tup", "clo", "it") and len(o.a) == len(n.a):
            k = {"adt": 2, "tup": 0, "clo": 2, "it": 1}[o.op]
            if o.a[:min(k, 2)] == n.a[:min(k, 2)] or o.op == "clo" and o.a[0] == n.a[0]:
                for i, (x, y) in enumerate(zip(o.a[k:], n.a[k:])):
                    if isinstance(x, T) and isinstance(y, T):
                        self.leaves(x, y, mpid, root, path + (i,), out, it or o.op == "it")
                return
        if o.op in ("obj", "ref", "fn", "it", "adt", "tup", "clo") or n.op in ("obj", "ref", "fn", "it", "adt", "tup", "clo"):
            return
        out.append((o, n, mk("phi", mpid, root, path), it))

    def jv(self, o, n, mpid, root, path):
        if o is n:
            return o
        if o.op == "phi" and o.a[0] == mpid and o.a[1] is root and o.a[2] == path:
            if n is not o:
                self.phiops[o].add(n)
                self.jold[o] = o
                self.jnew[o] = n
                if mpid in self.rows:
                    self.rows[mpid][-1][o] = n
            return o
        if o.op == n.op:
            if o.op == "adt":
                if o.a[0] == n.a[0] and o.a[1] == n.a[1] and len(o.a) == len(n.a):
                    return mk("adt", o.a[0], o.a[1], *[self.jv(x, y, mpid, root, path + (i,)) for i, (x, y) in enumerate(zip(o.a[2:], n.a[2:]))])
            elif o.op == "call" and o.a[0] == n.a[0] and len(o.a) == len(n.a) and self.joincalls and str(o.a[0]).split("::")[-1].split(":")[0] in self.joincalls:
                if all(x is y or isinstance(x, T) and isinstance(y, T) for x, y in zip(o.a, n.a)):
                    r = mk("call", o.a[0], *[self.jv(x, y, mpid, root, path + (i,)) if isinstance(x, T) else x for i, (x, y) in enumerate(zip(o.a[1:], n.a[1:]))])
                    self.jcong.append((r, o, n))
                    return r
            elif o.op == "tup" and len(o.a) == len(n.a):
                return mk("tup", *[self.jv(x, y, mpid, root, path + (i,)) for i, (x, y) in enumerate(zip(o.a, n.a))])
            elif o.op == "clo" and o.a[0] == n.a[0] and len(o.a) == len(n.a):
                return mk("clo", o.a[0], o.a[1], *[self.jv(x, y, mpid, root, path + (i,)) for i, (x, y) in enumerate(zip(o.a[2:], n.a[2:]))])
            elif o.op == "it" and o.a[0] == n.a[0] and len(o.a) == len(n.a):
                return mk("it", o.a[0], *[self.jv(x, y, mpid, root, path + (i,)) if isinstance(x, T) and isinstance(y, T) else x for i, (x, y) in enumerate(zip(o.a[1:], n.a[1:]))])
            elif o.op == "ref" and (self.rawev or self.refjoin) and o.a[0] is n.a[0] and len(o.a[1]) == len(n.a[1]) and o.a[1][:-1] == n.a[1][:-1] and o.a[1][-1][0] == n.a[1][-1][0] == "i":
                return mk("ref", o.a[0], o.a[1][:-1] + (("i", self.jv(o.a[1][-1][1], n.a[1][-1][1], mpid, root, path + ("i",))),))
        ob = o.a[0] if o.op == "obj" else o
        nb = n.a[0] if n.op == "obj" else n
        if (o.op == "obj" or n.op == "obj") and ob is nb:
            oe = dict(o.a[1]) if o.op == "obj" else {}
            ne = dict(n.a[1]) if n.op == "obj" else {}
            ents = {}
            for kk in set(oe) | set(ne):
                e = ("f", kk[0], kk[2], kk[1])
                x = oe.get(kk)
                if x is None:
                    x = self.proj(ob, e)
                y = ne.get(kk)
                if y is None:
                    y = self.proj(nb, e)
                ents[kk] = self.jv(x, y, mpid, root, path + (kk[0], kk[1]))
            return mk("obj", ob, tuple(sorted(ents.items(), key=lambda kv: (kv[0][0], kv[0][1]))))
        ph = mk("phi", mpid, root, path)
        ops = self.phiops.setdefault(ph, set())
        if o is not ph:
            ops.add(o)
        if n is not ph:
            ops.add(n)
        self.jold[ph] = o
        self.jnew[ph] = n
        rows = self.rows.get(mpid)
        if rows:
            # values that meet on the same way in; what came before this join all had the old value
            for r in rows[:-1]:
                r.setdefault(ph, o)
            rows[-1][ph] = n
        return ph

    # ------------------------------------------------------------ keys
    def vkey(self, st, v, depth=2):
        if v.op == "adt":
            d = v.a[0]
            if d in ENUM_NV or (d in self.p.adts and self.p.adts[d]["enum"]):
                if depth > 1:
                    for x in v.a[2:3]:
                        if x is TRUE or x is FALSE:
                            return (v.a[1], "T" if x is TRUE else "F")
                        if x.op == "adt" and x.a[0] in ENUM_NV:
                            return (v.a[1], self.vkey(st, x, depth - 1))
                        if x.op == "tup" and depth > 1:
                            sub = tuple(self.vkey(st, y, 1) for y in x.a)
                            if any(s is not None for s in sub):
                                return (v.a[1], sub)
                return v.a[1]
            return None
        if v.op == "c":
            return None
        w = st.facts.get(mk("discr", v))
        if w is not None:
            return w
        return None

    def statekey(self, fn, ctx, st, b):
        out = []
        lt = fn.lty
        for l in sorted(fn.livein[b] | (fn.borrowed if self.opts.get("kb", True) else set())):
            v = st.mem.get(self.loc(ctx, l))
            if v is None:
                continue
            t = lt[l]
            if t[0] == "other":
                if t[1] == "bool":
                    x = self.truth(st, v)
                    if x is not None:
                        out.append((l, x))
                continue
            if t[0] in ("adt", "param"):
                k = self.vkey(st, v)
                if k is not None:
                    out.append((l, k))
        if self.track:
            out.append(("T", self.track(self, st)))
        return tuple(out)

    # ------------------------------------------------------------ running
    def new_state(self):
        s = St()
        s.mem = {}
        s.facts = {}
        s.last = frozenset()
        s.bor = frozenset()
        s.issued = frozenset()
        s.epoch = None
        s.trk = None
        return s

    def root(self, d, sub=None, setup=None, args=None):
        """analyse function d as an entry point; returns exits [(ret, state)]"""
        fn = self.p.fns[d]
        sub = sub or {}
        self.rootfn = d
        st = self.new_state()
        ctx = self.ctx(None, fn, sub, ("root", d, self.subkey(sub)))
        av = args or []
        if not av:
            for i in range(fn.argc):
                nm = fn.lname[i + 1] or str(i)
                a = mk("arg", d, i, nm)
                t = fn.lty[i + 1]
                if t[0] == "array" and str(t[2]).isdigit():
                    a = mk("vsized", a, c(int(t[2])))
                av.append(a)
        if setup:
            setup(self, st, av)
        n = self.event(st, ctx, ("entry",), "entry", d, tuple(av), sp=fn.span)
        self.entry = n
        ex = self.run(fn, sub, av, st, ctx)
        for r, s in ex:
            self.event(s, ctx, ("exit", self.retkey(s, r), self.track(self, s) if self.track else None), "ret", self.retkey(s, r), (r,), sp=fn.span)
        return ex

    def retkey(self, st, r):
        if r is TRUE or r is FALSE:
            return "T" if r is TRUE else "F"
        return self.vkey(st, r)

    def run(self, fn, sub, args, st, ctx):
        self.call_count += 1
        mem = st.mem
        n = len(args)
        for i in range(fn.argc):
            mem[self.loc(ctx, i + 1)] = args[i]
        if fn.argc != n:
            raise Exception("arity %s %d %d" % (fn.d, fn.argc, n))
        entry = {}
        exits = {}
        k0 = ()
        entry[(0, k0)] = st
        wl = [(0, 0, 0, k0)]
        inwl = {(0, k0)}
        cnt = 0
        nvis = {}
        fwd = {}
        while wl:
            _, _, b, key = heapq.heappop(wl)
            bk = (b, key)
            inwl.discard(bk)
            s = entry[bk].fork()
            self.steps += 1
            if self.steps > self.budget:
                raise Budget("budget exceeded in %s" % fn.d)
            nv = nvis[bk] = nvis.get(bk, 0) + 1
            if nv > 60:
                raise Budget("no convergence in %s bb%d %s" % (fn.d, b, key))
            for tgt, s2 in self.block(fn, sub, b, key, s, ctx):
                if tgt is None:
                    r = s2.mem.get(self.loc(ctx, 0))
                    if r is None:
                        r = UNIT
                    for i in range(len(fn.lty)):
                        l = ctx.locs.get(i)
                        if l is not None:
                            s2.mem.pop(l, None)
                    rk = self.retkey(s2, r)
                    if rk is None and fn.lty[0] == ("other", "bool"):
                        rk = self.truth(s2, r)
                    if self.track:
                        rk = (rk, self.track(self, s2))
                    e = exits.get(rk)
                    rl = mk("rv", ctx.id)
                    s2.mem[rl] = r
                    if e is None:
                        exits[rk] = s2
                    else:
                        self.join(e, s2, self.mpid(ctx, "exit", rk))
                    continue
                # drop dead locals
                dk = (fn.d, getattr(fn, "promoted", None), tgt)
                die = self.edge_die.get(dk)
                if die is None:
                    die = [l for l in range(len(fn.lty)) if l not in fn.livein[tgt] and l not in fn.borrowed]
                    self.edge_die[dk] = die
                m2 = s2.mem
                for l in die:
                    t = ctx.locs.get(l)
                    if t is not None:
                        m2.pop(t, None)
                k2 = self.statekey(fn, ctx, s2, tgt)
                e = entry.get((tgt, k2))
                if e is None:
                    entry[(tgt, k2)] = s2
                    chg = True
                else:
                    chg = self.join(e, s2, self.mpid(ctx, tgt, k2))
                if chg and (tgt, k2) not in inwl:
                    inwl.add((tgt, k2))
                    cnt += 1
                    heapq.heappush(wl, (fn.rpo[tgt], cnt, tgt, k2))
        out = []
        rl = mk("rv", ctx.id)
        for rk, s in exits.items():
            r = s.mem.pop(rl)
            out.append((r, s))
        return out

    def mpid(self, ctx, b, k):
        x = (ctx.id, b, k)
        r = self.mp.get(x)
        if r is None:
            r = self.mp[x] = len(self.mp)
        return r

    # ------------------------------------------------------------ blocks
    def resolve(self, st, ctx, place):
        root = self.loc(ctx, place[0])
        path = ()
        for e in place[1:]:
            if e == "*":
                v = self.get(st, root, path)
                root, path = self.locof(v)
                if self.rawev and e is place[1] and ctx.fn.lty[place[0]][0] == "ptr":
                    self.raw_deref(st, ctx, place, root, path)
            elif e[0] == "f":
                path = path + (("f", e[1], e[2], e[3]),)
            elif e[0] == "v":
                path = path + (("v", e[1]),)
            elif e[0] == "i":
                path = addidx(path, self.get(st, self.loc(ctx, e[1])))
            elif e[0] == "ci":
                path = addidx(path, mk("fromend", c(e[1])) if e[2] else c(e[1]))
            elif e[0] == "ss":
                path = addslice(path, c(e[1]), c(e[2]) if not e[3] else (mk("fromend", c(e[2])) if e[2] else None))
            else:
                path = path + (("?",),)
        return root, path

    def raw_deref(self, st, ctx, place, root, path):
        """access through a raw pointer"""
        site = ("raw", place[0])
        if path and path[-1][0] == "i":
            self.event(st, ctx, site, "unchecked", "", (self.get(st, root, path[:-1]), path[-1][1]), sp=ctx.fn.span)
        else:
            self.event(st, ctx, site, "rawderef", "", (self.mkref(root, path),), sp=ctx.fn.span)

    def operand(self, st, ctx, o):
        k = o["k"]
        if k in ("cp", "mv"):
            p = o["p"]
            if len(p) == 1:
                v = st.mem.get(self.loc(ctx, p[0]))
                if v is None:
                    v = self.default(st, self.loc(ctx, p[0]))
                return v
            r, q = self.resolve(st, ctx, p)
            return self.get(st, r, q)
        if k == "c":
            return self.const(st, ctx, o)
        if k == "fn":
            t = mk("fn", o.get("r") or o["d"], id(o), self.subkey(ctx.sub))
            self.fnc[t] = (o, ctx.sub)
            return t
        return FALSE

    def const(self, st, ctx, o):
        t = o["t"]
        if "p" in o:
            fn = ctx.fn
            q = fn.proms[o["p"]]
            q.promoted = o["p"]
            cx = self.ctx(ctx, q, ctx.sub, ("prom", o["p"]))
            s = self.new_state()
            ex = self.run(q, ctx.sub, [], s, cx)
            if ex:
                r, s2 = ex[0]
                if r.op == "ref":
                    # locals of the promoted body were dropped; re-run keeping value
                    v = cx_val(self, q, cx)
                    if v is not None:
                        return mk("cptr", v)
                return r
            return mk("const", o["s"])
        if "v" in o:
            try:
                return c(int(o["v"]))
            except ValueError:
                return mk("const", o["v"])
        if "b" in o:
            return mk("cptr", mk("arr", *[c(x) for x in o["b"]]))
        if "darr" in o:
            return mk("cptr", mk("arr", *[c(int(x)) for x in o["darr"]]))
        if "arr" in o:
            return mk("arr", *[c(int(x)) for x in o["arr"]])
        if o.get("z"):
            k = t["k"]
            if k == "tuple":
                return UNIT
            if k == "adt":
                return mk("adt", t["d"], 0)
            return UNIT
        # named constant with no scalar value
        if "n" in o:
            cc = self.p.consts.get(o["n"])
            if cc is not None and "arr" in cc:
                return mk("arr", *[c(int(x)) for x in cc["arr"]])
            return mk("nconst", o["n"])
        return mk("const", o["s"])

    def rvalue(self, st, ctx, r, site):
        k = r["k"]
        if k == "use":
            return self.operand(st, ctx, r["o"])
        if k == "ref":
            if len(r["p"]) == 2 and r["p"][1] == "*":
                v = self.get(st, self.loc(ctx, r["p"][0]), ())
                if v.op == "dynref":
                    return v
            root, path = self.resolve(st, ctx, r["p"])
            return self.mkref(root, path)
        if k == "cast":
            v = self.operand(st, ctx, r["o"])
            return self.cast(st, ctx, r, v)
        if k == "bin":
            a = self.operand(st, ctx, r["a"])
            b = self.operand(st, ctx, r["b"])
            if r["op"] == "Offset":
                rt, q = self.locof(a)
                return self.mkref(rt, addidx(q, b))
            return binop(r["op"], a, b)
        if k == "un":
            a = self.operand(st, ctx, r["a"])
            if r["op"] == "Not":
                if a.op in ("not",) or (a.op == "op" and a.a[0] in ("Eq", "Lt")):
                    return neg(a)
                if a.op == "c" and a.a[0] in (0, 1):
                    return neg(a)
                return neg(a)
            if r["op"] == "PtrMetadata":
                rt, q = self.locof(a)
                return self.length(st, self.get(st, rt, q))
            return mk("op", r["op"], a)
        if k == "discr":
            root, path = self.resolve(st, ctx, r["p"])
            v = self.get(st, root, path)
            return mk("dv", v, self.enum_of(Prog.sub(self.p.ty(r["t"]), ctx.sub)))
        if k == "adt":
            ops = [self.operand(st, ctx, o) for o in r["ops"]]
            return mk("adt", r["d"], r["v"], *ops)
        if k == "tuple":
            return mk("tup", *[self.operand(st, ctx, o) for o in r["ops"]])
        if k == "array":
            return mk("arr", *[self.operand(st, ctx, o) for o in r["ops"]])
        if k == "closure":
            return mk("clo", r["d"], self.subkey(ctx.sub), *[self.operand(st, ctx, o) for o in r["ops"]])
        if k == "repeat":
            v = self.operand(st, ctx, r["o"])
            try:
                n = c(int(r["n"]))
            except ValueError:
                n = mk("const", r["n"])
            return mk("vrep", v, n)
        if k == "rawptr":
            ops = [self.operand(st, ctx, o) for o in r["ops"]]
            return ops[0] if ops else UNIT
        return mk("sym", ctx.id, site, "rv")

    def enum_of(self, t):
        return t[1] if t[0] == "adt" else ""

    BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "bool": 1, "char": 32, "u128": 128, "i128": 128}

    def cast(self, st, ctx, r, v):
        cs = r["c"]
        if cs.startswith("IntToInt"):
            fb = self.BITS.get(r["ft"].get("s"), 64)
            tb = self.BITS.get(r["t"].get("s"), 64)
            if v.op == "c":
                x = v.a[0]
                if r["t"].get("s", "").startswith("u"):
                    x &= (1 << tb) - 1
                return c(x)
            if v.op == "dv":
                return v
            if r["ft"].get("s") == "bool":
                return mk("b2i", v)
            if tb >= fb:
                return v
            return mk("cast", tb, v)
        if "Unsize" in cs:
            tt = r["t"]
            if tt["k"] in ("ref", "ptr") and tt["t"]["k"] == "dyn":
                ft = Prog.sub(self.p.ty(r["ft"]), ctx.sub)
                k = mk("ty", str(ft[2]))
                self.tytab[k] = ft[2]
                return mk("dynref", v, k)
            return v
        if cs.startswith("FloatToInt") or cs.startswith("IntToFloat") or cs.startswith("FloatToFloat"):
            return mk("cast", cs, v)
        return v

    def length(self, st, v):
        return veclen(v)

    def switch_val(self, st, v):
        """constant value of a switch operand, or None"""
        if v.op == "c":
            return v.a[0]
        if v.op == "dv":
            x, en = v.a
            w = self.variant(st, x)
            if w is None:
                return None
            return ORD_DISCR[w] if en == ORDERING else w
        x = self.truth(st, v) if v.op in ("not", "op", "phi", "fld", "call", "sym", "hv") else None
        if x is not None and v.op in ("not",) or (x is not None and v.op == "op" and v.a[0] in ("Eq", "Lt", "BitAnd", "BitOr")):
            return int(x)
        k = st.facts.get(mk("isc", v))
        if k is not None:
            return k
        k = st.facts.get(v)
        if k is not None:
            return k
        return None

    def block(self, fn, sub, b, key, st, ctx):
        bb = fn.bbs[b]
        si = 0
        for s in bb["s"]:
            k = s["k"]
            if k == "=":
                v = self.rvalue(st, ctx, s["r"], (b, key, si))
                p = s["p"]
                if len(p) == 1:
                    st.mem[self.loc(ctx, p[0])] = v
                else:
                    root, path = self.resolve(st, ctx, p)
                    if root.op != "loc" and self.opts.get("stores"):
                        self.event(st, ctx, (b, key, si), "store", path[-1][3] if path and path[-1][0] == "f" else "", (self.mkref(root, path), v), sp=s["sp"])
                    if self.opts.get("pushev"):
                        for r1, p1 in self.places(root, path):
                            if p1 and p1[-1][0] == "i":
                                self.event(st, ctx, (b, key, si), "push", "set", (self.get(st, r1, p1[:-1]), v, p1[-1][1]), sp=s["sp"])
                                break
                    self.put(st, root, path, v)
            elif k == "dead":
                l = ctx.locs.get(s["l"])
                if l is not None:
                    st.mem.pop(l, None)
            elif k == "setd":
                root, path = self.resolve(st, ctx, s["p"])
                cur = self.get(st, root, path)
                if cur.op == "adt":
                    self.put(st, root, path, mk("adt", cur.a[0], s["v"], *cur.a[2:]))
            si += 1
        t = bb["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "ret":
            return [(None, st)]
        if k == "switch":
            return self.do_switch(st, ctx, t, (b, key))
        if k == "assert":
            v = self.operand(st, ctx, t["o"])
            if not self.assume(st, v, bool(t["e"])):
                return []
            return [(t["t"], st)]
        if k == "drop":
            root, path = self.resolve(st, ctx, t["p"])
            v = self.get(st, root, path)
            self.drop_value(st, ctx, v, (b, key), t)
            return [(t["t"], st)]
        if k == "call":
            outs = self.do_call(fn, b, key, st, ctx, t)
            if t["t"] is None:
                return []
            res = []
            for r, s in outs:
                p = t["d"]
                if len(p) == 1:
                    s.mem[self.loc(ctx, p[0])] = r
                else:
                    root, path = self.resolve(s, ctx, p)
                    self.put(s, root, path, r)
                res.append((t["t"], s))
            return res
        return []

    def drop_value(self, st, ctx, v, site, t):
        if st.bor:
            for g in self.guards_in(v):
                if g in st.bor:
                    st.bor = st.bor - {g}
                    if self.opts.get("borrow_events"):
                        self.event(st, ctx, site + (g,), "release", g.a[1], (g.a[0],), sp=t["sp"])

    def guards_in(self, v, seen=None):
        seen = seen if seen is not None else set()
        if v in seen:
            return
        seen.add(v)
        if v.op == "gd":
            yield v
        elif v.op in ("adt", "tup", "clo", "obj", "as", "it", "mbr"):
            for x in children(v):
                for g in self.guards_in(x, seen):
                    yield g
        elif v.op == "fld":
            for g in self.guards_in(v.a[0], seen):
                yield g
        elif v.op == "phi":
            for x in self.phiops.get(v, ()):
                for g in self.guards_in(x, seen):
                    yield g

    def index_loop(self, outs, ctx, t, site, w, pos):
        """a test i < len(v): seen as one step of a walk over v"""
        els = t["else"]
        for tgt, s in outs:
            val = [int(x) for x, g in t["ts"] if g == tgt]
            tv = bool(val[0]) if val else True
            if not pos:
                tv = not tv
            self.event(s, ctx, site + ("ix", tv), "next", "some" if tv else "none", (mk("it", "vec", w.a[2].a[0], w.a[1]),), sp=t.get("sp"))
        return outs

    def do_switch(self, st, ctx, t, site=None):
        v = self.operand(st, ctx, t["o"])
        if self.opts.get("iterev") and site is not None:
            w, pos = v, True
            while w.op == "not":
                w, pos = w.a[0], not pos
            if w.op == "op" and w.a[0] == "Lt" and w.a[2].op == "len":
                return self.index_loop(self.do_switch(st, ctx, t), ctx, t, site, w, pos)
        x = self.switch_val(st, v)
        if x is not None:
            for val, tgt in t["ts"]:
                if int(val) == x:
                    return [(tgt, st)]
            return [(t["else"], st)]
        out = []
        isbool = t["ty"].get("s") == "bool"
        seen = []
        if v.op == "dv":
            inner, en = v.a
            if inner.op == "phi" and False:
                pass
            nvar = ENUM_NV.get(en)
            if nvar is None and en in self.p.adts:
                nvar = len(self.p.adts[en]["vs"])
            inv = {ORD_DISCR[i]: i for i in ORD_DISCR} if en == ORDERING else None
            done = set()
            for val, tgt in t["ts"]:
                w = inv[int(val)] if inv else int(val)
                done.add(w)
                s = st.fork()
                if self.assume_variant(s, inner, w):
                    out.append((tgt, s))
            done |= {i for i in st.facts.get(mk("notdiscr", inner), ()) if nvar is not None and i < nvar}
            rest = [i for i in range(nvar) if i not in done] if nvar is not None else None
            if rest is None or rest:
                s = st.fork()
                if rest is not None and len(rest) == 1:
                    if self.assume_variant(s, inner, rest[0]):
                        out.append((t["else"], s))
                else:
                    k = mk("notdiscr", inner)
                    s.facts[k] = tuple(sorted(set(s.facts.get(k, ())) | done))
                    out.append((t["else"], s))
            return out
        if isbool:
            for val, tgt in t["ts"]:
                s = st.fork()
                if self.assume(s, v, bool(int(val))):
                    out.append((tgt, s))
                seen.append(int(val))
            s = st.fork()
            if len(seen) == 1 and self.assume(s, v, not bool(seen[0])):
                out.append((t["else"], s))
            return out
        for val, tgt in t["ts"]:
            s = st.fork()
            q = binop("Eq", v, c(int(val)))
            if self.assume(s, q, True):
                out.append((tgt, s))
        s = st.fork()
        okk = True
        for val, tgt in t["ts"]:
            q = binop("Eq", v, c(int(val)))
            if not self.assume(s, q, False):
                okk = False
        if okk:
            out.append((t["else"], s))
        return out

    # ------------------------------------------------------------ calls
    def resolve_callee(self, st, j, sub, args):
        """-> ('fn', fn, subst) | ('ext', name, j, targs)"""
        d = j["d"]
        a = tuple(Prog.sub(self.p.ty(x), sub) for x in j["a"])
        tr = j.get("tr")
        if self.opaque(d, tr, a):
            return ("pure", d, a)
        r = j.get("r")
        rk = j.get("rk")
        if rk == "item" and r in self.p.fns:
            f = self.p.fns[r]
            ra = tuple(Prog.sub(self.p.ty(x), sub) for x in j["ra"])
            # a trait default method with an unresolved Self
            if f.intrait and tr and ra and ra[0][0] == "param":
                return ("pure", d, a)
            # (default body reached although the implementor may override it is excluded by rustc)
            return ("fn", f, dict(zip(f.gen, ra)))
        if tr is not None and (r is None or rk == "virtual") and a:
            self_t = a[0]
            if rk == "virtual" or self_t[0] == "dyn":
                p = args[0]
                while p.op == "gd":
                    p = p.a[0]
                if p.op == "dynref":
                    self_t = self.tytab[p.a[1]]
                    while self_t[0] == "ref":
                        self_t = self_t[2]
                    a = (self_t,) + a[1:]
                    args[0] = p.a[0]
            if tr in self.p.traits or tr in self.p.impl_by_tr:
                im = self.p.impl_by_tr.get(tr, [])
                n = len(im[0]["ta"]) if im else 1
                x = self.p.find_impl(tr, a[:n], d)
                if x is not None and x[0] in self.p.fns:
                    f = self.p.fns[x[0]]
                    m = dict(x[1])
                    own = [g for g in f.gen if g not in m]
                    for g, ty in zip(own, a[n:]):
                        m[g] = ty
                    return ("fn", f, m)
                if d in self.p.fns and self_t[0] not in ("param", "dyn"):
                    f = self.p.fns[d]
                    return ("fn", f, dict(zip(f.gen, a)))
            if tr in self.p.traits:
                return ("pure", d, a)
        return ("ext", d, a)

    def do_call(self, fn, b, key, st, ctx, t):
        fo = t["f"]
        args = [self.operand(st, ctx, o) for o in t["args"]]
        site = (b, key)
        if fo["k"] != "fn":
            fv = self.operand(st, ctx, fo)
            return self.call_value(st, ctx, site, fv, args, t)
        return self.call_j(st, ctx, site, fo, ctx.sub, args, t)

    def call_j(self, st, ctx, site, fo, sub, args, t):
        r = self.resolve_callee(st, fo, sub, args)
        if r[0] == "fn":
            return self.call_fn(st, ctx, site, r[1], r[2], args, t)
        if r[0] == "pure":
            return self.pure(st, ctx, site, r[1], args, t)
        return self.ext(st, ctx, site, fo, r[1], r[2], args, t)

    def call_fn(self, st, ctx, site, f, sub, args, t):
        h = self.opts.get("hook", {}).get(f.d)
        if h and not (self.opts.get("cut") and self.opts["cut"](f)):
            r = h(self, st, ctx, site, f, sub, args, t)
            if r is not None:
                return r
        if f.d in self.roots_rec or self.in_stack(ctx, f):
            return self.rec_call(st, ctx, site, f, sub, args, t)
        if self.opts.get("cut") and self.opts["cut"](f):
            return self.rec_call(st, ctx, site, f, sub, args, t)
        cx = self.ctx(ctx, f, sub, (site, t["sp"]))
        if cx.depth > 80:
            raise Budget("call depth")
        if f.kind == "Closure":
            xs = self.load(st, args[1]) if len(args) > 1 and args[1].op == "ref" else args[1] if len(args) > 1 else None
            return self.call_value(st, ctx, site, args[0], list(xs.a) if xs is not None and xs.op == "tup" else list(args[1:]), t)
        ce = self.opts.get("callev")
        if ce and ce(f):
            self.event(st, ctx, site, "call", f.d, tuple(args), sp=t["sp"] if t else None, x={"fn": f})
            outs = self.run(f, sub, args, st, cx)
            for r, s in outs:
                k = self.retkey(s, r)
                n = self.event(s, ctx, site + (k, s.trk), "cret", f.d, tuple(args), res=r, sp=t["sp"] if t else None, x={"fn": f, "rk": k})
            return outs
        return self.run(f, sub, args, st, cx)

    def in_stack(self, ctx, f):
        x = ctx
        while x is not None:
            if x.fn.d == f.d:
                return True
            x = x.parent
        return False

    def call_value(self, st, ctx, site, fv, args, t):
        """call a function value (closure, fn item); args already untupled"""
        while fv.op in ("ref", "gd", "dynref") or (fv.op == "phi" and False):
            v = self.load(st, fv)
            if v.op == "clo":
                return self.call_clo(st, ctx, site, v, fv, args, t)
            if v is fv:
                break
            fv = v
        if fv.op == "clo":
            return self.call_clo(st, ctx, site, fv, None, args, t)
        if fv.op == "fn":
            o, sub = self.fnc[fv]
            return self.call_j(st, ctx, site, o, sub, args, t)
        # unknown function value: opaque
        tt = t["dt"] if t else None
        r = self.fresh(st, ctx, site, "fv")
        self.event(st, ctx, site, "callv", "?", (fv,) + tuple(args), res=r, sp=t["sp"] if t else None)
        return [(r, st)]

    def call_clo(self, st, ctx, site, clo, ref, args, t):
        f = self.p.fns[clo.a[0]]
        sub = self.subtab[clo.a[1]]
        cx = self.ctx(ctx, f, sub, (site, "clo"))
        if self.in_stack(ctx, f):
            return self.rec_call(st, ctx, site, f, sub, [clo] + list(args), t)
        # first parameter: by value, or a reference to the closure
        envt = f.lty[1]
        tmp = None
        if envt[0] == "ref":
            if ref is None:
                tmp = mk("loc", cx.id, "env")
                st.mem[tmp] = clo
                ref = mk("ref", tmp, ())
            a0 = ref
        else:
            a0 = clo
        if f.argc == 1 + len(args):
            av = [a0] + list(args)
        elif f.argc == 2 and len(args) != 1:
            av = [a0, mk("tup", *args)]
        else:
            av = [a0] + list(args)
        outs = self.run(f, sub, av, st, cx)
        if tmp is not None:
            for r, s in outs:
                s.mem.pop(tmp, None)
        return outs

    def pv(self, st, a):
        """argument of a pure call: pointers are replaced by what they point to"""
        if a.op in ("ref", "gd", "cptr", "dynref"):
            return self.load(st, a)
        if a.op in ("arg", "fld", "call", "deref", "as", "elem", "sym", "phi", "old", "hv", "alloc"):
            v = st.mem.get(a)
            if v is not None:
                return v
        return a

    def pure(self, st, ctx, site, d, args, t):
        av = []
        for x, ty in zip(args, t["at"] if t else [None] * len(args)):
            if ty is not None and ty["k"] in ("ref", "ptr"):
                av.append(self.load(st, x))
            else:
                av.append(x)
        return [(mk("call", d, *av), st)]

    def is_mutref(self, ty):
        return ty["k"] in ("ref", "ptr") and ty["m"]

    def ext(self, st, ctx, site, fo, d, ta, args, t):
        m = self.M.lookup(d, fo.get("r"), ta)
        if m is None and t["at"]:
            m = self.M.on_file(d, Prog.sub(self.p.ty(t["at"][0]), ctx.sub))
        if m is not None:
            r = m(self, st, ctx, site, Call(fo, d, ta, args, t))
            if r is not None:
                return r
        nm = fo.get("r") or d
        if d.endswith("{constructor#0}"):
            q = d[:-len("::{constructor#0}")]
            if q.endswith("::Some"):
                return [(some(args[0]), st)]
            if q.endswith("Result::Ok"):
                return [(ok(args[0]), st)]
            if q.endswith("Result::Err"):
                return [(err(args[0]), st)]
            if q in self.p.adts:
                return [(mk("adt", q, 0, *args), st)]
            e, v = q.rsplit("::", 1)
            if e in self.p.adts:
                vi = [x["n"] for x in self.p.adts[e]["vs"]].index(v)
                return [(mk("adt", e, vi, *args), st)]
            return [(mk("call", d, *args), st)]
        self.unknown_ext[d] = self.unknown_ext.get(d, 0) + 1
        if t["t"] is None:
            self.event(st, ctx, site, "diverge", d, tuple(args), sp=t["sp"])
            return []
        # generic: havoc what is mutably borrowed
        mut = False
        for x, ty in zip(args, t["at"]):
            if self.is_mutref(ty):
                mut = True
                self.store(st, x, self.fresh(st, ctx, site, ("out", d)))
            elif x.op == "clo":
                outs = self.call_clo(st, ctx, site, x, None, [self.fresh(st, ctx, site, ("ca", i)) for i in range(self.p.fns[x.a[0]].argc - 1)], t)
                st = outs[0][1] if outs else st
        if mut:
            return [(self.fresh(st, ctx, site, ("ext", d)), st)]
        return self.pure(st, ctx, site, d, args, t)

    # ------------------------------------------------------------ recursion
    def mods(self, d):
        k = d
        r = self._mods.get(k)
        if r is not None:
            return r
        M = {}

        def add_(f, v):
            if v is None or M.get(f) == "top":
                M[f] = "top"
            else:
                M.setdefault(f, set()).add(v)

        for x in self.p.reach([d]):
            fn = self.p.fns[x]
            for b in fn.order:
                bb = fn.bbs[b]
                for s in bb["s"]:
                    if s["k"] != "=":
                        continue
                    p = s["p"]
                    e = p[-1] if len(p) > 1 else None
                    if isinstance(e, list) and e[0] == "f" and e[2]:
                        v = None
                        if s["r"]["k"] == "use" and s["r"]["o"]["k"] == "c" and "v" in s["r"]["o"]:
                            v = int(s["r"]["o"]["v"])
                        if "*" in p[1:]:
                            add_((e[2], e[3]), v)
                    r = s["r"]
                    if r["k"] == "ref" and r["m"]:
                        p = r["p"]
                        e = p[-1] if len(p) > 1 else None
                        if isinstance(e, list) and e[0] == "f" and e[2] in self.p.adts:
                            ft = self._fty(e[2], e[3])
                            if ft is not None and not (ft["k"] == "adt" and ft["d"] in self.p.adts) and not self.is_ptr_field(e[2], e[3]):
                                add_((e[2], e[3]), None)
                t = bb["t"]
                if t["k"] == "call" and len(t["d"]) > 1:
                    e = t["d"][-1]
                    if isinstance(e, list) and e[0] == "f" and e[2]:
                        add_((e[2], e[3]), None)
        self._mods[k] = M
        return M

    def rec_call(self, st, ctx, site, f, sub, args, t):
        M = self.mods(f.d)
        ep = mk("ep", ctx.id, site)
        self._epmods[ep] = M
        # locals and allocations handed over
        direct = set()

        def scan(v, depth=0):
            if depth > 6:
                return
            if v.op in ("ref", "gd", "dynref"):
                r, q = self.locof(v)
                if r not in direct:
                    direct.add(r)
                    x = st.mem.get(r)
                    if x is not None:
                        scan(x, depth + 1)
            elif v.op in ("adt", "tup", "clo", "obj"):
                for x in children(v):
                    scan(x, depth + 1)
            elif v.op in ("arg", "sym", "fld", "alloc", "as", "elem", "call", "phi", "old"):
                if v in st.mem and v not in direct:
                    direct.add(v)
                    scan(st.mem[v], depth + 1)
        for a in args:
            scan(a)
        for r in list(st.mem.keys()):
            if r.op == "loc" or r.op == "alloc":
                if r not in direct:
                    continue
            elif r.op in ("cptr", "rv", "itvar", "accvar", "posvar", "ghost"):
                continue
            elif r not in direct and self.private_root(r):
                continue
            st.mem[r] = self.hv(st.mem[r], ep)
        st.epoch = ep
        if self.opts.get("borrows") and not getattr(self, "_in_clo", 0):
            # callbacks handed to a recursive function run under the guards held here
            for i, a in enumerate(args):
                v = a
                while v.op in ("ref", "gd", "dynref") and self.load(st, v) is not v:
                    v = self.load(st, v)
                if v.op == "clo" and v.a[0] in self.p.fns:
                    g = self.p.fns[v.a[0]]
                    self._in_clo = 1
                    s3 = st.fork()
                    self.call_clo(s3, ctx, site + ("cb", i), v, None, [mk("sym", "cb", ctx.id, site, i, j) for j in range(g.argc - 1)], t)
                    self._in_clo = 0
        # facts stay: they are about values, not places
        n = self.event(st, ctx, site, "rec", f.d, tuple(args), sp=t["sp"] if t else None)
        rt = Prog.sub(f.lty[0], sub)
        if rt[0] == "adt" and rt[1] == RESULT:
            s2 = st.fork()
            v = self.fresh(st, ctx, site, "rok")
            e = self.fresh(s2, ctx, site, "rerr")
            n.res = v
            self.event(st, ctx, site, "recok", f.d, tuple(args), res=v, sp=t["sp"] if t else None)
            self.event(s2, ctx, site, "recerr", f.d, tuple(args), res=e, sp=t["sp"] if t else None)
            return [(ok(v), st), (err(e), s2)]
        v = self.fresh(st, ctx, site, "rret")
        n.res = v
        return [(v, st)]

    def private_root(self, r):
        """objects reached through a container element or a call result: assumed not shared
        with what a callee reaches from its own arguments"""
        return contains(r, lambda x: x.op in ("elem", "call", "sym", "as"))


class Call(object):
    __slots__ = ("fo", "d", "ta", "args", "t", "name")

    def __init__(s, fo, d, ta, args, t):
        s.fo = fo
        s.d = d
        s.ta = ta
        s.args = args
        s.t = t
        s.name = d.split("::")[-1]


def cx_val(eng, q, cx):
    """value of the last array/aggregate a promoted body takes a reference to"""
    st = eng.new_state()
    cur = None
    for b in q.order:
        for s in q.bbs[b]["s"]:
            if s["k"] == "=":
                if s["p"] == [0]:
                    r = s["r"]
                    if r["k"] == "ref":
                        root, path = eng.resolve(st, cx, r["p"])
                        return eng.get(st, root, path)
                v = eng.rvalue(st, cx, s["r"], ("p", b))
                root, path = eng.resolve(st, cx, s["p"])
                eng.put(st, root, path, v)
    return None


# ---------------------------------------------------------------- sequences
def addidx(path, t):
    if path and path[-1][0] == "sl":
        a = path[-1][1]
        if t.op != "fromend":
            return path[:-1] + (("i", add(a, t)),)
    return path + (("i", t),)


def addslice(path, a, b):
    """b None = to the end"""
    if path and path[-1][0] == "sl":
        a0, b0 = path[-1][1], path[-1][2]
        return path[:-1] + (("sl", add(a0, a), add(a0, b) if b is not None else b0),)
    if a.op == "c" and a.a[0] == 0 and b is None:
        return path
    return path + (("sl", a, b),)


def vset(v, i, x):
    if v.op == "vset" and v.a[1] is i:
        return mk("vset", v.a[0], i, x)
    if v.op == "arr" and i.op == "c" and i.a[0] < len(v.a):
        a = list(v.a)
        a[i.a[0]] = x
        return mk("arr", *a)
    return mk("vset", v, i, x)


def elem(v, i):
    o = v.op
    if o == "arr":
        if i.op == "c" and 0 <= i.a[0] < len(v.a):
            return v.a[i.a[0]]
        if v.a and all(x is v.a[0] for x in v.a):
            return v.a[0]
    elif o == "vrep":
        return v.a[0]
    elif o == "vset":
        if v.a[1] is i:
            return v.a[2]
        d = sub(v.a[1], i)
        if d.op == "c" and d.a[0] != 0:
            return elem(v.a[0], i)
    elif o == "slice" and i.op != "fromend":
        return elem(v.a[0], add(v.a[1], i))
    elif o == "vpush":
        d = sub(veclen(v.a[0]), i)
        if d.op == "c":
            if d.a[0] == 0:
                return v.a[1]
            if d.a[0] > 0:
                return elem(v.a[0], i)
    elif o == "vclone":
        return elem(v.a[0], i)
    return mk("elem", v, i)


def veclen(v):
    o = v.op
    if o == "vnew":
        return c(0)
    if o == "arr":
        return c(len(v.a))
    if o == "vrep":
        return v.a[1]
    if o == "vpush" or o == "vins":
        return add(veclen(v.a[0]), c(1))
    if o == "vrem" or o == "vpop":
        return add(veclen(v.a[0]), c(-1))
    if o in ("vset", "slset"):
        return veclen(v.a[0])
    if o == "vext":
        return add(veclen(v.a[0]), veclen(v.a[1]))
    if o == "vresize" or o == "vtrunc":
        return v.a[1]
    if o == "slice":
        b = veclen(v.a[0]) if v.a[2] == "end" else v.a[2]
        if b.op == "fromend":
            b = sub(veclen(v.a[0]), b.a[0])
        return sub(b, v.a[1])
    if o in ("vclone", "vsorted", "vcloned"):
        return veclen(v.a[0])
    if o == "vsized":
        return v.a[1]
    return mk("len", v)
