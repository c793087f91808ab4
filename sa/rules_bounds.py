"""P27: unchecked accesses to lists stay inside them."""
from core import *
from prog import Prog
from engine import veclen
from terms import *
from layout import uncast
from rules_lists import reaches
from rules_tree import Tree, Roles, Lin
from rules_cache import Beans, Cache

DEBUG = False
KINDS27 = ("unchecked", "uncheckedptr", "uncheckedrange", "rawderef")


# ------------------------------------------------------------------------------------------------ linear reasoning
class Ineq(object):
    """linear inequalities over whole numbers (each entry is known to be >= 0); entailment by elimination"""

    def __init__(self, facts, pairs, extra=()):
        self.L = Lin({k: v for k, v in facts.items()}, pairs)
        self.dead = self.L.dead
        self.ge = list(self.L.ge)
        for t, v in facts.items():
            if t.op == "op" and t.a[0] == "Eq" and v == 1:
                d = self.L.lin(sub(t.a[1], t.a[2]))
                self.ge += [d, sub(c(0), d)]
            elif t.op == "op" and t.a[0] == "Eq" and v == 0:
                for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if a is c(0):
                        d = self.L.lin(b)
                        if all(m > 0 for _, m in lin_parts(d)[1]) and lin_parts(d)[0] >= 0:
                            self.ge.append(add(d, c(-1)))
            elif t.op == "isc" and isinstance(v, int):
                d = self.L.lin(sub(t.a[0], c(v)))
                self.ge += [d, sub(c(0), d)]
        self.ge += [self.L.lin(x) for x in extra]
        self.rge = None

    def holds(self, d):
        """d >= 0 follows"""
        d = self.L.red(self.L.lin(d))
        if d.op == "c":
            return d.a[0] >= 0
        if self.L.known(d):
            return True
        if self.rge is None:
            self.rge = [self.L.red(g) for g in self.ge]
        return infeasible(self.rge + [add(sub(c(0), d), c(-1))])


def vars_of(es):
    o = {}
    for e in es:
        for x, m in lin_parts(e)[1]:
            o[x] = o.get(x, 0) + 1
    return o


def side(x):
    """what is always known about a quantity"""
    out = [x]
    y = uncast(x)
    if y.op == "op" and len(y.a) == 3 and isinstance(y.a[2], T) and y.a[2].op == "c" and isinstance(y.a[2].a[0], int) and y.a[2].a[0] >= 0:
        k = y.a[2].a[0]
        if y.a[0] == "Shr":
            k = 1 << k if k < 62 else 0
        if y.a[0] in ("Div", "Shr") and k > 0:
            out += [sub(y.a[1], mul(x, c(k))), add(sub(mul(x, c(k)), y.a[1]), c(k - 1))]
        elif y.a[0] == "Rem" and k > 0:
            out += [sub(c(k - 1), x)]
        elif y.a[0] == "BitAnd":
            out += [sub(c(k), x)]
    return out


def infeasible(es):
    return any(eliminate(es, r) for r in (1, 2, 3, 6))


def eliminate(es, rounds, limit=400):
    """no whole numbers satisfy es (each >= 0): elimination of one quantity after the other; only what is connected with the
    last entry is looked at"""
    for e in es:
        if e.op == "c" and e.a[0] < 0:
            return True
    rest = set(es[:-1])
    con, seen = {es[-1]}, set()
    new = set(vars_of([es[-1]]))
    for _ in range(rounds):
        if not new:
            break
        seen |= new
        add_ = set()
        for x in new:
            add_.update(side(x))
        add_.update(e for e in rest if any(y in new for y, _ in lin_parts(e)[1]))
        add_ -= con
        con |= add_
        new = set(vars_of(add_)) - seen
    es = con
    while True:
        if any(e.op == "c" and e.a[0] < 0 for e in es):
            return True
        # of entries that differ by a number only the strongest counts
        strong = {}
        for e in es:
            if e.op != "c":
                k, ps = lin_parts(e)
                ps = tuple(ps)
                if ps not in strong or k < strong[ps]:
                    strong[ps] = k
        M = {ps: dict(ps) for ps in strong}
        cnt = {}
        for ps in strong:
            for x, m in ps:
                q = cnt.setdefault(x, [0, 0])
                q[m < 0] += 1
        if not cnt:
            return False
        bx = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos = [ps for ps in strong if M[ps].get(bx, 0) > 0]
        neg = [ps for ps in strong if M[ps].get(bx, 0) < 0]
        es = {mk_lin(k, M[ps]) for ps, k in strong.items() if bx not in M[ps]}
        if len(pos) * len(neg) > limit:
            return False
        for a in pos:
            for b in neg:
                p, n = M[a][bx], -M[b][bx]
                r = {}
                for x, m in a:
                    r[x] = r.get(x, 0) + m * n
                for x, m in b:
                    r[x] = r.get(x, 0) + m * p
                r = {x: m for x, m in r.items() if m}
                es.add(tighten(mk_lin(strong[a] * n + strong[b] * p, r)))
        if len(es) > limit:
            return False


def coef(e, x):
    for y, m in lin_parts(e)[1]:
        if y is x:
            return m
    return 0


def tighten(e):
    """divide by the common factor, rounding the constant down"""
    from math import gcd
    k, ps = lin_parts(e)
    g = 0
    for _, m in ps:
        g = gcd(g, abs(m))
    if g > 1:
        return mk_lin(k // g, {x: m // g for x, m in ps})
    return e


# ------------------------------------------------------------------------------------------------ loops
def involved(eng, goals, factss):
    """what changes in loops and has to do with the goals"""
    ph = set()
    for g in goals:
        ph |= {y for y in subterms(g) if y.op == "phi"}
    vs = set()
    for g in goals:
        vs |= set(vars_of([g]))
    for facts in factss:
        for k in facts:
            if k.op == "op" and k.a[0] in ("Lt", "Le", "Eq"):
                w = set(vars_of([sub(k.a[1], k.a[2])]))
                if {uncast(x) for x in w} & {uncast(x) for x in vs} or w & ph:
                    ph |= {y for x in w for y in [uncast(x)] if y.op == "phi"}
    todo = list(ph)
    while todo:
        p = todo.pop()
        for v in eng.phiops.get(p, ()):
            for y in ([v] if v.op == "phi" else [x for x in subterms(v) if x.op == "phi"]):
                if y not in ph:
                    ph.add(y)
                    todo.append(y)
    mps = {p.a[0] for p in ph}
    if len(mps) <= 80:
        # what counts along with them
        for mp in mps:
            for m, fa in eng.meets.get(mp, ()):
                ph |= {p for p, v in m.items() if v.op in ("c", "lin", "len", "phi") and all(number(w) for q, _ in eng.meets[mp] for w in [q.get(p, v)])}
    return ph


def number(v):
    return v.op in ("c", "lin", "len") and not (v.op == "c" and isinstance(v.a[0], bool)) or v.op == "phi"


def invariants(eng, pairs, goals, ph):
    """inequalities between what changes in loops (and what is given) that hold each time round: candidates are dropped until
    the rest is kept by every way into and round every loop"""
    # a place whose name depends on a loop need not exist on every way: it says nothing about the loop
    meets = {mp: [({p: v for p, v in m.items() if not any(y.op == "phi" for y in subterms(p) if y is not p)}, fa) for m, fa in rows] for mp, rows in (eng.meets or {}).items()}
    phis = {}
    for mp, rows in meets.items():
        for m, fa in rows:
            for x in m:
                if x in ph:
                    phis.setdefault(mp, set()).add(x)
    base = set()
    for g in goals:
        for x, _ in lin_parts(g)[1]:
            base.add(x)
    cand = {}
    for mp, ps in phis.items():
        rows = meets[mp]
        qs = set()
        lens = set()
        for p in ps:
            vals = [m[p] for m, fa in rows if p in m]
            if any(v.op in ("vset", "vpush", "vins", "vrem", "vresize", "vsized", "vnew", "vrep", "vclone") for v in vals) or p.op == "phi" and mk("len", p) in base:
                lens.add(p)
            elif all(v.op in ("c", "lin", "phi", "op", "fld", "len", "cast", "elem", "sym", "as", "it", "arg", "call", "deref") for v in vals):
                qs.add(p)
        q = {uncast(x) for x in qs} | {mk("len", p) for p in lens}
        inits = set()
        for p in ps:
            for m, fa in rows:
                if p in m and not contains(m[p], lambda y: y.op == "phi" and y.a[0] == mp):
                    v = m[p]
                    inits.add(v if p in qs else None if p not in lens else veclen(v))
        inits.discard(None)
        tops = {x for x in base if x not in q} | {x for x in inits if x.op != "c"}
        for g in goals:
            for x, _ in lin_parts(g)[1]:
                for y in subterms(x):
                    if y.op == "len":
                        tops.add(y)
        cs = set()
        for x in q:
            cs.add(x)
            cs.add(add(x, c(-1)))
            for y in tops | inits:
                for k in (0, -1):
                    cs.add(add(sub(y, x), c(k)))
                cs.add(sub(x, y))
            for y in q:
                if y is not x:
                    cs.add(sub(y, x))
                    cs.add(add(sub(y, x), c(-1)))
                    for z in tops | inits:
                        cs.add(sub(z, add(x, y)))
                        cs.add(add(sub(z, add(x, y)), c(1)))
                    for z in q:
                        if z is not x and z is not y:
                            cs.add(sub(z, add(x, y)))
                            cs.add(sub(add(x, y), z))
        cand[mp] = {e for e in cs if e.op != "c"}
    if DEBUG:
        print('cand', {k: len(v) for k, v in cand.items()}, {k: len(v) for k, v in meets.items()}, [show(g,6) for g in goals][:10], flush=True)
    # how what changes looks on each way
    uses_ = {}

    def phis_in(e):
        r = uses_.get(e)
        if r is None:
            r = uses_[e] = frozenset(y for x, _ in lin_parts(e)[1] for y in subterms(x) if y.op == "phi")
        return r
    rows = []
    for mp, cs in cand.items():
        born = {}
        for i, (m, fa) in enumerate(meets[mp]):
            for p, v in m.items():
                born.setdefault(p, (i, v))
        for i, (m, fa) in enumerate(meets[mp]):
            # before it became different, what changes was the same on both sides; afterwards, what is not listed is unchanged
            m = dict(m)
            there = {p for p, (j, v) in born.items() if p not in m and j < i}
            for p, (j, v) in born.items():
                if j > i:
                    m[p] = v
            for v in list(m.values()) + list(fa):
                there.update(y for y in subterms(v) if y.op == "phi")
            fa = {k: v for k, v in fa.items() if k.op in ("op", "isc")}
            rows.append((mp, {k: v for k, v in m.items()}, fa, there))
    alive = {mp: set(cs) for mp, cs in cand.items()}
    while True:
        dropped = False
        for mp, m, fa, there in rows:
            cs = alive[mp]
            if not cs:
                continue
            av = [e for q in alive.values() for e in q if phis_in(e) <= there]
            I = Ineq(fa, pairs, av)
            if I.dead:
                continue
            for e in sorted(cs, key=lambda t: t.id):
                if not I.holds(subst(e, m, {})):
                    cs.discard(e)
                    dropped = True
        if not dropped:
            return [e for cs in alive.values() for e in cs]


# ------------------------------------------------------------------------------------------------ goals
def goals_of(kind, args):
    """[(what must be >= 0, text)]"""
    v, i = args[0], args[1]
    n = veclen(v)
    if kind == "unchecked":
        return [(i, "an index below zero"), (add(sub(n, i), c(-1)), "an index at or past the end")]
    if kind == "uncheckedptr":
        return [(i, "a place before the start"), (sub(n, i), "a place past the end")]
    e = args[2]
    return [(i, "a start below zero"), (sub(e, i), "an end before the start"), (sub(n, e), "an end past the end of the list")]


class Obs(object):
    """what one run met"""

    def __init__(self):
        self.rows = {}      # (function with the access, node key) -> [(kind, args, facts, pairs, node)]
        self.calls = set()  # (caller, site) met on the way to accesses

    def add(self, eng, st, n, pairs):
        self.rows.setdefault(n.id, []).append((n.kind, n.args, dict(st.facts), pairs, n))


def search_fns(W):
    """functions that look for the place of a key in the list of a node's keys -> which argument is the list"""
    u = ("other", "usize")
    out = {}
    for f in W.p.fns.values():
        r = f.lty[0]
        if f.kind == "Closure" or r[0] != "adt" or r[1] != RESULT or r[2][0][0] != "adt" or r[2][0][1] != RESULT or r[2][0][2] != (u, u):
            continue
        ks = [i for i in range(f.argc) if f.lty[i + 1][0] == "ref" and f.lty[i + 1][2][0] == "slice" and f.lty[i + 1][2][1][0] == "adt" and f.lty[i + 1][2][1][1] == W.adt("Offset")]
        if len(ks) == 1:
            out[f.d] = ks[0]
    return out


def below(a, b):
    return mk("op", "Lt", a, b)


class Searching(object):
    """the contract of the search, used by its callers"""

    def h_search(self, eng, st, ctx, site, f, sub, args, t):
        v = eng.load(st, args[self.search[f.d]])
        i, j = mk("sym", "found", ctx.id, str(site)), mk("sym", "slot", ctx.id, str(site))
        s2, s3 = st.fork(), st.fork()
        e = eng.fresh(s3, ctx, site, "err")
        eng.event(st, ctx, site + (0,), "search", f.name, (v,), sp=t["sp"])
        eng.event(s2, ctx, site + (1,), "search", f.name, (v,), sp=t["sp"])
        eng.event(s3, ctx, site + (2,), "searcherr", f.name, (), sp=t["sp"])
        st.facts[below(i, veclen(v))] = 1
        s2.facts[below(veclen(v), j)] = 0
        if isinstance(s3.trk, frozenset):
            s3.trk = frozenset({("failed",)})
        return [(ok(ok(i)), st), (ok(err(j)), s2), (err(e), s3)]


class Bounds(Tree, Searching):
    def __init__(self, W, roles, role, fn, search):
        self.search = search
        self.obs = Obs()
        super().__init__(W, roles, role, fn)

    def more(self):
        return {"unchecked": True, "meets": True}

    def hooks(self):
        return {d: self.h_search for d in self.search}

    def setup(self, eng, st, av):
        super().setup(eng, st, av)
        if self.role == "max":
            # only nodes below another one are searched for their last key, and those have keys
            st.facts[below(c(0), veclen(mk("sym", "keys0")))] = 1

    def step(self, eng, st, n):
        if n.kind in KINDS27 and ("failed",) not in st.trk:
            L = self.known(st)
            if not L.dead:
                self.obs.add(eng, st, n, L.pairs)

    def finish(self):
        pass


class Slots(Beans):
    """the functions of the cache; the positions that its index answers are positions in its list"""

    def __init__(self, W, C, f, role):
        self.obs = Obs()
        super().__init__(W, C, f, role)

    def more(self):
        return {"unchecked": True, "meets": True}

    def step(self, eng, st, n):
        if n.kind in KINDS27 and ("failed",) not in st.trk:
            s = st.fork()
            if ("clear",) not in st.trk:
                for y in st.trk:
                    if y[0] == "at":
                        s.facts[below(y[2], veclen(self.v0))] = 1
            self.obs.add(eng, s, n, {})

    def finish(self):
        super().finish()
        self.kept = []
        for r, st in self.eng.exits:
            V = self.eng.get(st, *self.at)
            good = all(B is self.v0 or B.op == "vnew" and (B is V or ("clear",) in st.trk) for B in grown(self.eng, V))
            self.kept.append((good, self.eng.nodes[max(st.last)] if st.last else None))


def grown(eng, V):
    """what a list was before entries of it were replaced or added at its end"""
    out, todo, seen = set(), [V], set()
    while todo:
        B = todo.pop()
        while B.op in ("vset", "vpush"):
            B = B.a[0]
        if B in seen:
            continue
        seen.add(B)
        if B.op == "phi" and B in eng.phiops:
            todo += eng.phiops[B]
        else:
            out.add(B)
    return out


class Local(Searching):
    """one function on its own, nothing known about what it is given"""

    def __init__(self, W, f, search, hooks=None):
        self.search = {d: k for d, k in search.items() if d != f.d}
        self.obs = Obs()
        o = {"unchecked": True, "meets": True, "hook": {d: self.h_search for d in self.search}}
        o["hook"].update(hooks or {})
        self.eng = W.run("local:" + f.name, f, {}, self.step, frozenset(), None, o)

    def step(self, eng, st, n):
        if n.kind in KINDS27:
            self.obs.add(eng, st, n, {})


def judge(eng, obs, extra=None):
    """{node id: (good, text)}"""
    todo = []
    res = {}
    for nid, rows in obs.rows.items():
        res[nid] = (True, "")
        for kind, args, facts, pairs, n in rows:
            if kind == "rawderef":
                res[nid] = (False, "an access through a pointer that is not known to point into a list")
                continue
            todo.append((nid, kind, args, facts, pairs))
    open_ = []
    for nid, kind, args, facts, pairs in todo:
        I = Ineq(facts, pairs, extra(args, facts) if extra else ())
        if I.dead:
            continue
        for g, text in goals_of(kind, args):
            if not I.holds(g):
                open_.append((nid, g, text, facts, pairs, args))
    if open_:
        pairs = {}
        for x in open_:
            pairs.update(x[4])
        gs = [Lin(x[3], x[4]).lin(x[1]) for x in open_]
        ph = involved(eng, gs, [x[3] for x in open_])
        inv = invariants(eng, pairs, gs, ph) if ph else []
        for nid, g, text, facts, pairs, args in open_:
            I = Ineq(facts, pairs, inv + list(extra(args, facts) if extra else ()))
            if not I.holds(g):
                res[nid] = (False, "%s: %s (list %s)" % (text, show(g, 5), show(args[0], 4)))
    return res


# ------------------------------------------------------------------------------------------------ the whole crate
UNSAFE = ("get_unchecked", "get_unchecked_mut", "from_raw_parts", "from_raw_parts_mut")
STRANGE = ("set_len", "copy_nonoverlapping", "copy_to", "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping", "write_bytes", "swap_unchecked", "split_at_unchecked",
           "split_at_mut_unchecked", "offset_from", "read_unaligned", "write_unaligned", "read_volatile", "write_volatile", "slice_unchecked", "wrapping_add_ptr", "from_utf8_unchecked_mut")


def uses(f):
    """(does it access lists unchecked, constructs that are not understood)"""
    u, s = False, set()
    for b in f.bbs:
        t = b["t"]
        if t["k"] == "call" and t["f"].get("k") == "fn":
            d = t["f"]["d"]
            nm = d.split("::")[-1]
            if not (d.startswith("core::") or d.startswith("alloc::") or d.startswith("std::")):
                continue
            inptr = "::ptr::" in d
            if nm in UNSAFE or inptr and nm in ("add", "offset"):
                u = True
            elif nm in STRANGE or inptr and nm in ("sub", "read", "write", "replace", "swap", "copy", "byte_add", "byte_sub", "wrapping_add", "wrapping_sub", "wrapping_offset", "as_ref", "as_mut", "drop_in_place"):
                s.add(nm)
    if any(t[0] == "ptr" for t in f.lty) and raw_places(f):
        u = True
    return u, s


def raw_places(f):
    """is a raw pointer followed anywhere in f?"""
    raw = {i for i, t in enumerate(f.lty) if t[0] == "ptr"}

    def walk(x):
        if isinstance(x, list):
            if len(x) >= 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and x[0] in raw and x[1] == "*":
                return True
            return any(walk(y) for y in x)
        if isinstance(x, dict):
            return any(walk(y) for y in x.values())
        return False
    return any(walk(b) for b in f.bbs)


def site_block(s):
    while isinstance(s, tuple):
        s = s[0]
    return s


def call_sites(W, d):
    """(caller, block) of every call of d"""
    out = []
    for g in W.p.fns.values():
        for i, b in enumerate(g.bbs):
            t = b["t"]
            if t["k"] == "call" and t["f"].get("k") == "fn" and d in (t["f"]["d"], t["f"].get("r")):
                out.append((g, i))
    return out


def P27(W, R):
    R.rule("P27.index", "an unchecked access to a list has an index inside the list (or, for a part of it, bounds in order and inside)")
    R.rule("P27.search", "the search for a key in a list answers a position in it, or one up to its length to insert at")
    R.rule("P27.cache", "the positions that the cache's index answers are positions in its list of entries: the list only grows, or is emptied together with the index")
    R.rule("P27.sites", "each unchecked access is shown to be inside for every call of its function")
    search = search_fns(W)
    runs = []

    def add_run(a):
        runs.append((a, judge(a.eng, a.obs)))
        return runs[-1]
    roles = Roles(W)
    for role, f in roles.roots:
        add_run(Bounds(W, roles, role, f, search))
    C = Cache(W) if W.adt("NodeCache", True) else None
    if C is not None:
        for role in ("get", "size", "drop", "put", "flush"):
            for d in sorted(getattr(C, role)):
                a = Slots(W, C, W.p.fns[d], role)
                add_run(a)
                for good, n in a.kept:
                    R.check(good, "P27.cache", a.f.name, "%s: changes the list of entries of the cache in a way that can leave positions of the index outside" % a.f.name, n, a.eng)
                for (rule, site), (good, text, n) in a.res.items():
                    if site.endswith(":place") or role == "flush":
                        R.check(good, "P27.cache", a.f.name + " position", "%s: %s" % (a.f.name, text), n, a.eng)
    # the search itself
    for d, k in sorted(search.items()):
        f = W.p.fns[d]
        a = Local(W, f, search)
        add_run(a)
        n = 0
        v = None
        for r, st in a.eng.exits:
            if a.eng.variant(st, r) == 1:
                continue
            n += 1
            x = a.eng.payload(r, 0)
            K = a.eng.load(st, a.eng.args[k])
            goals = []
            vs = a.eng.variant(st, x)
            if vs != 1:
                goals.append((add(sub(veclen(K), a.eng.payload(x, 0)), c(-1)), "found"))
            if vs != 0:
                goals.append((sub(veclen(K), a.eng.payload(x, 1)), "not found"))
            for g, what in goals:
                good = proved(a.eng, g, st.facts)
                R.check(good, "P27.search", f.name + " " + what, "%s: answers a position (%s) that is not shown to be in the list: %s" % (f.name, what, show(g, 5)),
                        a.eng.nodes[max(st.last)] if st.last else None, a.eng)
        R.floor("P27.search", n, 1, "ways to an answer of " + f.name)
    # every access, under every call of its function
    users = []
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        u, s = uses(f)
        for nm in sorted(s):
            R.bad("P27.sites", short(f.d) + " " + nm, "%s uses %s, whose bounds are not analysed" % (f.name, nm))
        if u:
            users.append(f)
    local = {}

    def alone(g):
        if g.d not in local:
            a = Local(W, g, search)
            met = {}
            for nid, (good, text) in judge(a.eng, a.obs).items():
                x = a.eng.nodes[nid].ctx
                f = x.fn.d
                met.setdefault((f, None), []).append(good)
                while x is not None and x.parent is not None:
                    met.setdefault((f, (x.parent.fn.d, site_block(x.csite))), []).append(good)
                    x = x.parent
            local[g.d] = met
        return local[g.d]

    def safe(g, f, site=None):
        """the accesses of f that g on its own meets (through a call) are inside, and there are some"""
        got = alone(g).get((f.d, site), ())
        return bool(got) and all(got)
    roots27 = {x.fn.d for x, r in runs if isinstance(x, Bounds)}
    seen = {}
    for a, r in runs:
        for nid, (good, text) in r.items():
            n = a.eng.nodes[nid]
            w = short(n.ctx.fn.d)
            R.check(good, "P27.index", w, "%s, reached from %s: %s" % (w, a.eng.label, text), n, a.eng)
            x = n.ctx
            while x is not None and x.parent is not None:
                seen.setdefault(n.ctx.fn.d, set()).add((x.parent.fn.d, site_block(x.csite)))
                x = x.parent
            seen.setdefault(n.ctx.fn.d, set()).add((None, a.eng.label))
    nsite = 0
    for f in users:
        if f.d in {a.f.d for a, r in runs if isinstance(a, Slots)} or f.d in search or f.d in {a.fn.d for a, r in runs if isinstance(a, Bounds)}:
            R.check(f.d in seen, "P27.sites", short(f.d), "%s: its unchecked access was not met on any way through it" % f.name)
            nsite += 1
            continue
        if safe(f, f):
            R.ok("P27.sites", short(f.d))
            nsite += 1
            continue
        todo, done = [(f, 0)], set()
        while todo:
            g, up = todo.pop()
            if g.d in done:
                continue
            done.add(g.d)
            calls = call_sites(W, g.d)
            if not calls and g.kind == "Closure":
                calls = [(h, None) for h in W.p.fns.values() if h.d == g.d.rsplit("::{closure", 1)[0]]
            if not calls:
                R.bad("P27.sites", short(f.d) + " " + short(g.d), "an unchecked access in %s is not shown to be inside whatever %s is given" % (f.name, g.name))
            for h, b in calls:
                nsite += 1
                good = (h.d, b) in seen.get(f.d, ()) or safe(h, f, (h.d, b))
                if not good and (h.kind == "Closure" or up < 2 and h.d not in roots27):
                    todo.append((h, up if h.kind == "Closure" else up + 1))
                    continue
                R.check(good, "P27.sites", short(f.d) + " from " + short(h.d), "an unchecked access in %s is not shown to be inside when it is called from %s" % (f.name, h.name))
    R.floor("P27.sites", nsite, 10, "functions with unchecked accesses and calls of them")
    R.floor("P27.index", sum(len(r) for a, r in runs), 30, "unchecked accesses met")


def proved(eng, g, facts, pairs={}):
    I = Ineq(facts, pairs)
    if I.dead or I.holds(g):
        return True
    gs = [I.L.lin(g)]
    ph = involved(eng, gs, [facts])
    if not ph:
        return False
    return Ineq(facts, pairs, invariants(eng, pairs, gs, ph)).holds(g)
