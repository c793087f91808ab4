"""P15: a bulk operation equals its single operations in the given order."""
from core import *
from models import counts_from_zero, iter_pos, elem, veclen
from terms import *
from rules_rec import CONV, is_kt

IN = mk("bulkitem")          # the element of the given list
INDEX = mk("bulkindex")      # its position
RES = mk("bulkres")          # what the single operation answered for it


class Seq(object):
    """a list that holds one entry for each element of the given list.
    tmpl: what the entry is of its element; pos: same | rev | perm (place in the list against the place in the given list);
    eq: fwd | rev | any (elements that are the same key come in the given order, the opposite one, in any)"""

    def __init__(self, tmpl, pos, eq, done=False):
        self.tmpl, self.pos, self.eq, self.done = tmpl, pos, eq, done

    def key(self):
        return (self.tmpl, self.pos, self.eq)

    def turn(self):
        r = {"same": "rev", "rev": "same", "fwd": "rev"}
        return Seq(self.tmpl, r.get(self.pos, self.pos), {"fwd": "rev", "rev": "fwd"}.get(self.eq, self.eq))


def merge(qs):
    """what a list is that is one of these, or grows by one after the other"""
    if any(q is None for q in qs):
        return None
    qs = [q for q in qs if not q.done]
    if len({(q.pos, q.eq) for q in qs}) != 1:
        return None if qs else EMPTY
    t = {x for q in qs for x in (q.tmpl.a if q.tmpl.op == "alt" else (q.tmpl,))}
    return Seq(list(t)[0] if len(t) == 1 else mk("alt", *sorted(t, key=lambda x: x.id)), qs[0].pos, qs[0].eq)


EMPTY = Seq(None, "same", "fwd", True)


class Bulk(object):
    def __init__(self, W, lab, f, sub, op):
        self.W, self.f, self.op = W, f, op
        self.walks = {}          # walk -> {(iterator, item)}
        self.fed = {}            # list entry (as pushed) -> set of (walk, results known to be None)
        self.ran = {}            # walk -> set of (single operations done, entries pushed) in one round
        self.flat = {}           # list entry (as pushed) -> the same with what references in it lead to
        self.res = set()         # answers of the single operation
        self.raw, self.calls = [], []
        self.none = {}           # label -> what was found to be None (or Ok) under that label
        self.memo, self.smemo, self.nmemo, self.n1memo = {}, {}, {}, {}
        self.eng = W.run(lab, f, sub, self.step, ("", 0, 0, frozenset(), "", frozenset()), None, {"iterev": True, "pushev": True, "cmpwhole": True, "refjoin": True, "learn": self.learn})
        self.what = {}           # part of the item of a walk -> the walk
        for L, w in self.walks.items():
            for it, res in w:
                e = self.entry(it)
                if e is not None:
                    self.what[e] = (L, it, res)
        for n, name, a, L in self.raw:
            self.calls.append((n, name, [self.norm(x) for x in a], L))

    # state: (walk, operations, entries pushed, walks run to the end, mode, what was found to be None)
    def step(self, eng, st, n):
        L, r, p, fin, mode, no = st.trk
        if n.kind == "next":
            here = (n.ctx.id, str(n.sp))
            if L:
                self.ran.setdefault(L, set()).add((r, p))
            if n.name == "some":
                self.walks.setdefault(here, set()).add((self.held(eng, st, n.args[0]), flat(eng, st, n.res)))
                st.trk = (here, 0, 0, fin, mode, frozenset())
            elif n.name == "none":
                w = frozenset(x for x in fin if x[0] != here) | {(here, L == here)}
                st.trk = ("", 0, 0, w, mode, frozenset())
            else:
                # an element that a filter passes over
                self.ran.setdefault(here, set()).add((0, 0))
                self.walks.setdefault(here, set()).add((mk("passed"), None))
        elif n.kind == "rec" and is_kt(self.W.p.fns[n.name]):
            self.raw.append((n, self.W.p.fns[n.name].name, [eng.load(st, x) if x.op == "ref" else x for x in n.args[1:]], L))
            st.trk = (L, min(r + 1, 2), p, fin, mode, no)
        elif n.kind == "recok" and is_kt(self.W.p.fns[n.name]):
            if n.res is not None:
                self.res.add(n.res)
        elif n.kind == "recerr" and is_kt(self.W.p.fns[n.name]):
            st.trk = (L, r, p, fin, "failed", no)
        elif n.kind == "push":
            x = n.args[1]
            self.flat.setdefault(x, set()).add(flat(eng, st, x))
            self.fed.setdefault(x, set()).add((L, no if x is NONE else frozenset()))
            st.trk = (L, r, min(p + 1, 2), fin, mode, no)

    def learn(self, eng, st, t, v):
        if t.op == "discr" and v == 0 and st.trk[0]:
            x = t.a[0]
            k = (x.op, x.a[1] if x.op == "phi" else None)
            self.none.setdefault(k, set()).add(x)
            st.trk = st.trk[:5] + (st.trk[5] | {k},)

    def held(self, eng, st, it):
        """the iterator with the lists in place of references to them"""
        if it.op != "it":
            return it
        if it.a[0] == "slice":
            return mk("it", "vec", eng.load(st, it.a[1]), it.a[2])
        return mk("it", *[self.held(eng, st, x) if isinstance(x, T) and x.op == "it" else x for x in it.a])

    # ---- lists
    def entry(self, it, back=False):
        """the entry of its list that an iterator yields next"""
        kd = it.a[0] if it.op == "it" else None
        if kd in ("vec", "svals", "op"):
            v = it.a[1]
            return elem(v, it.a[2] if not back else sub(add(veclen(v), c(-1)), it.a[2]))
        if kd == "pop":
            v = it.a[1]
            return elem(v, add(veclen(v), c(-1)))
        if kd == "rev":
            return self.entry(it.a[1], not back)
        if kd in ("enumerate", "map", "cloned", "copied", "inspect"):
            return self.entry(it.a[1], back)
        return None

    def chain(self, it, back=False):
        """the sequence that an iterator walks"""
        kd = it.a[0] if it.op == "it" else None
        if kd in ("vec", "svals", "op", "pop"):
            q = self.seq(it.a[1], kd == "pop")
            return q.turn() if q is not None and back != (kd == "pop") else q
        if kd == "rev":
            return self.chain(it.a[1], not back)
        if kd in ("enumerate", "map", "cloned", "copied", "inspect"):
            return self.chain(it.a[1], back)
        return None

    def walk(self, L):
        """the sequence that a walk goes through, or None"""
        if L in self.smemo:
            return self.smemo[L]
        self.smemo[L] = None
        out = {}
        for it, res in self.walks.get(L, ()):
            q = self.chain(it)
            if q is not None and it.a[0] != "pop" and not counts_from_zero(self.eng, iter_pos(it)):
                q = None
            if q is None:
                return None
            if not q.done:
                t = self.norm(res)
                out[(t, q.pos, q.eq)] = Seq(t, q.pos, q.eq)
        r = list(out.values())[0] if len(out) == 1 else None if out else EMPTY
        self.smemo[L] = r
        return r

    def seq(self, v, popping=False, seen=()):
        key = (v, popping)
        if not seen and key in self.memo:
            return self.memo[key]
        r = self.seq_(v, popping, seen)
        if not seen and r is not None:
            self.memo[key] = r
        return r

    def seq_(self, v, popping, seen):
        if v.op == "vnew":
            return EMPTY
        if v.op == "deref" and v.a[0].op == "arg":
            return Seq(IN, "same", "fwd")
        if v.op in ("vcloned", "vcoll"):
            return self.seq(v.a[0], False, seen)
        if v.op == "vrev":
            q = self.seq(v.a[0], False, seen)
            return q.turn() if q else None
        if v.op == "vsorted":
            q = self.seq(v.a[0], False, seen)
            return self.sorted_(v, q) if q is not None else None
        if v.op == "hv" or v.op == "deref" and v.a[0].op == "rf":
            return self.seq(v.a[0], popping, seen)
        if v.op == "vpush":
            q = self.pushed(v.a[1])
            b = EMPTY if v.a[0] in seen else self.seq(v.a[0], False, seen)
            return merge([b, q])
        if v.op == "vset":
            # a place for each element, filled by number
            x = v.a[2]
            q = self.pushed(x.a[1] if x.op == "weak" and x.a[0] is elem(v.a[0], v.a[1]) else x)
            b = EMPTY if v.a[0] in seen else self.seq(v.a[0], False, seen)
            if q is None or q.done or self.norm(v.a[1]) is not INDEX:
                return None
            return merge([b, Seq(q.tmpl, "same", "fwd")])
        if v.op == "vrep":
            n = v.a[1]
            q = self.seq(n.a[0]) if n.op == "len" else None
            return EMPTY if q is not None and not q.done else None
        if v.op == "vrem" and popping and v.a[1] is add(veclen(v.a[0]), c(-1)):
            return self.seq(v.a[0], True, seen)
        if v.op == "phi":
            if v in seen:
                return EMPTY
            return merge([self.seq(row[v], popping, seen + (v,)) for row in self.eng.rows.get(v.a[0], ()) if v in row and row[v] is not v])
        return None

    def pushed(self, x):
        """the sequence that a list fed with x in each round of a walk becomes"""
        f = self.fed.get(x)
        if not f:
            return None
        Ls = {L for L, n in f}
        if len(Ls) != 1 or "" in Ls:
            return None
        q = self.walk(list(Ls)[0])
        if q is None or q.done:
            return q
        ts = {self.norm(y) for y in self.flat[x]}
        if len(ts) != 1:
            return None
        t = list(ts)[0]
        if t is NONE and not all(any(all(self.norm(y) is RES for y in self.none[k]) for k in n) for L, n in f):
            return None
        return Seq(t, q.pos, q.eq)

    def sorted_(self, v, q):
        if q.done:
            return q
        key, stable = v.a[1], v.a[2] == "stable"
        by = []

        def part(x):
            """the component of the entry that x is, as (side, template)"""
            e = {y for y in subterms(x) if y.op == "elem" and y.a[0] is v.a[0] and y.a[1].op == "idx"}
            side = {y.a[1].a[0] for y in e}
            if len(e) != 1:
                return None, None
            return list(side)[0], self.norm(subst(x, {list(e)[0]: q.tmpl}, {}))

        def read(t, turned):
            if t.op == "call" and t.a[0] == "cmp":
                a, x = part(t.a[1])
                b, y = part(t.a[2])
                if a is None or b is None or a == b or x is not y:
                    return False
                by.append((x, (a == "sa") != turned))
                return True
            if t.op == "call" and t.a[0] == "cmprev":
                return read(t.a[1], not turned)
            if t.op == "call" and t.a[0] == "cmpthen":
                return read(t.a[1], turned) and read(t.a[2], turned)
            return False
        if key is UNIT or key.op == "tup" and not key.a:
            parts = q.tmpl.a if q.tmpl.op == "tup" else (q.tmpl,)
            by = [(x, True) for x in parts]
        elif key.op == "tup" and len(key.a) == 1:
            k = key.a[0]
            if not read(k, False):
                # by a key
                by = []
                turned = k.op == "adt" and str(k.a[0]).endswith("Reverse")
                s, x = part(k.a[2] if turned else k)
                if s is None:
                    return None
                by = [(x, not turned)]
        else:
            return None
        first, up = by[0]
        if first is INDEX:
            return Seq(q.tmpl, "same" if up else "rev", "fwd" if up else "rev")
        rest = by[1:]
        if not self.is_key(first):
            return Seq(q.tmpl, "perm", "any")
        if rest:
            if rest[0][0] is INDEX:
                return Seq(q.tmpl, "perm", "fwd" if rest[0][1] else "rev")
            return Seq(q.tmpl, "perm", "any")
        return Seq(q.tmpl, "perm", q.eq if stable else "any")

    # ---- entries
    def norm(self, t):
        """t with the copies and the variables that always are the same taken off; None in it means: not known"""
        r = self.nmemo.get(t)
        if r is None:
            r = t
            for _ in range(6):
                u = self.norm1(r, ())
                if u is r:
                    break
                r = u
            self.nmemo[t] = r
        return r

    def in_place(self, x, seen):
        """x is an entry, at its place, of a list in the given order"""
        q = self.seq(x.a[0]) if x.op == "elem" else None
        return q is not None and q.pos == "same" and not q.done

    def norm1(self, t, seen):
        r = self.n1memo.get(t)
        if r is None:
            r = self.norm2(t, seen)
            if not seen or not any(x.op in ("phi", "elem", "enum") for x in subterms(r)):
                self.n1memo[t] = r
        return r

    def norm2(self, t, seen):
        t = simplify(self.eng, t)
        m = {}
        for x in subterms(t):
            if x in self.res:
                m[x] = RES
            elif x in self.what and x not in seen:
                q = self.chain(self.what[x][1])
                if q is not None and q.tmpl is not None:
                    m[x] = q.tmpl
            elif x.op == "enum" and self.in_place(x.a[1], seen):
                m[x] = INDEX
            elif x.op == "phi" and x not in seen:
                vals = {row[x] for row in self.eng.rows.get(x.a[0], ()) if x in row and row[x] is not x}
                ns = {self.norm1(y, seen + (x,)) for y in vals}
                if len(ns) == 1 and not any(y.op == "phi" for z in ns for y in subterms(z)):
                    m[x] = list(ns)[0]
            elif x.op == "elem":
                q = self.seq(x.a[0])
                if q is not None and q.tmpl is not None:
                    m[x] = q.tmpl
        u = subst(t, m, {}) if m else t
        return simplify(self.eng, u)

    def is_key(self, t):
        """a term made of nothing but the key of the element"""
        t = plain(t)
        if self.op == "put":
            return t.op == "fld" and t.a[1] == 0 and plain(t.a[0]) is IN
        return t is IN

    def is_value(self, t):
        t = plain(t)
        return t.op == "fld" and t.a[1] == 1 and plain(t.a[0]) is IN


def flat(eng, st, t):
    """t with what its references lead to"""
    if t is None:
        return None
    if t.op == "ref":
        return mk("rf", flat(eng, st, eng.load(st, t)))
    if t.op == "tup":
        return mk("tup", *[flat(eng, st, x) for x in t.a])
    return t


def simplify(eng, t):
    """take components out of tuples again; what is behind a shared reference stays the same"""
    m = {x: x.a[0] for x in subterms(t) if x.op == "hv" or x.op == "deref" and x.a[0].op == "rf"}
    for x in subterms(t):
        if x.op == "ref" and x.a[0].op not in ("loc", "alloc"):
            y = mk("deref", x.a[0])
            for e in x.a[1]:
                y = eng.proj(y, e)
            m[x] = mk("rf", y)
    if m:
        t = subst(t, m, {})
    m = {}
    for x in subterms(t):
        if x.op == "fld" and x.a[0].op == "tup" and isinstance(x.a[1], int) and x.a[1] < len(x.a[0].a):
            m[x] = x.a[0].a[x.a[1]]
    return subst(t, m, {}) if m else t


def plain(t):
    """what t is a copy, a reference or a conversion of"""
    for _ in range(12):
        if t.op in ("deref", "cptr", "hv", "rf"):
            u = t.a[0]
        elif t.op == "cast":
            u = t.a[1]
        elif t.op == "call" and str(t.a[0]).split("::")[-1].split(":")[0] in CONV and len(t.a) == 2:
            u = t.a[1]
        elif t.op == "adt" and len(t.a) == 3 and t.a[0] not in (RESULT, OPTION):
            u = t.a[2]
        else:
            return t
        t = u
    return t


def answer_ok(t, string):
    """the entry is the answer of the single operation (as text in the string forms)"""
    ts = set(t.a) if t.op == "alt" else {t}
    if ts == {RES}:
        return not string
    if NONE not in ts or len(ts) != 2:
        return ts == {RES}
    x = [y for y in ts if y is not NONE][0]
    if x.op == "adt" and x.a[0] == OPTION and x.a[1] == 1:
        p = plain(x.a[2])
        return p.op == "fld" and p.a[0].op == "as" and p.a[0].a[0] is RES
    return False


WANT = {"get": "get_kt", "put": "put_kt", "delete": "del_kt"}


def P15(W, R):
    R.rule("P15.each", "the single operation is applied exactly once to every element of the list, in one walk over the whole list")
    R.rule("P15.args", "it is given the key, and in put the value, of that element")
    R.rule("P15.order", "put and delete take elements with the same key in the given order")
    R.rule("P15.place", "the answers come back in the places of their elements, unchanged")
    R.rule("P15.error", "an error of a single operation is returned")
    n = 0
    for lab, f, sub in W.public_ops(base=False, safe=False, check=False, iters=False):
        base = f.name[:-7] if f.name.endswith("_string") else f.name
        if not base.startswith("bulk_") or base[5:] not in WANT:
            continue
        n += 1
        op = base[5:]
        B = Bulk(W, lab, f, sub, op)
        key = lab
        work = {L for _, _, _, L in B.calls}
        R.check(work and "" not in work, "P15.each", key + " works", "%s does not apply the single operation in a walk over its list" % f.name, None, B.eng)
        for L in sorted(work - {""}):
            rounds = B.ran.get(L, set())
            R.check({r for r, p in rounds} == {1}, "P15.each", key + " once", "%s: a round of the walk over the list applies the single operation %s times" % (f.name, " or ".join(sorted({str(r) if r < 2 else "two or more" for r, p in rounds}))), None, B.eng)
            q = B.walk(L)
            whole = q is not None and not q.done
            R.check(whole, "P15.each", key + " whole", "%s: the list that is walked is not shown to hold every given element exactly once" % f.name, None, B.eng)
            if whole and op != "get":
                R.check(q.eq == "fwd", "P15.order", key, "%s: elements with the same key are not taken in the given order (%s)" % (f.name, {"rev": "in the opposite one", "any": "in any order"}[q.eq] if q.eq != "fwd" else ""), None, B.eng)
        for nd, name, a, L in B.calls:
            R.check(name == WANT[op], "P15.args", key + " operation", "%s applies %s" % (f.name, name), nd, B.eng)
            good = len(a) > 0 and B.is_key(a[0])
            R.check(good, "P15.args", key + " key", "%s: the single operation is given %s as the key" % (f.name, show(a[0], 5) if a else "nothing"), nd, B.eng)
            if op == "put":
                R.check(len(a) > 1 and B.is_value(a[1]), "P15.args", key + " value", "%s: the single operation is given %s as the value" % (f.name, show(a[1], 5) if len(a) > 1 else "nothing"), nd, B.eng)
        oks = 0
        for r, st in B.eng.exits:
            fin, mode = st.trk[3], st.trk[4]
            isok = not (r.op == "adt" and r.a[0] == RESULT and r.a[1] == 1)
            if mode == "failed":
                R.check(not isok, "P15.error", key, "%s answers success after a single operation failed" % f.name, None, B.eng)
                continue
            if not isok:
                continue
            oks += 1
            done = [x for x in fin if x[0] in work]
            empty = known_empty(B, st)
            R.check(bool(done) or empty, "P15.each", key + " end", "%s can answer success before the walk over the list is at its end" % f.name, None, B.eng)
            if op == "put":
                continue
            q = B.seq(r.a[2]) if r.op == "adt" else None
            good = q is not None and (q.done and (empty or any(not x[1] and B.walk(x[0]) is not None for x in fin)) or not q.done and q.pos == "same" and answer_ok(q.tmpl, f.name.endswith("_string")))
            R.check(good, "P15.place", key, "%s: the list it answers with is not shown to be the answers in the places of their elements%s" % (f.name, " (%s, %s)" % (q.pos, show(q.tmpl, 5)) if q is not None and q.tmpl is not None else ""), None, B.eng)
        R.check(oks > 0, "P15.each", key + " success", "%s has no way to answer success" % f.name, None, B.eng)
        # every list that is filled in a walk gets one entry in each round
        for L, rounds in sorted(B.ran.items()):
            ps = {p for r, p in rounds}
            R.check(ps in ({0}, {1}), "P15.each", key + " lists", "%s: some rounds of a walk add %s entries to a list" % (f.name, " or ".join(str(p) for p in sorted(ps))), None, B.eng)
    R.floor("P15.each", n, 6, "bulk operations")


def known_empty(B, st):
    for k, v in st.facts.items():
        if k.op == "op" and k.a[0] in ("Eq", "Lt") and any(x is c(0) for x in k.a[1:]):
            x = k.a[2] if k.a[1] is c(0) else k.a[1]
            if (v == 1) == (k.a[0] == "Eq") and x.op == "len":
                q = B.seq(x.a[0])
                if q is not None and q.tmpl is not None and not q.done:
                    return True
    return False
