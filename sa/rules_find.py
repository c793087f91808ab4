"""P29: what the search inside one index node answers."""
from core import *
import layout, terms
from prog import Prog
from terms import *
from layout import strip, uncast
from rules_lists import drop, is_zero
from rules_rec import Ops, content, cmp_of, call_of, HOLD, VALF, record_fns, reaches

LOW, HIGH, HIT, AT, ENTRY, SMALLER, HERE, DONE = "low", "high", "hit", "at", "entry", "smaller", "here", mk("done")


def plain(t):
    """a number without the types around it"""
    while isinstance(t, T):
        u = strip(uncast(t))
        if u.op == "adt" and len(u.a) > 2 and isinstance(u.a[2], T) and u.a[2].op != "adt":
            u = u.a[2]
        if u is t:
            return t
        t = u
    return t


class Find(Ops):
    """low(e): e is 0 or the key before entry e compared less than the key searched for; high(e): e is the number of
    entries, or the key at entry e compared greater; hit(x): the key record x compared equal"""

    def options(self, o):
        Ops.options(self, o)
        o["relfacts"].update({LOW: self.low0, HIGH: self.high0, HIT: None, AT: None, ENTRY: None, SMALLER: None})
        o["relfacts"].update({HERE: lambda e, F, k: self.between(F, k.a[0]), DONE.op: lambda e, F, k: self.done(F)})
        o["relall"] = (LOW, HIGH, HERE)
        o["relnull"] = (DONE,)
        o["learn"] = self.saw

    def low0(self, eng, facts, k):
        x = plain(k.a[0])
        return x is c(0) or any(q.op == SMALLER and add(q.a[0], c(1)) is x for q, v in facts.items() if v == 1)

    def high0(self, eng, facts, k):
        x = plain(k.a[0])
        return x.op == "len" or (x in self.heads if self.preset is None else x in self.preset)

    def __init__(self, W, lab, fn, preset=None):
        self.preset = preset    # what is known to be the number of keys
        self.heads = set()      # what stands at a fixed place in the node
        self.width = {}         # where the table of keys starts -> widths of its entries
        self.found = []
        self.asked = 0
        Ops.__init__(self, W, lab, fn)

    def split(self, pos):
        """(start of the table, width, entry) of the place of an entry"""
        k, ps = lin_parts(plain(pos))
        one = [x for x, m in ps if m == 1]
        many = [(x, m) for x, m in ps if m > 1]
        if len(one) != 1 or not many or len({m for x, m in many}) != 1:
            return None
        w = many[0][1]
        if k % w:
            return None
        e = c(k // w)
        for x, m in many:
            e = add(e, x)
        return one[0], w, plain(e)

    def step(self, eng, st, n):
        for a in eng.lastacc:
            if a.pos is None or a.kind != "idx" or a.wr or a.val is None:
                continue
            v = plain(a.val)
            k, ps = lin_parts(plain(a.pos))
            if len(ps) == 1 and ps[0][1] == 1 and contains(ps[0][0], lambda y: y.op == "arg"):
                self.heads.add(v)
            st.facts[mk(AT, v, plain(a.pos))] = 1
            sp = self.split(a.pos)
            if sp:
                st.facts[mk(ENTRY, v, sp[2])] = 1
        Ops.step(self, eng, st, n)

    def saw(self, eng, st, t, v):
        p = cmp_of(t)
        if p is None or self.keyarg is None or p[0] is not self.key(eng):
            return
        if v not in (0, 1, 2):
            return
        self.asked += 1
        for k in list(st.facts):
            if k.op != HOLD or k.a[0] != "key" or k.a[2:4] != VALF or content(k.a[4]) is not p[1]:
                continue
            b = k.a[1]
            e = b.a[0] if b.op == "fld" else b
            at = [plain(e.a[1])] if e.op == "elem" else []
            at += [plain(x.a[1]) for x in st.facts if x.op == ENTRY and plain(x.a[0]) is plain(b)]
            for i in at:
                st.facts[mk((HIGH, HIT, SMALLER)[v], i)] = 1
            if v == 1:
                st.facts[mk(HIT, plain(b))] = 1

    def narrowed(self, F, i):
        """every key before entry i is smaller, every key from entry i on is larger (the keys of a node are sorted)"""
        return F.get(mk(HERE, plain(i))) == 1 or self.between(F, i)

    def between(self, F, i):
        if any(self.low(F, i) and self.upto(F, i, h) for h in self.highs(F)):
            return True
        k = mk(HIGH, plain(i))
        return (F.get(k) == 1 or self.high0(None, F, k)) and any(self.upto(F, x, i) for x in self.lows(F))

    def low(self, F, i):
        k = mk(LOW, plain(i))
        return F.get(k) == 1 or self.low0(None, F, k)

    def highs(self, F):
        out = [k.a[0] for k, v in F.items() if k.op == HIGH and v == 1]
        for k in F:
            for x in subterms(k):
                if self.high0(None, F, mk(HIGH, x)) and x not in out:
                    out.append(x)
        return out

    def upto(self, F, i, h):
        """entry h is entry i or before it"""
        i, h = plain(i), plain(h)
        if i is h:
            return True
        return F.get(mk("op", "Lt", i, h)) == 0 or F.get(mk("op", "Le", h, i)) == 1 or F.get(mk("op", "Lt", h, i)) == 1 or \
            F.get(mk("op", "Ge", i, h)) == 1 or F.get(mk("op", "Gt", h, i)) == 0 or F.get(mk("op", "Eq", i, h)) == 1 or F.get(mk("op", "Eq", h, i)) == 1

    def done(self, F):
        """no key is left that was not ruled out"""
        return F.get(DONE) == 1 or any(self.narrowed(F, i) for i in self.lows(F))

    def lows(self, F):
        return [c(0)] + [k.a[0] if k.op == LOW else add(k.a[0], c(1)) for k, v in F.items() if k.op in (LOW, SMALLER) and v == 1]

    counted = ()

    def exits(self):
        eng = self.eng
        rets = {n.name: n for n in eng.nodes if n.kind == "ret"}
        ex = [(r.a[2], r, s) for r, s in eng.exits if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 0]
        # the number of keys: what the table of children starts after
        self.counted = {x for p, r, s in ex for k in s.facts if k.op == ENTRY for x in [y for y, m in lin_parts(plain(k.a[1]))[1] if m == 1] if x in self.heads}
        for p, r, st in ex:
            n = rets.get(eng.retkey(st, r)) or next(x for x in eng.nodes if x.kind == "ret")
            if p.op != "adt" or p.a[0] != RESULT:
                self.say("found", n, False, "answers something that is not recognised")
                continue
            x = plain(p.a[2])
            if p.a[1] == 0:
                self.say("found", n, st.facts.get(mk(HIT, x)) == 1, "can answer a key that was not compared equal to the key searched for")
                continue
            hit = any(k.op == HIT and v == 1 for k, v in st.facts.items())
            at = [k.a[1] for k in st.facts if k.op == ENTRY and k.a[0] is x]
            if at:
                good = any(self.narrowed(st.facts, i) for a in at for i in self.child(a))
                self.say("between", n, good and not hit, "can answer a child that is not the one between the keys next to the key searched for")
            elif x is c(0) and not self.byindex:
                good = self.done(st.facts)
                self.say("between", n, good and not hit, "can answer that the key is not there with keys that were not ruled out")
            elif self.byindex:
                self.say("between", n, self.narrowed(st.facts, x) and not hit, "can answer another place than the one between the next smaller and the next larger key")
            else:
                self.say("between", n, False, "answers something that is not recognised")

    def child(self, e):
        """which child the entry at e of the table of keys and children is"""
        k, ps = lin_parts(plain(e))
        out = []
        for x, m in ps:
            if m == 1 and x in self.heads:
                out.append(plain(sub(e, x)))
        return out

    @property
    def byindex(self):
        t = self.fnroot.lty[0][2][0]
        return t[2][1] == ("other", "usize")


def searches(W):
    files = record_fns(W)
    out = []
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        if f.kind == "Closure" or f.self_ty is None or f.self_ty[0] != "adt" or f.self_ty[1] != W.INNER or f.d in W.p.rec or not reaches(W, f, files):
            continue
        t = f.lty[0]
        if t[0] == "adt" and t[1] == RESULT and t[2][0][0] == "adt" and t[2][0][1] == RESULT and \
                any(f.lty[i + 1][0] == "ref" and f.lty[i + 1][2][0] == "param" for i in range(f.argc)):
            out.append(("Inner::" + f.name, f))
    return out


def P29(W, R):
    R.rule("P29.found", "the search in a node answers 'found' only for a key that compared equal")
    R.rule("P29.between", "it answers 'not there' only with a place such that the key before it compared smaller and the key at it compared larger, or there is none")
    n = {}
    k = 0
    for lab, f in searches(W):
        F = Find(W, lab, f)
        if F.counted:
            F = Find(W, lab, f, F.counted)
        k += F.asked > 0
        for (rule, nd), (good, text) in F.res.items():
            if rule not in ("found", "between"):
                continue
            n[rule] = n.get(rule, 0) + 1
            R.check(good, "P29." + rule, "%s return" % short(f.d), "%s %s" % (short(f.d), text), nd, F.eng)
    R.floor("P29.between", k, 1, "searches of the keys of a node")
    for q in ("found", "between"):
        R.floor("P29." + q, n.get(q, 0), 1, "answers of the search in a node")
