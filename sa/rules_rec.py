"""P07, P12, P13, P18: what put, get and delete do with records and hash slots."""
from core import *
from models import phi_leaves, veclen, file_id, default_of
import layout, terms
from prog import Prog
from terms import *
from layout import strip, uncast
from rules_lists import Lists, pm_fns, hooks, drop, is_zero, fact, reaches, OWN, own_implied, val, eqz, ZER
from rules_err import is_ok

HOLD, GONE, SLOT = "hold", "gone", "slot"


class Role(Lists):
    """what a function on the free lists does: gives the place in one argument back, or takes one"""

    def freed(self, eng, st, n, x):
        st.facts[mk(GONE, "?", x)] = 1

    def options(self, o):
        o["relfacts"][GONE] = None


def roles(W):
    """{fn: ("free", argument) | ("take",)} for the functions that do nothing else with the lists"""
    if hasattr(W, "_roles"):
        return W._roles
    pm = set(pm_fns(W))
    vf = W.adt("VarFile")
    out = {}
    for f in W.methods(vf).values():
        if not reaches(W, f, pm) or f.lty[0][0] != "adt" or f.lty[0][1] != RESULT:
            continue
        L = Role(W, "VarFile::" + f.name, f)
        ex = [(r.a[2], s) for r, s in L.eng.exits if r.op == "adt" and r.a[1] == 0]
        nums = [number_of(W, L.eng, a, t) for a, t in zip(L.eng.args, L.eng.argty)]
        res = Prog.sub(f.lty[0], {})[2][0]
        ex = [(number_of(W, L.eng, r, res), s) for r, s in ex]
        free = [i for i, a in enumerate(nums) if i and any(fact(L.eng, s.facts, mk(GONE, "?", a)) for r, s in ex) and
                all(fact(L.eng, s.facts, mk(GONE, "?", a)) or is_zero(s.facts, a) for r, s in ex)]
        anyfree = any(k.op == GONE for r, s in ex for k in s.facts)
        take = ex and not anyfree and any(fact(L.eng, s.facts, mk(OWN, r)) for r, s in ex) and \
            all(is_zero(s.facts, r) or fact(L.eng, s.facts, mk(OWN, r)) for r, s in ex)
        if len(free) == 1:
            out[f.d] = ("free", free[0])
        elif take:
            out[f.d] = ("take",)
    W._roles = out
    return out


def num(W, eng, t):
    """the number in a place or size"""
    for _ in range(4):
        t = strip(uncast(t))
        if t.op == "ref":
            return t
        if t.op == "adt" and len(t.a) > 2 and t.a[0] in (W.adt("Offset"), W.adt("Size")):
            t = t.a[2]
        else:
            break
    return t


def number_of(W, eng, t, ty):
    """the number in a value of type ty"""
    if ty[0] == "adt" and ty[1] in (W.adt("Offset"), W.adt("Size")):
        return strip(uncast(eng.proj(t, ("f", 0, ty[1], W.p.adts[ty[1]]["vs"][0]["f"][0]["n"]))))
    return strip(uncast(t))

def inner_roots(W):
    """the operations of the map object on records: what the public map calls, and the recursive tree functions"""
    files = record_fns(W)
    out = []
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        if f.kind == "Closure" or f.self_ty is None or f.self_ty[0] != "adt" or f.self_ty[1] != W.INNER or not reaches(W, f, files):
            continue
        if f.d in W.p.rec or f.trait and f.trait.split("::")[-1] == "DbXxxObjectSafe":
            out.append(("Inner::" + f.name, f))
    return out


PLAIN = ("flush", "sync_all", "sync_data", "read_fill_buffer", "open_with_params")


def record_fns(W):
    """functions of the key, value and hash files"""
    fs = set()
    for nm in ("KeyFile", "ValueFile", "HtxFile", "VarFileKeyCache", "VarFileValueCache", "VarFileHtxCache"):
        t = W.adt(nm, True)
        if t:
            fs |= {f.d for f in W.methods(t).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT and f.name not in PLAIN}
    return fs


class Rec(Lists):
    """what an operation of the map does with records.
    hold(kind, b, const, lens, v): the field of record b at distance const + lens from its start holds v;
    own(b): taken from a list or appended on the way here; gone(kind, b): given back; slot(pos, v): the hash slot holds v"""

    def __init__(self, W, lab, fn, sub=None):
        self.roles = roles(W)
        self.files = record_fns(W)
        Lists.__init__(self, W, lab, fn)

    def options(self, o):
        W = self.W
        o["relfacts"].update({HOLD: None, GONE: None, SLOT: None})
        self.idx = set()
        for nm in ("IdxFile", "VarFileNodeCache", "NodeCache"):
            t = W.adt(nm, True)
            if t:
                self.idx |= {f.d for f in W.methods(t).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT}
        inner = {f.d for f in W.methods(W.INNER).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT}
        quiet = {d for d in inner if not reaches(W, W.p.fns[d], self.files) and reaches(W, W.p.fns[d], self.idx)}
        o["cut"] = lambda f: f.d in self.idx or f.d in quiet
        for d, r in self.roles.items():
            o["hook"][d] = self.hook

    def hook(self, eng, st, ctx, site, f, sub, args, t):
        W, role = self.W, self.roles[f.d]
        kind = file_id(eng, st, ctx, args[0])[1] or "?"
        s2 = st.fork()
        layout.put2(st, kind, None, None)
        layout.put2(s2, kind, None, None)
        er = eng.fresh(s2, ctx, site, "listerr")
        eng.event(s2, ctx, site, "listerr", f.name, tuple(args), res=er, sp=t["sp"])
        if role[0] == "free":
            b = number_of(W, eng, args[role[1]], Prog.sub(f.lty[role[1] + 1], sub))
            n = eng.event(st, ctx, site, "free", f.name, (b,), sp=t["sp"], x={"kind": kind})
            self.free(eng, st, n, kind, b)
            return [(ok(UNIT), st), (err(er), s2)]
        v = eng.fresh(st, ctx, site, "place")
        n = eng.event(st, ctx, site, "take", f.name, (v,), sp=t["sp"], x={"kind": kind})
        ty = Prog.sub(f.lty[0], sub)[2][0]
        if ty[0] == "adt" and ty[1] in W.p.adts:
            fl = W.p.adts[ty[1]]["vs"][0]["f"]
            w = mk("adt", ty[1], 0, v, *[default_of(W.p.ty(x["t"])) for x in fl[1:]])
        else:
            w = v
        st.facts[mk(OWN, v)] = 1
        return [(ok(w), st), (err(er), s2)]

    # ------------------------------------------------------------------------------------------ events
    def free(self, eng, st, n, kind, b):
        st.facts[mk(GONE, kind, b)] = 1

    def step(self, eng, st, n):
        if n.kind == "ok" and n.name == "seek" and n.args[0].op == "adt" and n.args[0].a[1] == 1:
            st.facts[mk(OWN, n.res)] = 1
        if n.kind in ("rec", "recok", "recerr"):
            self.rec(eng, st, n)
        for a in eng.lastacc:
            if a.pos is None or a.kind not in ("key", "val", "htx"):
                continue
            if a.kind == "htx":
                self.slot(eng, st, n, a)
                continue
            b, f = self.field(st, a.kind, a.pos)
            if b is None:
                continue
            if a.wr:
                drop(st, lambda k: k.op == HOLD and k.a[0] == a.kind and k.a[1] is b and k.a[2:4] == f)
            if a.val is not None:
                st.facts[mk(HOLD, a.kind, b, f[0], f[1], strip(a.val))] = 1

    def slot(self, eng, st, n, a):
        if a.wr:
            drop(st, lambda k: k.op == SLOT)
        if a.val is not None:
            st.facts[mk(SLOT, a.pos, strip(a.val))] = 1

    def rec(self, eng, st, n):
        pass

    def field(self, st, kind, pos):
        """(record, (bytes from its start, number of lengths added)) of a place"""
        k, ps = lin_parts(strip(pos))
        if len(ps) == 1 and ps[0][1] == 1:
            return ps[0][0], (k, 0)
        if len(ps) == 2 and all(m == 1 for x, m in ps):
            for (x, _), (y, _) in (ps, ps[::-1]):
                if y.op == "len" or any(h.op == HOLD and h.a[0] == kind and h.a[1] is x and strip(uncast(h.a[4])) is y for h in st.facts):
                    return x, (k, 1)
        return None, None


EQK, EQE, MOVED, LINKED = "eqk", "eqe", "moved", "linked"
KEYF, VALF = (8, 1), (8, 0)      # place of the value offset in a key record, of the bytes in both kinds


def call_of(t, name):
    """t is a call of the named method of the key type: its arguments"""
    t = strip(uncast(t))
    while t.op == "deref":
        t = t.a[0]
    if t.op == "call" and str(t.a[0]).split("::")[-1] == name:
        return t.a[1:]
    return None


def content(t):
    """what a chain of references and plain copies holds"""
    while t.op in ("deref", "cast"):
        t = t.a[0] if t.op == "deref" else t.a[1]
    return t


def cmp_of(t):
    """(key, bytes) of the comparison a condition is about"""
    if t.op == "discr":
        a = call_of(t.a[0], "cmp_u8")
        if a:
            return content(a[0]), content(a[1])
    return None


class Ops(Rec):
    """the rules on one operation of the map"""

    def options(self, o):
        Rec.options(self, o)
        o["relfacts"].update({EQK: None, EQE: None, MOVED: None, LINKED: None})
        o["learn"] = self.learn
        o["joincalls"] = ("cmp_u8",)
        self.root_args()
        o["track"] = lambda e, s: s.trk

    def root_args(self):
        f = self.fnroot
        self.keyarg = self.valarg = None
        for i in range(f.argc):
            t = f.lty[i + 1]
            if t[0] == "ref" and t[2][0] == "param":
                self.keyarg = i
            elif t[0] == "ref" and t[2] == ("slice", ("other", "u8")):
                self.valarg = i

    def __init__(self, W, lab, fn):
        self.fnroot = fn
        self.slots = {}        # canonical place of a hash slot -> node
        self.recres = set()
        Rec.__init__(self, W, lab, fn)
        self.exits()

    # -------------------------------------------------------------------------------------- what is known
    def learn(self, eng, st, t, v):
        self.eng0 = eng
        if v != 1:
            return
        p = cmp_of(t)
        if p is None or self.keyarg is None or p[0] is not self.key(eng):
            return
        for k in list(st.facts):
            if k.op == HOLD and k.a[0] == "key" and k.a[2:4] == VALF and content(k.a[4]) is p[1]:
                self.equal_now(st, k.a[1])

    def equal_now(self, st, b):
        st.facts[mk(EQK, b)] = 1
        e = b.a[0] if b.op == "fld" else b
        if e.op == "elem":
            st.facts[mk(EQE, e.a[0], e.a[1])] = 1

    def key(self, eng):
        return content(eng.args[self.keyarg])

    def value(self, eng):
        return content(eng.args[self.valarg])

    def same(self, st, a, b):
        a, b = strip(uncast(a)), strip(uncast(b))
        if a is b:
            return True
        return st.facts.get(mk("op", "Eq", a, b)) == 1 or st.facts.get(mk("op", "Eq", b, a)) == 1

    def equal(self, st, b):
        """the stored key of record b compared equal to the key of this operation"""
        for x in self.alike(st, b):
            if fact(None, st.facts, mk(EQK, x)):
                return True
            e = x.a[0] if x.op == "fld" else x
            if e.op == "elem" and fact(None, st.facts, mk(EQE, e.a[0], e.a[1])):
                return True
        return False

    eng0 = None

    def alike(self, st, b):
        out = [b]
        for k, v in st.facts.items():
            if v == 1 and k.op == "op" and k.a[0] == "Eq":
                if k.a[1] is b:
                    out.append(k.a[2])
                elif k.a[2] is b:
                    out.append(k.a[1])
        return out

    def held(self, st, kind, b, f):
        return [k.a[4] for k in st.facts if k.op == HOLD and k.a[0] == kind and k.a[1] is b and k.a[2:4] == f]

    def gone(self, st, kind, b):
        return any(k.op == GONE and k.a[0] == kind and k.a[1] is b for k in st.facts)

    def own(self, st, b):
        return fact(None, st.facts, mk(OWN, b))

    def keyof(self, st, b):
        """the key that the bytes of key record b are those of"""
        for v in self.held(st, "key", b, VALF):
            a = call_of(content(v), "as_bytes")
            if a:
                return content(a[0])
            return mk("frombytes", content(v))
        return None

    # -------------------------------------------------------------------------------------- events
    def step(self, eng, st, n):
        self.eng0 = eng
        if n.kind in ("ok", "err") and n.file is not None or n.kind == "free":
            self.uses(eng, st, n)
        Rec.step(self, eng, st, n)

    def uses(self, eng, st, n):
        for a in eng.lastacc:
            if a.pos is None or a.kind not in ("key", "val"):
                continue
            b, f = self.field(st, a.kind, a.pos)
            if b is None:
                if a.kind == "key" or a.kind == "val":
                    self.say("place", n, a.pos.op == "c", "reads or writes at a place that is not in a record")
                continue
            if f == (0, 0) and not a.wr and not self.own(st, b) and self.gone(st, a.kind, b):
                self.say("after", n, False, "uses a record after giving it back")
            elif f != (0, 0) or a.wr:
                self.say("after", n, not self.gone(st, a.kind, b), "uses a record after giving it back")
            if a.kind == "key" and self.keyarg is not None:
                if self.fromslot(st, b):
                    self.say("empty", n, st.facts.get(eqz(b)) == 0, "reads the record that an empty hash slot points to")
                if f == KEYF or a.wr:
                    self.say("trust", n, self.own(st, b) or self.equal(st, b), "uses a key record whose key was not compared equal to the key asked for")
            if a.kind == "val" and self.keyarg is not None and not self.own(st, b):
                self.say("valueof", n, self.holder(st, b) is not None, "uses a value record that no key record of this key points to")

    def fromslot(self, st, b):
        return any(k.op == SLOT and k.a[1] is b for k in st.facts)

    def holder(self, st, b):
        """a key record of this key that points to value record b (when it was read)"""
        for k in st.facts:
            if k.op == HOLD and k.a[0] == "key" and k.a[2:4] == KEYF and k.a[4] is b:
                return k.a[1]
        return None

    def free(self, eng, st, n, kind, b):
        if self.keyarg is None:
            return
        self.say("twice", n, not self.gone(st, kind, b), "gives a record back twice")
        if kind == "key":
            self.say("trust", n, self.own(st, b) or self.equal(st, b), "gives back a key record whose key was not compared equal to the key asked for")
            if not self.slotted(st, b, ZER) and not self.slotother(st, b):
                st.facts[mk(MOVED, b)] = 1
        else:
            self.say("valueof", n, self.holder(st, b) is not None, "gives back a value record that no key record of this key points to")
        st.facts[mk(GONE, kind, b)] = 1

    def hashes(self, st, b):
        """the hashes that are those of the key of record b"""
        out = []
        k = self.keyof(st, b)
        if k is not None:
            out.append(k)
            if k.op == "frombytes":
                out.append(("from", k.a[0]))
        if self.equal(st, b) or k is not None and k is self.key(self.eng0) or k is not None and self.readequal(st, k):
            out.append(self.key(self.eng0))
        return out

    def readequal(self, st, k):
        a = call_of(k, "from_bytes") if k.op != "frombytes" else k.a
        return a is not None and any(h.op == HOLD and h.a[0] == "key" and h.a[2:4] == VALF and content(h.a[4]) is content(a[0]) and self.equal(st, h.a[1]) for h in st.facts)

    def slotother(self, st, b):
        """the hash slot of the key of record b is known to point to another place"""
        apart = [{strip(k.a[1]), strip(k.a[2])} for k, v in st.facts.items() if v == 0 and k.op == "op" and k.a[0] == "Eq"]
        return any({strip(k.a[1]), strip(b)} in apart and self.slotted(st, b, k.a[1]) for k in list(st.facts) if k.op == SLOT)

    def slotted(self, st, b, v):
        """the hash slot of the key of record b holds v"""
        hs = self.hashes(st, b)
        for k in st.facts:
            if k.op != SLOT or not self.same(st, k.a[1], v):
                continue
            h = self.slothash(k.a[0])
            if h is None:
                continue
            if any(h is x for x in hs if isinstance(x, T)):
                return True
            a = call_of(h, "from_bytes")
            if a and any(isinstance(x, tuple) and content(a[0]) is x[1] for x in hs):
                return True
        return False

    def slothash(self, pos):
        """the key whose hash picks the slot"""
        hs = [x for x in subterms(pos) if call_of(x, "hash_value")]
        return content(call_of(hs[0], "hash_value")[0]) if len(hs) == 1 else None

    def slot(self, eng, st, n, a):
        hs = [x for x in subterms(a.pos) if x.op == "call" and call_of(x, "hash_value")]
        if len(hs) != 1:
            self.say("slotof", n, a.pos.op == "c", "uses a hash slot that is not picked by the hash of one key")
            return
        rootself = eng.args[0]
        q = subst(a.pos, {hs[0]: mk("H")}, {})
        q = show(subst(q, {content(rootself): mk("SELF")}, {}), 12).replace(self.fnroot.d, "")
        self.slots.setdefault(q, n)
        self.say("slotof", n, True, "")
        Rec.slot(self, eng, st, n, a)

    def rec(self, eng, st, n):
        f = self.W.p.fns.get(n.name)
        if n.kind == "rec" and f is not None and reaches(self.W, f, self.files):
            drop(st, lambda k: k.op in (HOLD, SLOT))
            for kind in ("key", "val", "htx"):
                layout.put2(st, kind, None, None)
        if n.kind == "rec":
            for k in list(st.facts):
                if k.op == OWN and self.inmem(st, k.a[0]):
                    st.facts[mk(LINKED, k.a[0])] = 1
        if n.kind == "recok" and f is not None and reaches(self.W, f, self.files):
            # the arguments are those of this operation
            ka, va = self.args_of(f, n.args)
            good = self.keyarg is not None and ka is self.key(eng) and (self.valarg is None or va is self.value(eng)) and (self.valarg is None) == (va is None)
            self.say("passed", n, good, "hands another key or value on to %s" % short(f.d))
            st.trk = ("R",) + st.trk[1:]
            self.recres.add(n.res)

    def args_of(self, f, args):
        ka = va = None
        for i in range(f.argc):
            t = f.lty[i + 1]
            if t[0] == "ref" and t[2][0] == "param":
                ka = content(args[i])
            elif t[0] == "ref" and t[2] == ("slice", ("other", "u8")):
                va = content(args[i])
        return ka, va

    def inmem(self, st, x):
        for r, v in st.mem.items():
            if r.op in ("loc", "ghost", "rv", "itvar", "accvar", "posvar", "cptr"):
                continue
            if contains(v, lambda y: y is x):
                return True
        return False

    # -------------------------------------------------------------------------------------- the end
    def exits(self):
        eng, W, f = self.eng, self.W, self.fnroot
        rets = {n.name: n for n in eng.nodes if n.kind == "ret"}
        res = Prog.sub(f.lty[0], {})
        self.objsafe = f.trait is not None
        self.noks = 0
        for r, st in eng.exits:
            if r.op != "adt" or r.a[0] != RESULT:
                raise Anchor("%s does not return a Result" % f.d)
            if r.a[1] != 0:
                continue
            r, st = self.canon(r, st)
            n = rets.get(eng.retkey(st, r)) or next(x for x in eng.nodes if x.kind == "ret")
            self.noks += 1
            p = r.a[2]
            self.recs(eng, st, n, p)
            if self.keyarg is None:
                continue
            if self.valarg is not None:
                self.stored_ok(eng, st, n)
            else:
                ty = res[2][0]
                if ty[0] == "tuple":
                    i = [i for i, t in enumerate(ty[1]) if t[0] == "adt" and t[1] == OPTION]
                    p = eng.proj(p, ("t", i[0])) if p.op != "tup" else p.a[i[0]]
                self.result(eng, st, n, p)

    def canon(self, r, st):
        """variables that always take the same value are one"""
        m = self.twins()
        if not m:
            return r, st
        st = st.fork()
        memo = {}
        st.facts = {subst(k, m, memo): v for k, v in st.facts.items()}
        st.mem = {k: subst(v, m, memo) for k, v in st.mem.items()}
        return subst(r, m, memo), st

    def twins(self):
        if self._twins is None:
            m = {}
            for _ in range(3):
                for mp, rows in self.eng.rows.items():
                    sig = {}
                    for ph in sorted({p for x in rows for p in x}, key=lambda p: p.id):
                        if ph in m:
                            continue
                        vs = tuple(subst(v, m, {}) if v is not None else None for v in (x.get(ph) for x in rows))
                        rep = sig.setdefault(vs, ph)
                        if rep is not ph:
                            m[ph] = rep
            self._twins = m
        return self._twins

    _twins = None

    def stored_ok(self, eng, st, n):
        good = st.trk[0] == "R"
        for k in list(st.facts):
            if good or k.op != HOLD or k.a[0] != "val" or k.a[2:4] != VALF or content(k.a[4]) is not self.value(eng):
                continue
            b = k.a[1]
            if self.lost(st, "val", b) or not self.lengthof(st, "val", b):
                continue
            for q in list(st.facts):
                if q.op == HOLD and q.a[0] == "key" and q.a[2:4] == KEYF and self.same(st, q.a[4], b) and not self.lost(st, "key", q.a[1]):
                    x = q.a[1]
                    kk = self.keyof(st, x)
                    if self.equal(st, x) or kk is not None and self.lengthof(st, "key", x) and (kk is self.key(eng) or self.readequal(st, kk)):
                        good = True
                        break
        self.say("store", n, good, "can return with success without the given bytes being in the value record that the key's record points to")

    def lengthof(self, st, kind, b):
        """the length field of b is the number of bytes stored there"""
        bs = [content(v) for v in self.held(st, kind, b, VALF)]
        for v in self.held(st, kind, b, (4, 0)):
            v = strip(uncast(v))
            if v.op == "len" and content(v.a[0]) in bs:
                return True
        return False

    def lost(self, st, kind, b):
        """b was given back and not taken again"""
        if self.own(st, b):
            return False
        return any(self.gone(st, kind, x) for x in self.alike(st, b)) and not any(self.own(st, x) for x in self.alike(st, b))

    def result(self, eng, st, n, p):
        if p.op == "adt" and p.a[0] == OPTION:
            if p.a[1] == 0:
                self.say("search", n, st.trk[0] == "R" or not self.objsafe, "can answer that there is no such key without having searched the tree")
                seen = any(v and k.op in (EQK, EQE) for k, v in st.facts.items())
                self.say("found", n, not seen, "can answer that there is no such key after having found it")
                if st.trk[0] == "R":
                    self.say("found", n, any(k.op == "discr" and v == 0 and any(contains(k.a[0], lambda y: y is z) for z in self.recres) for k, v in st.facts.items()),
                             "can answer that there is no such key although the search found it")
                return
            x = content(p.a[2])
            good = False
            for k in st.facts:
                if k.op == HOLD and k.a[0] == "val" and k.a[2:4] == VALF and content(k.a[4]) is x:
                    h = self.holder(st, k.a[1])
                    good = good or h is not None and self.equal(st, h)
            self.say("found", n, good, "can return other bytes than those of the value record that the key's record points to")
            return
        self.say("found", n, any(contains(p, lambda y: y is z) for z in self.recres), "can return something else than the bytes of a value record or the result of the search")

    def recs(self, eng, st, n, p):
        """what became of the records"""
        facts = list(st.facts)
        if self.keyarg is None:
            return
        for k in facts:
            if k.op == GONE and k.a[0] == "val":
                b = k.a[1]
                bad = [q.a[1] for q in facts if q.op == HOLD and q.a[0] == "key" and q.a[2:4] == KEYF and self.same(st, q.a[4], b) and
                       self.lost(st, "val", b) and not self.gone(st, "key", q.a[1])]
                self.say("freeval", n, not bad, "can return with success with a key record that points to a value record that was given back")
            elif k.op == GONE and k.a[0] == "key":
                b = k.a[1]
                vs = self.held(st, "key", b, KEYF)
                new = [q.a[1] for q in facts if q.op == HOLD and q.a[0] == "key" and q.a[2:4] == VALF and self.own(st, q.a[1]) and
                       self.keyof(st, q.a[1]) is not None and (self.keyof(st, q.a[1]) is self.key(eng) or self.readequal(st, self.keyof(st, q.a[1])))]
                gone = bool(vs) and all(self.gone(st, "val", v) for v in vs)
                if new:
                    nv = [v for x in new for v in self.held(st, "key", x, KEYF)]
                    good = bool(nv) and all(not self.lost(st, "val", v) for v in nv) and (gone or any(self.same(st, v, w) for v in vs for w in nv))
                    self.say("freekey", n, good, "can return with success having moved a key record without keeping its value record")
                    if fact(None, st.facts, mk(MOVED, b)):
                        self.say("cleared", n, any(self.slotted(st, x, x) or self.sameplace(st, x) for x in new), "can return with success with the hash slot of a moved key record still at its old place")
                else:
                    self.say("freekey", n, gone, "can return with success having given back a key record but not its value record")
                    self.say("cleared", n, not fact(None, st.facts, mk(MOVED, b)), "gives back a key record before the hash slot of its key was cleared")
            elif k.op == HOLD and k.a[2:4] == VALF and self.own(st, k.a[1]) and not self.gone(st, k.a[0], k.a[1]):
                x = k.a[1]
                if k.a[0] == "val":
                    good = any(q.op == HOLD and q.a[0] == "key" and q.a[2:4] == KEYF and self.same(st, q.a[4], x) and not self.lost(st, "key", q.a[1]) for q in facts)
                    self.say("linkval", n, good, "can return with success with a new value record that no key record points to")
                else:
                    good = fact(None, st.facts, mk(LINKED, x)) or self.inmem(st, x) or contains(p, lambda y: y is x) or self.sameplace(st, x)
                    self.say("linkkey", n, good, "can return with success with a new key record that no node points to")
                    self.say("slotset", n, self.slotted(st, x, x) or self.sameplace(st, x), "can return with success with a new key record that the hash slot of its key does not point to")

    def sameplace(self, st, x):
        """the new record is at the place that the record of this key had"""
        return any(self.equal(st, y) and self.gone(st, "key", y) for y in self.alike(st, x) if y is not x)


RULES = {
    "P07": (("after", "no record is read (other than its size) or written after it was given back", 10),
            ("twice", "no operation gives the same record back twice", 2),
            ("valueof", "only the value record that the key record of this key points to is used and given back", 4),
            ("freeval", "when a value record was given back, no live key record points to it at the end", 2),
            ("freekey", "a key record is given back together with its value record, or its content lives on in a new record", 1),
            ("linkval", "a new value record is pointed to by a live key record at the end", 2),
            ("linkkey", "a new key record is pointed to by a node at the end", 2)),
    "P12": (("trust", "the value place of a key record is read, and the record written or given back, only after its key bytes compared equal to the key asked for", 5),
            ("empty", "the record that a hash slot points to is read only when the slot is not empty", 2),
            ("search", "no public lookup answers 'absent' without the search of the tree", 0)),
    "P13": (("slotset", "a new key record is in the hash slot of its own key when put succeeds", 2),
            ("cleared", "a key record is given back only after the slot of its key was cleared, or its slot points to the new place", 1),
            ("slotof", "a hash slot is picked by the hash of one key", 4)),
    "P18": (("store", "put succeeds only when the given bytes, with their length, are in the value record that the record of the given key points to", 2),
            ("found", "the result is the bytes read from the value record that the record of the key points to, or the result of the search", 3),
            ("passed", "recursive and tree operations are handed the same key and value", 3)),
}


def ops(W):
    if not hasattr(W, "_ops"):
        W._ops = [Ops(W, lab, f) for lab, f in inner_roots(W)]
        W._ops = [o for o in W._ops if o.keyarg is not None]
    return W._ops


def judge(W, R, pid):
    for q, t, least in RULES[pid]:
        R.rule("%s.%s" % (pid, q), t)
    tot = {}
    for L in ops(W):
        for (rule, nd), (good, text) in L.res.items():
            if rule in [q[0] for q in RULES[pid]]:
                tot[rule] = tot.get(rule, 0) + 1
                R.check(good, "%s.%s" % (pid, rule), "%s %s %s" % (short(L.fnroot.d), short(owner(nd)), nd.name if nd.kind != "ret" else "return"), "%s %s" % (short(owner(nd)), text), nd, L.eng)
    for q, t, least in RULES[pid]:
        R.floor("%s.%s" % (pid, q), tot.get(q, 0), least, "uses")
    names = {L.fnroot.name for L in ops(W)}
    R.floor(pid + "." + RULES[pid][0][0], len(ops(W)), 5, "operations that take a key")


def P07(W, R):
    judge(W, R, "P07")


def P12(W, R):
    judge(W, R, "P12")


def P13(W, R):
    judge(W, R, "P13")
    R.rule("P13.same", "all operations compute the place of a hash slot in the same way")
    forms = {}
    for L in ops(W):
        for q, n in L.slots.items():
            forms.setdefault(q, (n, L))
    n, L = list(forms.values())[-1] if forms else (None, None)
    R.check(len(forms) == 1, "P13.same", "place of the slot", "hash slots are found in different ways: %s" % sorted(forms), n, L and L.eng)
    import rules_db
    R.rule("P13.size", "the table size that slots are computed with is for a reopened file the one that the new file had")
    R.floor("P13.size", rules_db.kept(W, R, "htx", "P13.size"), 1, "numbers kept in memory about the hash file")


def P18(W, R):
    judge(W, R, "P18")
    R.rule("P18.forward", "each public single-key operation does exactly one operation of its own kind with the key and the value it was given, and hands on its result")
    fwd = forward(W, R)
    R.floor("P18.forward", fwd, 9, "public operations")
    R.rule("P18.mem", "the map in memory does each operation on the key and with the value it was given")
    R.floor("P18.mem", memory(W, R), 6, "operations of maps in memory")


# ---- the public wrappers

CONV = ("from", "into", "clone", "to_vec", "as_bytes", "borrow", "as_ref", "to_owned", "as_slice", "to_string", "from_utf8_lossy", "into_owned", "into_boxed_slice", "into_vec", "into_bytes", "cloned", "copied")
TARGET = {"get": "get_kt", "put": "put_kt", "delete": "del_kt"}
KTS = ("get_kt", "put_kt", "del_kt")


def origin(eng, st, t, depth=0):
    """what a value is a plain copy or a conversion of"""
    for _ in range(12):
        u = t
        if t.op == "ref":
            u = eng.get(st, t.a[0], t.a[1])
        elif t.op == "hv":
            u = t.a[0]
        elif t.op in ("deref", "loc"):
            u = t.a[0]
        elif t.op == "cast":
            u = t.a[1]
        elif t.op == "adt" and len(t.a) == 3 and t.a[0] not in (RESULT, OPTION):
            u = t.a[2]
        elif t.op == "fld" and t.a[1] == 0 and origin_key(t):
            u = t.a[0]
        elif t.op == "call" and str(t.a[0]).split("::")[-1].split(":")[0] in CONV and len(t.a) == 2:
            u = t.a[1]
        if u is t or u is None:
            return t
        t = u
    return t


def origin_key(t):
    """the only field of a key type"""
    return len(t.a) > 3 and t.a[3] is not None and str(t.a[3]).split("::")[-1].startswith("Db")


def is_kt(f):
    return f.trait is not None and f.trait.endswith("DbXxxObjectSafe") and f.name in KTS


def forward(W, R):
    n = 0
    for lab, f, sub in W.public_ops(base=False, check=False, iters=False):
        base = f.name[:-7] if f.name.endswith("_string") else f.name
        if base.startswith("bulk_") or not (base in TARGET or f.name in KTS):
            continue
        want = TARGET.get(base, f.name)
        n += 1
        key = "%s %s" % (lab, f.name)

        last = [None]

        def step(eng, st, nd):
            last[0] = nd
            if nd.kind == "rec":
                st.trk = st.trk + ((nd.name, nd.args, tuple(origin(eng, st, a) for a in nd.args)),)
            elif nd.kind in ("recok", "recerr") and st.trk and isinstance(st.trk[-1], tuple) and len(st.trk[-1]) == 3:
                st.trk = st.trk[:-1] + (st.trk[-1] + (nd.kind, nd.res),)
        o = {"cut": lambda g: is_kt(g) and g.d != f.d}
        eng = W.run(lab, f, sub, step, (), None, o)
        args = [a for a in eng.args]
        for r, st in eng.exits:
            if r.op != "adt" or r.a[1] != 0:
                continue
            calls = [c for c in st.trk if len(c) == 5]
            good = len(st.trk) == 1 and len(calls) == 1 and calls[0][3] == "recok" and calls[0][0].split("::")[-1] == want
            nd = last[0]
            if not good:
                R.bad("P18.forward", key + " calls", "%s succeeds without having done exactly one %s (done: %s)" % (lab, want, [short(c[0]) for c in st.trk]), nd, eng)
                continue
            d, _, org, _, res = calls[0]
            for i, what in ((1, "key"), (2, "value"))[:len(org) - 1]:
                R.check(same_arg(eng, st, org[i], args[i]), "P18.forward", "%s %s" % (key, what), "%s hands %s to %s as the %s, which is not the %s it was given" % (lab, show(org[i], 4), short(d), what, what), nd, eng)
            v = r.a[2]
            R.check(passes(eng, st, v, res), "P18.forward", key + " result", "%s answers %s, which is not the result of %s" % (lab, show(v, 5), short(d)), nd, eng)
    return n


def same_arg(eng, st, t, arg):
    while arg.op == "deref":
        arg = arg.a[0]
    return t is arg or origin(eng, st, t) is arg


def passes(eng, st, v, res):
    """v is the result of the operation, itself or rebuilt (maybe as text) variant by variant"""
    if v is res or v is UNIT:
        return True
    if v.op == "adt" and v.a[0] == OPTION:
        d = eng.variant(st, res)
        if v.a[1] == 0:
            return d == 0
        x = origin(eng, st, v.a[2])
        return d in (1, None) and x.op == "fld" and x.a[0].op == "as" and x.a[0].a[0] is res and x.a[1] == 0
    return origin(eng, st, v) is res


def memory(W, R):
    n = 0
    for f in W.p.fns.values():
        if not is_kt(f) or f.self_ty is None or f.self_ty[0] != "adt" or not f.bbs:
            continue
        a = W.p.adts.get(f.self_ty[1])
        if a is None or f.self_ty[1] in (W.FM, W.INNER):
            continue
        n += 1
        lab = "%s::%s" % (short(f.self_ty[1]), f.name)
        last = [None]

        def step(eng, st, nd):
            last[0] = nd
        eng = W.run(lab, f, None, step, 0, None, {"cut": lambda g: False})
        nd = last[0]
        karg = eng.args[1]
        for r, st in eng.exits:
            if r.op != "adt" or r.a[1] != 0:
                continue
            ins, rem = set(), set()
            for v in st.mem.values():
                if hasattr(v, "op"):
                    for t in subterms(v):
                        if t.op == "minsert":
                            ins.add(t)
                        elif t.op == "mremove":
                            rem.add(t)
            v = r.a[2]

            def iskey(t):
                return same_arg(eng, st, t, karg)

            def found(x):
                x = origin(eng, st, x)
                return x.op == "call" and x.a[0] in ("map_get", "map_get_val") and iskey(x.a[2])
            if f.name == "put_kt":
                good = not rem and len(ins) == 1 and all(iskey(t.a[1]) and same_arg(eng, st, t.a[2], eng.args[2]) for t in ins)
                R.check(good, "P18.mem", lab, "%s succeeds without having set the given key, and nothing else, to the given value" % lab, nd, eng)
                continue
            if f.name == "del_kt":
                good = not ins and len(rem) == 1 and all(iskey(t.a[1]) for t in rem)
                R.check(good, "P18.mem", lab, "%s succeeds without having removed the given key, and nothing else" % lab, nd, eng)
            else:
                R.check(not ins and not rem, "P18.mem", lab, "%s changes the map" % lab, nd, eng)
            if v.op == "adt" and v.a[0] == OPTION and v.a[1] == 0:
                good = any(k.op == "discr" and val == 0 and found(k.a[0]) for k, val in st.facts.items())
            elif v.op == "adt" and v.a[0] == OPTION:
                x = origin(eng, st, v.a[2])
                good = x.op == "fld" and x.a[0].op == "as" and found(x.a[0].a[0])
            else:
                good = found(v)
            R.check(good, "P18.mem", lab + " result", "%s answers %s, which is not what the map holds for the given key" % (lab, show(v, 5)), nd, eng)
    return n
