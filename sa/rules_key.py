"""P16: bytes, comparison, equality, order and hash of a key are those of the same bytes."""
from core import *
from terms import *
from prog import Prog

INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "usize": 8}


def bare(t):
    """t without the copies and references around it"""
    while True:
        if t.op in ("hv", "cptr", "rf"):
            t = t.a[0]
        elif t.op == "vcloned" or t.op == "cast" and len(t.a) == 2 and t.a[1].op == "deref":
            t = t.a[0] if t.op == "vcloned" else t.a[1]
        elif t.op == "deref" and t.a[0].op in ("ref", "cptr"):
            t = t.a[0]
        else:
            return t


def last(t):
    return str(t.a[0]).split("::")[-1]


def value(eng, st, t):
    """what t holds, references followed"""
    for _ in range(12):
        if t.op in ("ref", "cptr"):
            t = eng.load(st, t) if t.op == "ref" else t.a[0]
        elif t.op == "it" and t.a[0] in ("cloned", "copied", "slice", "vec") and (t.a[0] in ("cloned", "copied") or t.a[2] is c(0)):
            t = t.a[1] if t.a[0] != "slice" else eng.load(st, t.a[1])
        elif t.op == "vcoll" and len(t.a) > 1 and t.a[1].op == "it" and chain(t.a[1]):
            t = t.a[1]
        elif bare(t) is not t:
            t = bare(t)
        else:
            break
    return bare(t)


def chain(it):
    """an iterator over all of a list, in its order"""
    while it.op == "it" and it.a[0] in ("cloned", "copied"):
        it = it.a[1]
    return it.op == "it" and it.a[0] in ("slice", "vec") and it.a[2] is c(0)


class Kind(object):
    """one key type: where in it the bytes are"""

    def __init__(self, W, R, ty):
        self.W, self.R, self.ty = W, R, ty
        self.name = ty[1].split("::")[-1]
        self.path = None
        f = self.method("siamesedb::DbMapKeyType", "as_bytes")
        if f is not None:
            eng = self.run(f)
            ps = set()
            for r, st in eng.exits:
                ps.add(self.place(value(eng, st, r), eng.args[0]))
            R.check(len(ps) == 1 and None not in ps, "P16.bytes", self.name + "::as_bytes", "%s: the bytes that are stored are not one whole member of the key" % self.name, None, eng)
            if len(ps) == 1:
                self.path = list(ps)[0]

    def method(self, trait, name, ta=None):
        for i in self.W.p.impls:
            if i["tr"] == trait and i["ta"] and i["ta"][0] == self.ty and (ta is None or i["ta"][1] == ta):
                d = i["items"].get(trait + "::" + name)
                return self.W.p.fns.get(d)
        return None

    def run(self, f, sub=None):
        return self.W.run("%s::%s" % (self.name, f.name), f, sub or {}, None, frozenset(), None, {"cmpwhole": True, "hook": {d: feed for d in hashers(self.W) if self.W.p.fns[d].name.startswith("write")}, "learn": apart}, opaque=lambda d, tr, a: False)

    def place(self, t, arg):
        """the members that lead from what arg points to, to t"""
        path = []
        t = bare(t)
        while t.op == "fld":
            path.append((t.a[1], t.a[3], t.a[2]))
            t = bare(t.a[0])
        if t.op == "deref" and t.a[0] is arg or t is arg:
            return tuple(reversed(path))
        return None

    def bytes(self, eng, t):
        """the bytes of a key"""
        t = bare(t)
        for e in self.path:
            t = bare(eng.proj(t, ("f",) + e))
        if t.op == "vcoll":
            t = value(eng, self.last, t)
        return t

    def of(self, eng, st, a):
        """the bytes of the key given as an argument"""
        v = eng.load(st, a) if self.isref(a, eng) else a
        return self.bytes(eng, v)

    def isref(self, a, eng):
        return eng.argty[list(eng.args).index(a)][0] == "ref"


def apart(eng, st, t, v):
    """keep what different outcomes of a comparison lead to apart"""
    if len(st.trk) < 8 and (t.op == "discr" and t.a[0].op == "call" or t.op == "call" and t.a[0] == "ord_lt" or t.op == "op" and t.a[0] == "Eq" and not any(x.op == "len" for x in t.a[1:])) and (t, v) not in st.trk:
        st.trk = st.trk | {(t, v)}


def plain_bytes(eng, st, a):
    """the bytes given as an argument of a type that holds bytes"""
    t = eng.argty[list(eng.args).index(a)]
    v = a
    while t[0] == "ref":
        v = eng.load(st, v)
        t = t[2]
    return bare(v)


def ordering(eng, st, r, A, B):
    """r is the order of A against B"""
    r = bare(r)
    if r.op == "call" and last(r) == "cmp":
        x, y = value(eng, st, r.a[1]), value(eng, st, r.a[2])
        return x is A and y is B
    if r.op == "call" and last(r) == "cmprev":
        return ordering(eng, st, r.a[1], B, A)
    if r.op == "adt" and str(r.a[0]).endswith("Ordering") and len(r.a) == 2:
        w = r.a[1]
        lt, gt, eq = known(eng, st, "Lt", A, B), known(eng, st, "Lt", B, A), known(eng, st, "Eq", A, B)
        for t, v in st.facts.items():
            if t.op == "discr" and t.a[0].op == "call" and last(t.a[0]) == "cmp":
                x, y = value(eng, st, t.a[0].a[1]), value(eng, st, t.a[0].a[2])
                if (x, y) in ((A, B), (B, A)):
                    v = {255: 0, -1: 0}.get(v, v)
                    return (v if x is A else 2 - v) == w if v in (0, 1, 2) else False
        return {0: lt == 1, 1: eq == 1 or lt == 0 and gt == 0, 2: gt == 1 or lt == 0 and eq == 0}[w]
    return False


def known(eng, st, op, A, B):
    for t, v in st.facts.items():
        if t.op == "call" and t.a[0] == "ord_lt" and op == "Lt" and value(eng, st, t.a[1]) is A and value(eng, st, t.a[2]) is B:
            return v
        if op == "Eq" and t.op == "op" and t.a[0] == "Eq" and v == 0 and {x.a[0] if x.op == "len" else x for x in t.a[1:]} == {A, B}:
            return 0
        if t.op == "op" and t.a[0] == op:
            x, y = value(eng, st, t.a[1]), value(eng, st, t.a[2])
            if x is A and y is B or op == "Eq" and x is B and y is A:
                return v
        if t.op == "op" and op == "Lt" and t.a[0] == "Le":
            x, y = value(eng, st, t.a[1]), value(eng, st, t.a[2])
            if x is B and y is A:
                return 1 - v
    return None


def equality(eng, st, r, A, B):
    """r says whether A and B are equal -> True | False"""
    r = bare(r)
    if r.op == "op" and r.a[0] == "Eq":
        x, y = r.a[1], r.a[2]
        p, q = value(eng, st, x), value(eng, st, y)
        if {p, q} == {A, B}:
            return True
        for u, v in ((x, y), (y, x)):
            if u.op == "discr" and v.op == "c" and v.a[0] == 1:
                return ordering(eng, st, u.a[0], A, B) or ordering(eng, st, u.a[0], B, A)
    if r.op == "b2i":
        return equality(eng, st, r.a[0], A, B)
    if r.op == "c" or r in (TRUE, FALSE):
        v = r.a[0] if r.op == "c" else int(r is TRUE)
        e = known(eng, st, "Eq", A, B)
        if e is not None:
            return bool(e) == bool(v)
        for w in (0, 1, 2):
            if ordering(eng, st, mk("adt", "core::cmp::Ordering", w), A, B):
                return (w == 1) == bool(v)
    return False


CHANCE = ("RandomState", "process::id", "time::Instant", "SystemTime", "thread::current", "std::env")


def feed(eng, st, ctx, site, f, sub, args, t):
    """a hasher takes bytes in"""
    v = eng.load(st, args[1]) if f.lty[2][0] == "ref" else args[1]
    eng.store(st, args[0], mk("call", "hashed", eng.load(st, args[0]), v))
    return [(UNIT, st)]


def hashers(W):
    return sorted(d for i in W.p.impls if i["tr"] == "core::hash::Hasher" for d in i["items"].values())


def leaves(t, A):
    """what t is made from besides A: the parts without parts, and whether A is in it as a whole"""
    out, whole, seen, todo = set(), False, set(), [(t, None)]
    while todo:
        x, up = todo.pop()
        if x is A:
            if up is None or up.op == "call" and str(up.a[0]).split("::")[-1] not in ("index", "get", "first", "last") or up.op == "hashed":
                whole = True
            continue
        if x in seen:
            continue
        seen.add(x)
        kids = [y for y in x.a if isinstance(y, T)]
        if not kids and x.op not in ("c", "vnew"):
            out.add(x)
        todo += [(y, x) for y in kids]
    return out, whole


def P16(W, R):
    R.rule("P16.bytes", "the bytes of a key that are stored are one member of it, and a key made from stored bytes has exactly these bytes")
    R.rule("P16.from", "every conversion to a key keeps all bytes (an integer: its big-endian bytes), and so does every one from a key")
    R.rule("P16.cmp", "the comparison with stored bytes is that of the key's bytes with all of the stored ones")
    R.rule("P16.eq", "two keys are equal exactly if their bytes are")
    R.rule("P16.ord", "the order of keys is that of their bytes")
    R.rule("P16.hash", "the hash is a function of the bytes alone, all of them, and the same in every run")
    R.rule("P16.mem", "a map in memory looks up, stores and removes under exactly the given key")
    p = W.p
    kts = sorted({i["self"] for i in p.impls if i["tr"] == "siamesedb::DbMapKeyType"}, key=str)
    R.floor("P16.bytes", len(kts), 3, "key types")
    nfrom = 0
    for ty in kts:
        K = Kind(W, R, ty)
        if K.path is None:
            continue
        nm = K.name

        def one(trait, name, rule, test, msg, need=True, ta=None):
            f = K.method(trait, name, ta)
            if f is None:
                R.check(not need, rule, "%s::%s" % (nm, name), "%s has no %s of its own" % (nm, name))
                return
            eng = K.run(f)
            R.check(len(eng.exits) > 0, rule, "%s::%s ends" % (nm, name), "%s::%s never returns" % (nm, name), None, eng)
            for r, st in eng.exits:
                K.last = st
                R.check(test(eng, st, r), rule, "%s::%s" % (nm, name), "%s::%s %s (it answers %s)" % (nm, name, msg, show(value(eng, st, r), 6)), None, eng)

        key = lambda eng, st, i: K.of(eng, st, eng.args[i])
        raw = lambda eng, st, i: plain_bytes(eng, st, eng.args[i])
        one("siamesedb::DbMapKeyType", "from_bytes", "P16.bytes", lambda e, s, r: K.bytes(e, r) is raw(e, s, 0), "does not keep exactly the given bytes")
        one("siamesedb::DbMapKeyType", "cmp_u8", "P16.cmp", lambda e, s, r: ordering(e, s, r, key(e, s, 0), raw(e, s, 1)), "is not the order of the key's bytes against the given ones")
        one("core::cmp::PartialEq", "eq", "P16.eq", lambda e, s, r: equality(e, s, r, key(e, s, 0), key(e, s, 1)), "is not the equality of the bytes", ta=ty)
        one("core::cmp::PartialEq", "ne", "P16.eq", lambda e, s, r: False, "is defined on its own", need=False, ta=ty)
        one("core::cmp::Ord", "cmp", "P16.ord", lambda e, s, r: ordering(e, s, r, key(e, s, 0), key(e, s, 1)), "is not the order of the bytes")
        one("core::cmp::PartialOrd", "partial_cmp", "P16.ord", lambda e, s, r: r.op == "adt" and r.a[0] == OPTION and r.a[1] == 1 and ordering(e, s, r.a[2], key(e, s, 0), key(e, s, 1)), "is not the order of the bytes", ta=ty)
        for op, x in (("lt", (1, 0, 0)), ("le", (1, 1, 0)), ("gt", (0, 0, 1)), ("ge", (0, 1, 1))):
            one("core::cmp::PartialOrd", op, "P16.ord", lambda e, s, r: False, "is defined on its own", need=False, ta=ty)
        one("core::clone::Clone", "clone", "P16.from", lambda e, s, r: K.bytes(e, r) is key(e, s, 0), "does not keep the bytes")
        for tr, m in (("core::ops::deref::Deref", "deref"), ("core::borrow::Borrow", "borrow"), ("core::convert::AsRef", "as_ref")):
            one(tr, m, "P16.from", lambda e, s, r: value(e, s, r) in (key(e, s, 0), bare(e.load(s, e.args[0]))), "is not the key's bytes", need=False)
        # the hash
        f = K.method("core::hash::Hash", "hash")
        R.check(f is not None, "P16.hash", nm + "::hash", "%s has no hash of its own" % nm)
        if f is not None:
            eng = K.run(f)
            for r, st in eng.exits:
                A = K.of(eng, st, eng.args[0])
                h = eng.load(st, eng.args[1])
                lv, whole = leaves(h, A)
                R.check(whole and lv <= {eng.args[1]}, "P16.hash", nm + "::hash", "%s::hash does not feed the whole bytes of the key, and nothing else, to the hasher: %s" % (nm, show(h, 6)), None, eng)
        f = K.method("siamesedb::HashValue", "hash_value") or p.fns.get("siamesedb::HashValue::hash_value")
        R.check(f is not None, "P16.hash", nm + "::hash_value", "no hash_value for %s" % nm)
        if f is not None:
            eng = K.run(f, {"Self": ty} if f.intrait else {})
            once = [d for d in sorted(eng.fn_seen) + hashers(W) if d in p.fns and any(w in str(p.fns[d].bbs) for w in CHANCE)]
            R.check(not once, "P16.hash", nm + "::hash_value same", "what hash_value of %s uses differs from run to run: %s" % (nm, ", ".join(short(d) for d in once)), None, eng)
            R.check(len(eng.exits) > 0, "P16.hash", nm + "::hash_value ends", "hash_value never returns", None, eng)
            for r, st in eng.exits:
                A = K.of(eng, st, eng.args[0])
                lv, whole = leaves(r, A)
                lv = {x for x in lv if not (x.op == "call" and str(x.a[0]).split("::")[-1] in ("default", "new") and "RandomState" not in str(x.a[0]))}
                R.check(whole and not lv, "P16.hash", nm + "::hash_value", "hash_value of %s is not made of all the key's bytes and of nothing that changes between runs: %s" % (nm, show(r, 8)), None, eng)
        # conversions
        for i in sorted(p.impls, key=lambda i: str(i["ta"])):
            if i["tr"] not in ("core::convert::From", "core::convert::TryFrom") or len(i["ta"]) < 2:
                continue
            f = p.fns.get(i["items"].get(i["tr"] + "::" + ("from" if i["tr"].endswith("::From") else "try_from")))
            if f is None:
                continue
            src = i["ta"][1]
            base = src
            while base[0] == "ref":
                base = base[2]
            sn = tyname_of(src)
            if i["ta"][0] == ty:
                nfrom += 1
                eng = K.run(f)
                R.check(len(eng.exits) > 0, "P16.from", "%s from %s ends" % (nm, sn), "the conversion never returns", None, eng)
                for r, st in eng.exits:
                    K.last = st
                    good = r.op == "adt" and (r.a[0] != RESULT or r.a[1] == 1)
                    if not (good and r.a[0] == RESULT):
                        x = K.bytes(eng, r.a[2] if r.op == "adt" and r.a[0] == RESULT else r)
                        if base == ty:
                            y = K.bytes(eng, plain_bytes(eng, st, eng.args[0]))
                            good = x is y
                        elif base[0] == "other" and base[1] in INTS:
                            y = plain_bytes(eng, st, eng.args[0])
                            good = x.op == "call" and str(x.a[0]).split("::")[-1].split(":")[0] == "to_be_bytes" and bare(x.a[1]) is y and (len(x.a) < 3 or base[1] in show(x.a[2], 2)) \
                                or x.op == "to_be_bytes" and bare(x.a[0]) is y and base[1] in show(x.a[1], 2)
                        else:
                            while x.op == "call" and last(x) == "to_string":
                                x = value(eng, st, x.a[1])
                            good = x is plain_bytes(eng, st, eng.args[0])
                    R.check(good, "P16.from", "%s from %s" % (nm, sn), "the conversion from %s to %s does not keep %s" % (sn, nm, "the bytes (big-endian) of the number" if base[0] == "other" and base[1] in INTS else "the bytes"), None, eng)
            elif base == ty:
                nfrom += 1
                eng = K.run(f)
                to = i["ta"][0]
                for r, st in eng.exits:
                    y = K.bytes(eng, plain_bytes(eng, st, eng.args[0]))
                    if r.op == "adt" and r.a[0] == RESULT:
                        if r.a[1] == 1:
                            continue
                        r = r.a[2]
                    x = value(eng, st, r)
                    if to[0] == "other" and to[1] in INTS:
                        good = "from_be_bytes" in show(x, 2) and contains(x, lambda z: z is y)
                    else:
                        good = x is y
                    R.check(good, "P16.from", "%s into %s" % (nm, tyname_of(to)), "the conversion from %s to %s does not keep the bytes" % (nm, tyname_of(to)), None, eng)
    R.floor("P16.from", nfrom, 20, "conversions")
    memory(W, R)


def tyname_of(t):
    if t[0] == "ref":
        return "&" + tyname_of(t[2])
    if t[0] == "adt":
        return t[1].split("::")[-1]
    if t[0] in ("slice", "array"):
        return "[%s]" % tyname_of(t[1])
    return str(t[1]) if len(t) > 1 else t[0]


def memory(W, R):
    p = W.p
    n = 0
    for i in sorted(p.impls, key=lambda i: str(i["self"])):
        if not i["tr"].endswith("::DbXxxObjectSafe") or i["self"][0] != "adt" or i["self"][1] in (W.FM, W.INNER):
            continue
        kt = i["ta"][1]
        if kt[0] != "adt":
            continue
        n += 1
        K = Kind(W, Report("x"), kt)
        nm = i["self"][1].split("::")[-1]
        maps = set()
        if K.path is None:
            continue
        for op in ("get_kt", "put_kt", "del_kt"):
            f = p.fns.get(i["items"].get(i["tr"] + "::" + op))
            key = "%s::%s" % (nm, op)
            if not R.check(f is not None, "P16.mem", key + " is there", "%s has no %s" % (nm, op)):
                continue
            eng = W.run(key, f, {}, None, None, None, {"opaque": ()})
            R.check(len(eng.exits) > 0, "P16.mem", key + " ends", "%s never returns" % key, None, eng)
            for r, st in eng.exits:
                A = K.bytes(eng, eng.load(st, eng.args[1]))
                same = lambda k: K.bytes(eng, value(eng, st, k)) is A
                if not R.check(r.op == "adt" and r.a[0] == RESULT and r.a[1] == 0, "P16.mem", key + " succeeds", "%s can answer an error" % key, None, eng):
                    continue
                x = r.a[2]
                edits = {y for v in st.mem.values() for y in subterms(v) if y.op in ("minsert", "mremove", "mclear", "vset", "vpush", "vrem") and contains(y, lambda z: z is eng.args[0])}
                if op == "put_kt":
                    V = bare(eng.load(st, eng.args[2]))
                    good = len(edits) == 1 and all(e.op == "minsert" and same(e.a[1]) and value(eng, st, e.a[2]) is V for e in edits)
                    R.check(good, "P16.mem", key, "%s does not put exactly the given value under the given key" % key, None, eng)
                    maps |= {e.a[0] for e in edits if e.op == "minsert"}
                    continue
                if op == "del_kt":
                    good = len(edits) == 1 and all(e.op == "mremove" and same(e.a[1]) for e in edits)
                    R.check(good, "P16.mem", key, "%s does not remove exactly the given key" % key, None, eng)
                else:
                    R.check(not edits, "P16.mem", key + " changes", "%s changes the map" % key, None, eng)
                # the answer
                good, m = False, None
                if x is NONE:
                    for t, v in st.facts.items():
                        if t.op == "discr" and v == 0:
                            m = got(t.a[0])
                            good = good or m is not None and same(m.a[2])
                elif x.op == "adt" and x.a[0] == OPTION:
                    y = value(eng, st, x.a[2])
                    m = [z for z in subterms(y) if got(z) is not None]
                    good = len(m) == 1 and same(m[0].a[2]) and whole(y, m[0])
                    m = m[0] if m else None
                else:
                    m = got(x)
                    good = m is not None and same(m.a[2])
                R.check(good, "P16.mem", key + " answer", "%s does not answer with the value under the given key: %s" % (key, show(x, 7)), None, eng)
                if good:
                    maps.add(m.a[1])
        where_ = {tuple(path_of(m)) for m in maps}
        R.check(len(where_) == 1, "P16.mem", nm + " one map", "%s does not look up, put and delete in the same place" % nm)
    R.floor("P16.mem", n, 3, "maps in memory")


def got(t):
    return t if t.op == "call" and str(t.a[0]).startswith("map_get") or t.op in ("map_get", "map_get_val") else None


def whole(t, m):
    """t is the payload of m and not a part of it"""
    t = bare(t)
    while t is not m:
        if t.op in ("deref", "as", "hv", "cptr") or t.op == "fld" and t.a[0].op == "as":
            t = t.a[0]
        else:
            return False
    return True


def path_of(t):
    out = []
    while t.op in ("fld", "deref", "hv"):
        if t.op == "fld":
            out.append(t.a[1])
        t = t.a[0]
    return out
