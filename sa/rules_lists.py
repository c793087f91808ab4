"""P08: free lists stay well formed.  P10: records fit their place.  P11: tables."""
from core import *
from models import phi_leaves, veclen
import layout, terms
from terms import *
from layout import Layout, strip, uncast, file_roots, KALL
from rules_layout import actor, Book, FREE
from rules_err import is_ok


def pm_fns(W):
    """functions that look at the tables of size classes and list heads: taken as pure functions of the table and a size"""
    pm = W.adt("PieceMgr")

    def about(t):
        while isinstance(t, tuple) and t[0] in ("ref", "ptr"):
            t = t[2]
        return isinstance(t, tuple) and t[0] == "adt" and t[1] == pm
    fs = {}
    for f in W.p.fns.values():
        if f.kind == "Closure" or not any(about(f.lty[i + 1]) for i in range(f.argc)):
            continue
        if any(f.lty[i + 1][0] in ("ref", "ptr") and f.lty[i + 1][1] for i in range(f.argc)):
            continue
        r = f.lty[0]
        if r[0] in ("ref", "ptr") or r[0] == "adt" and r[1].split("::")[-1] in ("Result",):
            continue
        if f.trait and f.trait.split("::")[-1] in ("Debug", "Clone"):
            continue
        fs[f.d] = f
    return {d: f for d, f in fs.items() if not any(x in fs for x in W.p.cg.get(d, ()) if x != d)}


def hooks(W):
    def h(eng, st, ctx, site, f, sub, args, t):
        return [(mk("call", f.d, *[eng.pv(st, a) for a in args]), st)]
    return {d: h for d in pm_fns(W)}


LP, OWN, SZW, ZER = "lp", "own", "szw", c(0)
eqz = lambda x: mk("op", "Eq", x, ZER) if x.id <= ZER.id else mk("op", "Eq", ZER, x)


def fact(eng, facts, k):
    return facts.get(k) == 1


def is_zero(facts, x):
    return x is ZER or facts.get(eqz(x)) == 1 or facts.get(mk("isc", x)) == 0


def own_implied(eng, facts, k):
    return is_zero(facts, k.a[0])


def drop(st, pred):
    for k in [k for k in st.facts if pred(k)]:
        del st.facts[k]


def val(t):
    """the number in a size or place"""
    while t.op == "adt" and len(t.a) > 2:
        t = t.a[2]
    return t


def samesize(s, size):
    s, size = strip(uncast(s)), strip(uncast(size))
    return s is size or s.op == "fld" and s.a[0] is size or size.op == "fld" and size.a[0] is s


class Lists(object):
    """the list operations of one root: at each write of a list head or link, what is known to hold on the way there.
    lp(x, y): the link that leads to y is kept at record x (x is 0: in the head that was read last);
    own(x): x is 0, or was appended or taken off its list on the way here; szw(x, s): size s was stored in record x"""

    def __init__(self, W, lab, fn):
        self.W = W
        self.pm = pm_fns(W)
        self.res = {}          # node -> {rule: (bool, text)}
        self.links = {}        # distance of the link from the start of the record -> node
        self.counts = {}
        self.tree = W.adt("TreeNode")
        self.offset = "offset"
        self.lab = lab
        self.lr = set()        # what was read from heads and links
        o = {"hook": hooks(W), "ghostsame": ("base",), "relfacts": {LP: None, OWN: own_implied, SZW: None, "eqz": None}, "stores": True}
        self.options(o)
        self.eng = layout.run(W, lab, fn, {}, o, self.step, "")

    def options(self, o):
        pass

    def say(self, rule, n, good, text):
        d = self.res.setdefault((rule, n), [True, text])
        if not good and d[0]:
            d[0], d[1] = False, text
        self.counts[rule] = self.counts.get(rule, 0) + 1

    def head(self, b):
        b = strip(b)
        return b if b.op == "call" and b.a[0] in self.pm else None

    def where(self, pos):
        """(record, distance) of a place"""
        k, ps = lin_parts(pos)
        if len(ps) == 1 and ps[0][1] == 1:
            return ps[0][0], k
        return None, None

    def listed(self, st, x):
        return any(k.op == LP and k.a[1] is x for k in st.facts)

    def step(self, eng, st, n):
        if n.kind == "store":
            self.stored(eng, st, n)
            return
        if n.kind == "ret":
            if is_ok(n.name):
                self.say("left", n, not st.trk[0], "returns with success after writing the link of a record that was put on no list")
            return
        if n.kind == "ok" and n.name == "seek" and n.args[0].op == "adt" and n.args[0].a[1] == 1:
            st.facts[mk(OWN, n.res)] = 1
        for a in eng.lastacc:
            if a.pos is None:
                continue
            h = self.head(a.pos)
            if a.wr:
                self.write(eng, st, n, a, h)
            elif a.w is c(8) and h is not None:
                drop(st, lambda k: k.op == LP and k.a[0] is ZER or k.op == "hd")
                st.facts[mk(LP, ZER, n.res)] = 1
                self.lr.add(n.res)
                st.facts[mk("hd", h)] = 1
            elif a.w is c(8):
                b, d = self.where(a.pos)
                if b is not None and self.listed(st, b):
                    st.facts[mk(LP, b, n.res)] = 1
                    self.lr.add(n.res)
                    self.links.setdefault(d, n)
                    self.say("null", n, st.facts.get(eqz(b)) == 0, "reads the link of a record that may be the end of the list (0)")

    def write(self, eng, st, n, a, h):
        x = strip(a.val) if a.val is not None else None
        if h is not None:
            self.headwrite(eng, st, n, h, x)
            return
        b, d = self.where(a.pos)
        if b is None or a.w.op != "c":
            if a.w.op != "c" and n.name != "write_zero":
                self.payload(eng, st, n, self.base(st, n))
            return
        if d == 0 and x is not None and a.w.a[0] < 8:
            drop(st, lambda k: k.op == SZW and k.a[0] is b)
            st.facts[mk(SZW, b, x)] = 1
        if a.w is not c(8) or x is None:
            return
        if fact(eng, st.facts, mk(LP, ZER, x)) and not self.listed(st, b):
            # the old head becomes the link of another record
            self.links.setdefault(d, n)
            st.trk = ("P",) + st.trk[1:]
            drop(st, lambda k: k.op == "pend")
            st.facts[mk("pend", b)] = 1
        elif self.listed(st, b) or self.listed(st, x):
            self.links.setdefault(d, n)
            cur = [k.a[0] for k in st.facts if k.op == LP and k.a[1] is x]
            good = [q for q in cur if fact(eng, st.facts, mk(LP, b, q)) and st.facts.get(eqz(b)) == 0]
            self.say("unlink", n, bool(good), "changes the link of a list record to something else than the link of the record behind it")
            drop(st, lambda k: k.op == LP and k.a[0] is b)
            for q in good:
                st.facts[mk(OWN, q)] = 1
                self.unlinked(eng, st, n, q, None)

    def base(self, st, n):
        return st.mem.get(layout.g(n.file[1] or "?", "base"))

    def headwrite(self, eng, st, n, h, x):
        size = strip(val(h.a[-1]))
        if fact(eng, st.facts, mk("pend", x)) and x is not None:
            same = fact(eng, st.facts, mk("hd", h))
            self.say("push", n, same, "makes a record the head of another list than the one whose old head it links to")
            sz = [k.a[1] for k in st.facts if k.op == SZW and k.a[0] is x]
            self.say("size", n, bool(sz) and any(samesize(s, size) for s in sz), "puts a record on a list that is not the one of the size stored in it")
            st.trk = ("",) + st.trk[1:]
            drop(st, lambda k: k.op == "pend")
            self.freed(eng, st, n, x)
        else:
            good = []
            for k in list(st.facts):
                if k.op == LP and k.a[1] is x and k.a[0] is not ZER:
                    b = k.a[0]
                    for k2 in list(st.facts):
                        if k2.op == LP and k2.a[1] is b and is_zero(st.facts, k2.a[0]):
                            good.append(b)
            same = fact(eng, st.facts, mk("hd", h))
            self.say("pop", n, bool(good) and same, "sets a list head to something else than the link of the first record of that list, or a record that links to the old head")
            for q in good:
                st.facts[mk(OWN, q)] = 1
                self.unlinked(eng, st, n, q, h)
        drop(st, lambda k: k.op == LP and k.a[0] is ZER or k.op == "hd")

    def unlinked(self, eng, st, n, q, h):
        pass

    def freed(self, eng, st, n, x):
        pass

    def payload(self, eng, st, n, b):
        if b is None:
            return
        ls = [l for l in phi_leaves(eng, b)]
        self.say("reuse", n, not self.fromlist(ls) or fact(eng, st.facts, mk(OWN, b)), "writes a record to a place on a free list that was not taken off the list")

    def fromlist(self, ls):
        return any(contains(l, lambda y: y in self.lr) for l in ls)

    def stored(self, eng, st, n):
        """a node is given a place"""
        ref, v = n.args
        if ref.op != "ref" or not ref.a[1]:
            return
        e = ref.a[1][-1]
        if e[0] == "f" and e[2] == self.tree and e[3] == self.offset:
            self.payload(eng, st, n, v)


def reaches(W, f, targets):
    seen, todo = set(), [f.d]
    while todo:
        d = todo.pop()
        if d in targets:
            return True
        if d not in seen:
            seen.add(d)
            todo += W.p.cg.get(d, ())
    return False


def list_roots(W):
    pm = set(pm_fns(W))
    return [(lab, f) for lab, f in file_roots(W) if reaches(W, f, pm)]


def P08(W, R):
    for q, t in (("push", "a record becomes the head of a list only after its link was set to the head of that same list, read before and unchanged since"),
                 ("size", "the list a record is put on is that of the size stored in it"),
                 ("held", "a record is put on a list with the size that was stored in it while it was in use"),
                 ("pop", "a head is otherwise only set to the link of the record that is first in that list"),
                 ("unlink", "the link of a record on a list is only set to the link of the record behind it"),
                 ("null", "a link is read only from a record that is there"),
                 ("reuse", "a record is written to a place from a free list only after the place was taken off the list"),
                 ("left", "no operation succeeds between linking a record and making it the head"),
                 ("link", "the link is at the same place in every free record")):
        R.rule("P08." + q, t)
    tot = {}
    links = {}
    n = 0
    for lab, f in list_roots(W):
        n += 1
        L = Lists(W, lab, f)
        held = Room(W, lab, f)
        for (rule, nd), (good, text) in list(L.res.items()) + [(k, v) for k, v in held.res.items() if k[0] == "held"]:
            tot[rule] = tot.get(rule, 0) + 1
            R.check(good, "P08." + rule, "%s %s" % (actor(W, nd), nd.name), "%s %s" % (short(actor(W, nd)), text), nd, L.eng)
        for d, nd in L.links.items():
            links.setdefault(d, (nd, L.eng))
    R.check(len(links) == 1, "P08.link", "place of the link", "free records keep their link at different places: %s" % sorted(links), *(list(links.values())[0] if links else ()))
    for q, least in (("push", 4), ("size", 4), ("held", 4), ("pop", 6), ("unlink", 3), ("null", 6), ("reuse", 3), ("left", 6)):
        R.floor("P08." + q, tot.get(q, 0), least, q)
    R.floor("P08.push", n, 8, "operations that use the lists")


# ---------------------------------------------------------------------------------------------------------------- P10
RES, ROOM, APP, AT, FIL = "res", "room", "app", "at", "fil"


def res_implied(eng, facts, k):
    return facts.get(mk(APP, k.a[0])) == 1


def fil_implied(eng, facts, k):
    return facts.get(mk(APP, k.a[0])) != 1 and not any(x in eng.eofs for x in phi_leaves(eng, k.a[0]))


def room_implied(eng, facts, k):
    if is_zero(facts, k.a[0]):
        return True
    return any(f.op in (RES, SZW) and f.a[0] is k.a[0] and any(x.op == "op" and x.a[0] == "Lt" and v == 0 and number(x.a[1]) is number(f.a[1]) and number(x.a[2]) is k.a[1] for x, v in facts.items()) for f in list(facts))


def tree_preds(W):
    """predicates of an index node: {fn: fields they look at}"""
    tree = W.adt("TreeNode")
    out = {}
    for f in W.p.fns.values():
        if f.kind == "Closure" or f.argc != 1 or f.trait:
            continue
        t = f.lty[1]
        if t[0] != "ref" or t[1] or t[2][0] != "adt" or t[2][1] != tree or f.lty[0] != ("other", "bool"):
            continue
        fs = fields_read(W, f, tree, set())
        if len(fs) == 1:
            out[f.d] = next(iter(fs))
    return out


def fields_read(W, f, tree, seen):
    if f.d in seen:
        return set()
    seen.add(f.d)
    out = set()

    def walk(j):
        if isinstance(j, (list, tuple)):
            if len(j) >= 4 and j[0] == "f" and tree in j:
                out.add(tuple(j))
            for x in j:
                walk(x)
        elif isinstance(j, dict):
            for x in j.values():
                walk(x)
    walk(f.bbs)
    for d in W.p.cg.get(f.d, ()):
        if d in W.p.fns:
            out |= fields_read(W, W.p.fns[d], tree, seen)
    return out


def number(t):
    t = strip(uncast(t))
    while t.op == "fld" and str(t.a[3]).endswith("::Size"):
        t = t.a[0]
    return val(t)


class Room(Lists):
    """what is known of the space reserved for the records of one operation.
    res(b, s): s bytes are reserved at b; fit(s, m): s is at least m; app(b): b was the end of the file"""

    def options(self, o):
        W = self.W
        o["relfacts"].update({RES: res_implied, ROOM: room_implied, APP: None, AT: None, FIL: fil_implied})
        self.preds = tree_preds(W)
        self.large = large_tests(W)
        self.round = rounders(W)
        self.size = W.adt("Size")

        def h(eng, st, ctx, site, f, sub, args, t):
            return [(mk("call", f.d, eng.proj(eng.load(st, args[0]), self.preds[f.d])), st)]
        for d in self.preds:
            o["hook"][d] = h
        # the functions of the node cache that are handed a node
        self.bean = W.adt("NodeCacheBean", True)
        self.puts = {f.d for f in W.methods(W.NC).values() if any(self.isnode(f.lty[i + 1]) for i in range(1, f.argc))} if W.NC else set()
        self.given, self.ends = [], []
        o["callev"] = lambda f: f.d in self.puts
        o["track"] = lambda e, s: (s.trk, tuple(sorted((k.id, v) for k, v in s.facts.items() if k.op == "call" and k.a[0] in self.preds and isinstance(v, int) and not contains(k, lambda y: y.op in ("phi", "call", "elem", "sym", "hv") and y is not k))))

        o["learn"] = self.compared

    def compared(self, eng, st, t, v):
        """a size was found to be at least another one: so is the room of the places that have that size"""
        if t.op == "op" and t.a[0] == "Lt" and not v:
            x, m = number(t.a[1]), number(t.a[2])
            for k in [k for k in st.facts if k.op in (RES, SZW) and number(k.a[1]) is x]:
                st.facts[mk(ROOM, k.a[0], m)] = 1

    def sizes(self, st, b):
        return [k.a[1] for k in st.facts if k.op in (RES, SZW) and k.a[0] is b]

    def room(self, st, b):
        """the sizes that the place is known to have room for"""
        out = {k.a[1] for k in st.facts if k.op == ROOM and k.a[0] is b}
        for s in self.sizes(st, b):
            out |= self.fits(st, s)
        return {number(m) for m in out}

    def fits(self, st, s):
        """the rounded sizes that a size is known to be at least"""
        s0 = number(s)
        out = {k.a[2] for k, v in st.facts.items() if k.op == "op" and k.a[0] == "Lt" and v == 0 and number(k.a[1]) is s0}
        if self.rounded(s0) is not None:
            out.add(s0)
        return out

    def rounded(self, s):
        """the size that was rounded up to s"""
        s = number(s)
        return number(s.a[-1]) if s.op == "call" and s.a[0] in self.round else None

    def isnode(self, t):
        return t[0] == "adt" and t[1] == self.W.NODE

    def given_node(self, eng, st, n):
        """a node is handed to the node cache"""
        W, f = self.W, n.x["fn"]
        nd = [a for i, a in enumerate(n.args) if self.isnode(f.lty[i + 1])][0]
        sz = [number(a) for i, a in enumerate(n.args) if f.lty[i + 1][0] == "adt" and f.lty[i + 1][1] == self.size]
        dirty = [a for i, a in enumerate(n.args) if f.lty[i + 1] == ("other", "bool")]
        r, q = eng.locof(eng.proj(nd, ("f", 0, W.NODE, W.p.adts[W.NODE]["vs"][0]["f"][0]["n"])))
        v = {}
        for i, fl in enumerate(W.p.adts[W.TREE]["vs"][0]["f"]):
            v[fl["n"]] = eng.get(st, r, q + (("f", i, W.TREE, fl["n"]),))
        o, s = v["offset"], number(v["size"])
        b = eng.proj(o, ("f", 0, W.adt("Offset"), "val"))
        own = [number(x) for x in self.sizes(st, b)]
        pair = o.op == "fld" and s.op == "fld" and o.a[0] is s.a[0]
        self.say("pair", n, s in own or pair, "hands a node to the node cache whose size is not that of the place it is at")
        if any(d is not FALSE for d in dirty):
            self.say("kept", n, all(x in own or self.cached(b, x) for x in sz), "hands a changed node to the node cache with a size that is not that of its place")
            self.given.append((n, self.room(st, b) | {m for x in sz for m in self.fits(st, x)}, v, self.leaf(eng, st, v["downs"])))

    def leaf(self, eng, st, downs):
        return {(k.a[0], v) for k, v in st.facts.items() if k.op == "call" and k.a[0] in self.preds and k.a[1] is downs}

    def after(self):
        for n, room, v, leaf in self.given:
            bad = []
            for ks, ds, lf, e in self.ends:
                if any((p, 1 - t) in leaf for p, t in lf):
                    continue
                m = {mk("len", ks): mk("len", v["keys"]), mk("len", ds): mk("len", v["downs"])}
                x = subst(e, m, {})
                if not (x.op == "c" and x.a[0] <= self.least(n) or any(self.holds(q, x) for q in room)):
                    bad.append(x)
            self.say("fits", n, bool(self.ends) and not bad, "hands a changed node to the node cache whose %s bytes are not known to fit the place it is at" % ", ".join(show(x, 4) for x in bad[:1]))

    def cached(self, b, s):
        """the size that the node cache keeps for the node at b"""
        return any(y.op == "call" and str(y.a[0]).startswith("map_get") and contains(y, lambda z: z is b) for y in subterms(s))

    def step(self, eng, st, n):
        if n.kind == "ok" and n.name == "seek" and n.args[0].op == "adt" and n.args[0].a[1] == 1:
            st.facts[mk(APP, n.res)] = 1
        if n.kind == "ok" and n.name in ("seek", "stream_position"):
            b, o = layout.get2(st, n.file[1] or "?")
            drop(st, lambda k: k.op == AT and k.a[0] is n.res)
            if b is not None and b is not n.res:
                st.facts[mk(AT, n.res, add(b, o))] = 1
        if st.trk[0] == "A":
            for k, v in list(st.facts.items()):
                b = self.isend(st, k.a[2]) if k.op == "op" and k.a[0] == "Lt" and v == 0 else None
                if b is not None:
                    self.filled(st, b)
                    break
        if n.kind == "ret" and is_ok(n.name):
            self.say("filled", n, st.trk[0] != "A", "returns with success without having extended the file to the end of the place it appended")
            return
        if n.kind == "call" and n.name in self.puts:
            self.given_node(eng, st, n)
        for a in eng.lastacc:
            if a.pos is None or self.head(a.pos) is not None:
                continue
            b, d = self.where(a.pos)
            if a.wr:
                self.written(eng, st, n, a, b, d)
            elif d == 0 and a.w.op == "c" and a.w.a[0] < 8 and b is not None and a.val is not None:
                for m in self.room(st, b):
                    st.facts[mk(ROOM, b, m)] = 1
                st.facts[mk(RES, b, a.val)] = 1
        Lists.step(self, eng, st, n)

    def place(self, st, t):
        """t with the results of seeks written as the places they lead to"""
        m = {k.a[0]: k.a[1] for k in st.facts if k.op == AT}
        return subst(t, m, {})

    def isend(self, st, t):
        t = strip(self.place(st, t))
        for k in st.facts:
            if k.op == SZW and number(strip(sub(t, k.a[0]))) is number(k.a[1]):
                return k.a[0]
        return None

    def filled(self, st, b):
        st.trk = ("",) + st.trk[1:]
        st.facts[mk(FIL, b)] = 1

    def written(self, eng, st, n, a, b, d):
        if d == 0 and b is not None and a.w.op == "c" and a.w.a[0] < 8 and a.val is not None:
            s = number(a.val)
            if fact(eng, st.facts, mk(APP, b)) or self.fromeof(eng, b):
                if st.trk[0] == "" and not fact(eng, st.facts, mk(FIL, b)):
                    st.trk = ("A",) + st.trk[1:]
                good = fact(eng, st.facts, mk(APP, b)) or any(number(x) is s for x in self.sizes(st, b))
            else:
                good = any(number(x) is s for x in self.sizes(st, b)) or self.cached(b, s)
            if self.ofcache(a.val) and self.ofcache(b):
                x, y = number(a.val), b.a[0] if b.op == "fld" else b
                good = x.op == "fld" and y.op == "fld" and x.a[0] is y.a[0]
            self.say("kept", n, good, "stores a size in a record that is not the size of the space reserved there")
            return
        end = strip(add(a.pos, self.place(st, a.w)))
        parts = {x for x, m in lin_parts(end)[1] if m == 1}
        for k in list(st.facts):
            if k.op != SZW or k.a[0] not in parts:
                continue
            b, s = k.a
            e = number(strip(sub(end, b)))
            if e is number(s):
                if st.trk[0] == "A":
                    self.filled(st, b)
                continue
            if n.name == "write_zero":
                self.say("zero", n, False, "zero fills up to another place than the end of the record")
                continue
            if e.op == "c" and e.a[0] <= self.least(n):
                self.say("fits", n, True, "")
                continue
            x, ks, ds = self.node_of(e)
            if x is not None:
                if self.ofcache(x):
                    continue          # written back: checked where it was handed to the cache
                self.ends.append((ks, ds, self.leaf(eng, st, ds), e))
            if not any(self.holds(m, e) for m in self.room(st, b)):
                self.say("fits", n, False, "writes up to %s bytes into a record whose reserved size is not known to cover them" % show(e, 4))
            else:
                self.say("fits", n, True, "")

    def node_of(self, t):
        """the keys and children that a length is about"""
        ls = [x.a[0] for x in subterms(t) if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[3] == self.tree]
        if not ls:
            return None, None, None
        x = ls[0].a[0]
        fs = {fl["n"]: mk("fld", x, i, fl["n"], self.tree) for i, fl in enumerate(self.W.p.adts[self.tree]["vs"][0]["f"])}
        return x, fs["keys"], fs["downs"]

    def ofcache(self, t):
        return self.bean is not None and contains(t, lambda y: y.op == "fld" and y.a[3] == self.bean)

    def fromeof(self, eng, b):
        return any(x in eng.eofs for x in phi_leaves(eng, b))

    def least(self, n):
        if not hasattr(self.W, "_least"):
            self.W._least = min([s[0] for lab, f, e, n, h, s in file_tables(self.W) if s] or [0])
        return self.W._least

    def holds(self, m, e):
        """the unrounded size covers the bytes"""
        need = self.rounded(m)
        if need is None:
            return False
        d = strip(sub(slots(need, e), slots(e, need)))
        k, ps = lin_parts(d)
        return k >= 0 and all(q > 0 for x, q in ps)

    def freed(self, eng, st, n, x):
        """a record is put on a list: the size stored in it is the one it had"""
        sz = [number(k.a[1]) for k in st.facts if k.op == SZW and k.a[0] is x]
        had = [number(k.a[1]) for k in st.facts if k.op == RES and k.a[0] is x]
        self.say("held", n, bool(sz) and all(s in had or self.cached(x, s) for s in sz), "puts a record on a list with another size than the one stored in the record so far")

    def unlinked(self, eng, st, n, q, h):
        size = h.a[-1] if h is not None else None
        if size is not None and any(t.op == "call" and t.a[0] in self.large and v == 0 and t.a[-1] is size for t, v in st.facts.items()):
            st.facts[mk(ROOM, q, number(size))] = 1
        for m in self.room(st, q):
            st.facts[mk(ROOM, q, m)] = 1


def slots(t, u):
    """a node that is written has one child more than keys (P06)"""
    m = {}
    ks = {x.a[0].a[0]: x for q in (t, u) for x in subterms(q) if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[2] == "keys"}
    for x in subterms(t):
        if x.op == "len" and x.a[0].op == "fld" and x.a[0].a[2] == "downs" and x.a[0].a[0] in ks:
            m[x] = add(ks[x.a[0].a[0]], c(1))
    return subst(t, m, {}) if m else t


def lower(t, s):
    """k if t is at least s + k, whatever the value of s"""
    t = uncast(t)
    if t is s:
        return 0
    if t.op == "lin":
        k, ps = lin_parts(t)
        if len(ps) != 1 or ps[0][1] < 1:
            return None
        x, m = ps[0]
        if m == 1:
            d = lower(x, s)
            return None if d is None else d + k
        x = uncast(x)
        if x.op == "op" and x.a[0] == "Div" and x.a[2] is c(m):
            d = lower(x.a[1], s)
            return None if d is None else d - (m - 1) + k
        if x.op == "op" and x.a[0] == "Shr" and x.a[2].op == "c" and 1 << x.a[2].a[0] == m:
            d = lower(x.a[1], s)
            return None if d is None else d - (m - 1) + k
        return None
    if t.op == "op" and t.a[0] == "Mul":
        for x, m in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if m.op == "c" and uncast(x).op == "op" and uncast(x).a[0] == "Div" and uncast(x).a[2] is m:
                d = lower(uncast(x).a[1], s)
                return None if d is None else d - (m.a[0] - 1)
    if t.op == "op" and t.a[0] == "Shl" and t.a[2].op == "c":
        x = uncast(t.a[1])
        if x.op == "op" and x.a[0] == "Shr" and x.a[2] is t.a[2]:
            d = lower(x.a[1], s)
            return None if d is None else d - ((1 << t.a[2].a[0]) - 1)
    return None


def elems(t, name):
    """the index, if t is an element of the table"""
    t = uncast(t)
    if t.op == "deref":
        t = uncast(t.a[0])
    return t.a[1] if t.op == "elem" and contains(t.a[0], lambda y: y.op == "fld" and y.a[2] == name) else None


class Table(object):
    """what the functions that look at the tables compute, from an analysis of each of them on its own"""

    def __init__(self, W):
        self.W = W
        self.pm = W.adt("PieceMgr")
        self.heads = self.sizes = None
        for f in W.p.adts[self.pm]["vs"][0]["f"]:
            t = W.p.ty(f["t"])
            while t[0] in ("ref", "ptr", "slice", "array"):
                t = t[2] if t[0] in ("ref", "ptr") else t[1]
            if t == ("other", "u64"):
                self.heads = f["n"]
            elif t == ("other", "u32"):
                self.sizes = f["n"]
        self.fns = {}
        for d, f in pm_fns(W).items():
            out = []

            def step(e, st, n):
                if n.kind == "ret":
                    out.append((n.args[0], dict(st.facts), n))

            def track(e, s):
                o = set()
                for k, v in s.facts.items():
                    if k.op == "op" and k.a[0] in ("Lt", "Eq"):
                        for i in (1, 2):
                            if elems(k.a[i], self.sizes) is not None:
                                o.add((k.a[0], i, v))
                return (s.trk, tuple(sorted(o)))
            eng = W.run(f.name, f, {}, step, "", opts={"track": track, "meets": True})
            self.fns[d] = (f, eng, out)

    def size_arg(self, f, eng):
        """the number in the (first) size argument"""
        a = eng.args[1]
        return a

    def isize(self, x, eng, i=1):
        x = number(x)
        return x.op in ("fld", "arg") and contains(x, lambda y: y is eng.args[i]) or x is eng.args[i]

    def each(self, eng, v, facts, good, seen=frozenset()):
        """the values that a result may be, each with whether it is good given what is known where it is chosen"""
        v = number(v)
        g = v.op != "phi" and good(v, facts)
        if g:
            yield v, g
            return
        if v in seen:
            return
        ph = [x for x in subterms(v) if x.op == "phi" and x.a[0] in eng.meets]
        if not ph or ph[0] in seen:
            yield v, False
            return
        for m, fa in eng.meets[ph[0].a[0]]:
            if ph[0] in m:
                yield from self.each(eng, m[v] if v in m else subst(v, m, {}), fa, good, seen | {v, ph[0]})

    def same(self, eng, mp):
        """{variable: the first variable that is always equal to it}, of one join"""
        sig, out = {}, {}
        rows = eng.meets[mp]
        for ph in sorted({p for m, fa in rows for p in m}, key=lambda p: p.id):
            out[ph] = sig.setdefault(tuple(m.get(ph) for m, fa in rows), ph)
        return out

    def canon(self, eng, t):
        """t with equal variables made one"""
        ph = [x for x in subterms(t) if x.op == "phi" and x.a[0] in eng.meets]
        m = {x: self.same(eng, x.a[0]).get(x, x) for x in ph}
        m = {x: y for x, y in m.items() if x is not y}
        return subst(t, m, {}) if m else t

    def element(self, v, eng):
        if elems(v, self.sizes) is not None:
            return True
        return v.op == "deref" and v.a[0].op == "phi" and all(contains(x, lambda y: y.op == "fld" and y.a[2] == self.sizes) for x in phi_leaves(eng, v.a[0]))

    def rounder(self, d):
        """the results that are not known to be at least the size given"""
        f, eng, out = self.fns[d]

        def good(v, facts):
            if self.element(v, eng):
                v = self.canon(eng, v)

                def it(x):
                    return self.canon(eng, number(x)) is v
                return any(k.op == "op" and (k.a[0] == "Lt" and t == 0 and it(k.a[1]) and self.isize(k.a[2], eng)
                                             or k.a[0] == "Lt" and t == 1 and it(k.a[2]) and self.isize(k.a[1], eng)
                                             or k.a[0] == "Eq" and t == 1 and any(it(x) for x in k.a[1:]) and any(self.isize(x, eng) for x in k.a[1:])) for k, t in facts.items())
            return any((-1 if lower(v, x) is None else lower(v, x)) >= 0 for x in subterms(v) if self.isize(x, eng))
        return [(v, n) for r, fa, n in out for v, g in self.each(eng, r, fa, good) if not g]

    def sameclass(self, d):
        """(results that are neither the list head of the class of the size nor the last list head, number of the others)"""
        f, eng, out = self.fns[d]

        def good(v, facts):
            i = elems(v, self.heads)
            i = i if i is None else self.canon(eng, i)
            if i is not None and any(k.op == "op" and k.a[0] == "Eq" and t == 1 and any(elems(x, self.sizes) is not None and self.canon(eng, elems(x, self.sizes)) is i for x in k.a[1:]) and any(self.isize(x, eng) for x in k.a[1:]) for k, t in facts.items()):
                return "class"
            return "last" if self.last(v, self.heads) else False
        o = [(v, n, g) for r, fa, n in out for v, g in self.each(eng, r, fa, good)]
        return [(v, n) for v, n, g in o if not g], sum(g == "class" for v, n, g in o), sum(g == "last" for v, n, g in o)

    def large(self, d):
        """the result is: the size is at least the last size class"""
        f, eng, out = self.fns[d]
        for r, fa, n in out:
            if r in (TRUE, FALSE):
                ok_ = any(self.atleast(k, t == 0, eng) is (r is TRUE) for k, t in fa.items())
            else:
                ok_ = self.atleast(r.a[0], True, eng) is True if r.op == "not" else self.atleast(r, False, eng) is True
            if not ok_:
                return False
        return bool(out)

    def atleast(self, k, neg, eng):
        """True: k (or not k) says that the size is at least (or above) the last size class; False: the opposite"""
        if k.op != "op" or k.a[0] != "Lt":
            return None
        if self.isize(k.a[1], eng) and self.last(k.a[2], self.sizes):
            return neg
        if self.isize(k.a[2], eng) and self.last(k.a[1], self.sizes):
            return not neg
        return None

    def last(self, t, name):
        i = elems(t, name)
        if i is None:
            return False
        k, ps = lin_parts(i)
        return k == -1 and len(ps) == 1 and ps[0][1] == 1 and ps[0][0].op == "len" and contains(ps[0][0], lambda y: y.op == "fld" and y.a[2] in (self.heads, self.sizes))


def tables(W):
    t = getattr(W, "_tables", None)
    if t is None:
        t = W._tables = Table(W)
    return t


def size_fns(W):
    T_ = tables(W)
    sz = W.adt("Size")
    return [d for d, (f, eng, out) in T_.fns.items() if f.lty[0][0] == "adt" and f.lty[0][1] == sz]


def rounders(W):
    t = tables(W)
    return {d for d in size_fns(W) if not t.rounder(d) or evaluated(W, d, lambda s, x, last: x >= s)}


def large_tests(W):
    t = tables(W)
    return {d for d in t.fns if t.fns[d][0].lty[0] == ("other", "bool") and (t.large(d) or t.fns[d][0].argc == 2 and evaluated(W, d, lambda s, x, last: x == int(s >= last)))}


def evaluated(W, d, good):
    """the function, over the tables of each file, gives a good result for each size up to beyond the last class, and keeps
    to one result or a rounding up to a multiple from there"""
    tabs = [(lab, ss) for lab, f, eng, node, hs, ss in file_tables(W) if ss]
    if not tabs:
        return False
    for lab, ss in tabs:
        if not all(isinstance(x, int) for x in ss):
            return False
        P = Pieces(W, W.p.fns[d], W._fpm[lab])
        top = 2 * ss[-1] + 512
        for s in range(1, top + 1):
            if not all(x is not None and good(s, x, ss[-1]) for x in P.at(s)):
                return False
        for lo, hi, v, n, facts in P.pieces:
            if hi > top and not (v in (TRUE, FALSE) or v is not None and (v.op == "not" or any((lower(v, x) or 0) >= 0 and lower(v, x) is not None for x in subterms(v) if P.isize(x)))):
                return False
    return True


def file_tables(W):
    """[(open function, (list heads, size classes))] : the constants that each file is opened with"""
    o = getattr(W, "_ftab", None)
    if o is not None:
        return o
    t = tables(W)
    names = [f["n"] for f in W.p.adts[t.pm]["vs"][0]["f"]]
    o = W._ftab = []
    for lab, f in file_roots(W):
        if f.name.startswith("open") is False and not any("open" in x for x in (f.d,)):
            continue
        seen = {}

        def step(e, st, n):
            if n.kind != "ret":
                return
            for k, a in st.mem.items():
                if isinstance(a, T):
                    for x in subterms(a):
                        if x.op == "adt" and x.a[0] == t.pm:
                            seen.setdefault(x, n)
        eng = W.run(lab, f, {}, step, "")
        for x, n in seen.items():
            v = {}
            for nm, y in zip(names, x.a[2:]):
                y = y.a[0] if y.op == "cptr" else y
                v[nm] = [z.a[0] for z in y.a] if y.op in ("arr", "tup") and all(z.op == "c" for z in y.a) else None
            o.append((lab, f, eng, n, v.get(t.heads), v.get(t.sizes)))
            W.__dict__.setdefault("_fpm", {})[lab] = x
    return o


class Pieces(object):
    """a function of one size over constant tables, as pieces: (lowest size, highest size, result)"""
    TOP = (1 << 32) - 1

    def __init__(self, W, f, pm):
        self.f = f

        def setup(eng, st, av):
            r, q = eng.locof(av[0])
            eng.put(st, r, q, pm)
        self.out = []

        def step(e, st, n):
            if n.kind in ("ret", "diverge", "panic"):
                self.out.append((number(n.args[0]) if n.kind == "ret" else None, dict(st.facts), n))

        def track(e, s):
            return (tuple(sorted((r.id, v.id) for r, v in s.mem.items() if isinstance(v, T))), tuple(sorted((k.id, v) for k, v in s.facts.items() if self.mine(k, e))))
        self.eng = W.run(f.name, f, {}, step, "", setup, {"track": track, "budget": 200000})
        self.pieces = []
        for v, facts, n in self.out:
            lo, hi = self.span(facts)
            if lo <= hi:
                self.pieces.append((lo, hi, v, n, facts))
        self.pieces.sort(key=lambda x: x[:2])

    def isize(self, x):
        x = number(x)
        return x.op in ("fld", "arg", "as") and contains(x, lambda y: y is self.eng.args[1])

    def mine(self, k, eng):
        self.eng = eng
        return k.op in ("op", "discr") and contains(k, lambda y: y is eng.args[1])

    def span(self, facts):
        """an interval outside of which the facts do not hold"""
        lo, hi = 1, self.TOP
        for k, t in facts.items():
            if k.op != "op" or k.a[0] not in ("Lt", "Eq"):
                continue
            for x, y, left in ((k.a[1], k.a[2], True), (k.a[2], k.a[1], False)):
                y = uncast(y)
                if not self.isize(x) or y.op != "c":
                    continue
                y = y.a[0]
                if k.a[0] == "Eq":
                    if t:
                        lo, hi = max(lo, y), min(hi, y)
                elif left:                 # size < y
                    lo, hi = (lo, min(hi, y - 1)) if t else (max(lo, y), hi)
                else:                      # y < size
                    lo, hi = (max(lo, y + 1), hi) if t else (lo, min(hi, y))
        return lo, hi

    def at(self, s):
        """{result: node} for the size s (None: not known)"""
        o = {}
        for lo, hi, v, n, facts in self.pieces:
            if not lo <= s <= hi:
                continue
            free = None
            for k in facts:
                for x in subterms(k):
                    if x.op == "call" and x.a[0] in ("bsearch", "bsearch_ins") and value(x, self.isize, s) is None:
                        a, y = array(x.a[1], self.isize, s), value(x.a[2], self.isize, s)
                        if a is not None and y is not None:
                            lo = hi + 1        # found / not found does not fit the size
                    if x.op == "call" and x.a[0] == "ppoint":
                        free = x
            if lo > hi:
                continue
            a = None if free is None else array(free.a[1], self.isize, s)
            for i in (None,) if a is None else range(len(a) + 1):
                m = {} if i is None else {free: c(i)}
                if all(value(subst(k, m, {}), self.isize, s) in (None, int(t)) for k, t in facts.items()):
                    o[value(subst(v, m, {}), self.isize, s) if v is not None else None] = n
        return o or {None: None}


def value(t, isx, s):
    """t, with s for what isx names: a number, or None"""
    t = uncast(t)
    if t.op == "c":
        return int(t.a[0]) if isinstance(t.a[0], int) else None
    if isx(t):
        return s
    if t.op == "lin":
        k, ps = lin_parts(t)
        for x, m in ps:
            v = value(x, isx, s)
            if v is None:
                return None
            k += m * v
        return k
    if t.op == "not":
        v = value(t.a[0], isx, s)
        return None if v is None else int(not v)
    if t.op == "elem":
        a, i = array(t.a[0], isx, s), value(t.a[1], isx, s)
        return a[i] if a is not None and i is not None and 0 <= i < len(a) else None
    if t.op == "len":
        a = array(t.a[0], isx, s)
        return None if a is None else len(a)
    if t.op == "call" and t.a[0] in ("bsearch", "bsearch_ins"):
        a, x = array(t.a[1], isx, s), value(t.a[2], isx, s)
        if a is None or x is None:
            return None
        i = sum(y < x for y in a)
        return i if (x in a) == (t.a[0] == "bsearch") else None
    if t.op == "op":
        a, b = (value(x, isx, s) for x in t.a[1:3])
        if a is None or b is None:
            return None
        return {"Div": lambda: a // b if b else None, "Rem": lambda: a % b if b else None, "Mul": lambda: a * b, "Shl": lambda: a << b, "Shr": lambda: a >> b,
                "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "Lt": lambda: int(a < b), "Eq": lambda: int(a == b)}.get(t.a[0], lambda: None)()
    return None


def array(t, isx, s):
    """the numbers in an array, or None"""
    t = uncast(t)
    if t.op in ("cptr", "deref"):
        return array(t.a[0], isx, s)
    if t.op == "slice":
        a, i = array(t.a[0], isx, s), value(t.a[1], isx, s)
        j = len(a or ()) if t.a[2] == "end" else value(t.a[2], isx, s)
        return None if a is None or i is None or j is None else a[i:j]
    if t.op in ("arr", "tup"):
        a = [value(x, isx, s) for x in t.a]
        return None if None in a else a
    return None


def P11(W, R):
    for q, t in (("sizes", "size classes are known constants, strictly increasing multiples of 8, the smallest holds a free record, one list head per class"),
                 ("heads", "list heads lie apart from each other and from the other header fields, inside the header, and start as zero"),
                 ("round", "rounding gives multiples of 8, never smaller than the size"),
                 ("list", "each size that rounding gives has a list; a list taken from without comparing sizes holds no smaller one"),
                 ("classes", "different classes have different lists")):
        R.rule("P11." + q, t)
    t = tables(W)
    B = Book(W, lambda lab, f: not lab.startswith("Inner::") and f.d not in W.p.rec)
    free = 0
    for L, x, cl, cs in B.places:
        if cl == FREE and x.a.wr and x.rel is not None and x.rel.op == "c" and x.w.op == "c":
            free = max(free, x.rel.a[0] + x.w.a[0])
    R.check(free >= 8, "P11.sizes", "free record", "no record on a free list is ever written")
    fns = pm_fns(W)
    rnd = [fns[d] for d in size_fns(W)]
    heads = [f for d, f in fns.items() if f.lty[0] == ("other", "u64")]
    tests = [f for d, f in fns.items() if f.lty[0] == ("other", "bool") and f.argc == 2]
    n = 0
    for lab, f, eng, node, hs, ss in file_tables(W):
        if hs == [] and ss == []:
            continue
        kind = B.kind_of(lab)
        n += 1
        if not R.check(bool(hs) and bool(ss) and all(isinstance(x, int) for x in hs + ss), "P11.sizes", "%s known" % kind, "the tables the %s file opens with are not constants" % kind, node, eng):
            continue
        R.check(all(a < b for a, b in zip(ss, ss[1:])), "P11.sizes", "%s increasing" % kind, "the size classes of the %s file are not strictly increasing" % kind, node, eng)
        R.check(len(hs) == len(ss), "P11.sizes", "%s count" % kind, "the %s file has %d size classes and %d list heads" % (kind, len(ss), len(hs)), node, eng)
        R.check(all(x % 8 == 0 for x in ss), "P11.sizes", "%s aligned" % kind, "a size class of the %s file is no multiple of 8" % kind, node, eng)
        R.check(ss[0] >= free, "P11.sizes", "%s smallest" % kind, "the smallest size class of the %s file does not hold a free record (%d bytes)" % (kind, free), node, eng)
        fields, zero, end = B.header_fields(kind)
        for h in hs:
            R.check(all(abs(h - o) >= 8 for o in hs if o != h) and hs.count(h) == 1, "P11.heads", "%s apart" % kind, "list heads of the %s file overlap at %d" % (kind, h), node, eng)
            bad = [(a, w) for a, w in fields if a < h + 8 and h < a + w]
            R.check(not bad, "P11.heads", "%s fields" % kind, "the list head at %d of the %s file overlaps the header field %s" % (h, kind, bad[:1]), node, eng)
            R.check(h + 8 <= end, "P11.heads", "%s inside" % kind, "the list head at %d of the %s file lies behind its header (%d bytes)" % (h, kind, end), node, eng)
            R.check(any(a <= h and h + 8 <= a + w for a, w in zero), "P11.heads", "%s zero" % kind, "the list head at %d of a new %s file is not set to zero" % (h, kind), node, eng)
        pm = W._fpm[lab]
        top = 2 * ss[-1] + 512
        img = set()
        for r in rnd:
            P = Pieces(W, r, pm)
            bad = None
            for s in range(1, top + 1):
                for x, nd in P.at(s).items():
                    if x is None or x < s or x % 8:
                        bad = bad or (s, x, nd)
                    else:
                        img.add(x)
            R.check(bad is None, "P11.round", "%s %s" % (kind, short(r.d)), "%s of the %s file gives %s for size %s" % ((short(r.d), kind) + ((bad[1], bad[0]) if bad else ("", ""))), bad[2] if bad else None, P.eng)
        big = {}
        for d in tests:
            P = Pieces(W, d, pm)
            for v in img:
                x = P.at(v)
                big[v] = big.get(v, True) and set(x) == {1}
        for h in heads:
            P = Pieces(W, h, pm)
            of = {v: set(P.at(v)) for v in img | set(ss)}
            bad = [v for v in sorted(of) if len(of[v]) != 1 or not of[v] <= set(hs)]
            R.check(not bad, "P11.list", "%s %s" % (kind, short(h.d)), "%s of the %s file gives %s for size %s" % (short(h.d), kind, sorted(map(str, of[bad[0]])) if bad else "", bad[0] if bad else ""), None, P.eng)
            low = {}
            for v in sorted(img):
                for x in of[v]:
                    low.setdefault(x, v)
            bad = [v for v in sorted(img) if not big.get(v) and any(low[x] < v for x in of[v])]
            R.check(not bad, "P11.list", "%s %s larger" % (kind, short(h.d)), "a request for %s bytes of the %s file takes the first record of a list that also holds records of %s bytes" % (bad[0] if bad else "", kind, low[next(iter(of[bad[0]]))] if bad else ""), None, P.eng)
            R.check(len({tuple(of[v]) for v in ss}) == len(ss), "P11.classes", "%s %s" % (kind, short(h.d)), "%s gives two size classes of the %s file the same list" % (short(h.d), kind), None, P.eng)
    R.floor("P11.sizes", n, 3, "files with size classes")
    R.floor("P11.round", len(rnd), 1, "rounding functions")
    R.floor("P11.list", len(heads), 1, "functions that choose a list")


def P10(W, R):
    for q, t in (("round", "rounding never gives a smaller size"),
                 ("large", "whether a size class holds records of different sizes is decided by the last size class"),
                 ("kept", "the size stored in a record is the size appended or the size read from the recycled place"),
                 ("fits", "every field of a record ends within the size reserved for it"),
                 ("pair", "the size kept in a node is that of the place kept in it"),
                 ("zero", "filling with zeros ends where the record ends"),
                 ("filled", "a place appended to the file is written up to its end")):
        R.rule("P10." + q, t)
    t = tables(W)
    for d in size_fns(W):
        f, eng, out = t.fns[d]
        bad = [] if d in rounders(W) else t.rounder(d)
        R.check(not bad, "P10.round", short(d), "%s may return %s, which is not known to be at least the size given" % (short(d), ", ".join(sorted({show(v, 4) for v, n in bad}))), bad[0][1] if bad else None, eng)
    R.floor("P10.round", len(size_fns(W)), 1, "rounding functions")
    tests = [d for d in t.fns if t.fns[d][0].lty[0] == ("other", "bool") and t.fns[d][0].argc == 2]
    for d in tests:
        R.check(d in large_tests(W), "P10.large", short(d), "%s does not tell whether the size is at least the last size class" % short(d), t.fns[d][2][0][2] if t.fns[d][2] else None, t.fns[d][1])
    R.floor("P10.large", len(tests), 1, "tests")
    tot = {}
    for lab, f in list_roots(W):
        L = Room(W, lab, f)
        L.after()
        for (rule, nd), (good, text) in L.res.items():
            if rule not in ("kept", "fits", "zero", "filled", "pair"):
                continue
            tot[rule] = tot.get(rule, 0) + 1
            R.check(good, "P10." + rule, "%s %s" % (actor(W, nd), nd.name), "%s %s" % (short(actor(W, nd)), text), nd, L.eng)
    for q, least in (("kept", 6), ("fits", 12)):
        R.floor("P10." + q, tot.get(q, 0), least, q)
