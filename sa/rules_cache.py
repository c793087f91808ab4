"""P14: lookups never read stale index nodes."""
from core import *
from terms import *
import layout
from layout import strip, uncast
from rules_lists import reaches, hooks, drop, pm_fns, is_zero
from rules_rec import roles as list_roles, number_of
from rules_tree import Roles, adts_in, num, report
from prog import Prog
from models import default_of
from engine import veclen

CLEAN, MISS, TAKEN = "clean", "miss", "taken"


class Cache(object):
    """the functions of the node cache by what they take and give"""

    def __init__(self, W):
        self.W = W
        p = W.p
        off, size, node = W.adt("Offset"), W.adt("Size"), ("adt", W.NODE, ())
        vf = W.adt("VarFile")
        self.get, self.size, self.drop, self.put, self.flush, self.touch = set(), set(), set(), set(), set(), set()
        removes = {f.d for f in p.fns.values() if any(b["t"]["k"] == "call" and b["t"]["f"].get("k") == "fn" and b["t"]["f"]["d"].split("::")[-1] in ("remove", "swap_remove", "retain", "remove_entry") for b in f.bbs)}
        for f in W.methods(W.NC).values():
            ts = [self.bare(f.lty[i + 1]) for i in range(f.argc)]
            r = f.lty[0]
            if node in ts and r[0] == "adt" and r[1] == RESULT:
                self.put.add(f.d)
            elif any(t[0] == "adt" and t[1] == off for t in ts) and r[0] == "adt" and r[1] == OPTION:
                if r[2][0] == node:
                    self.get.add(f.d)
                elif r[2][0][0] == "adt" and r[2][0][1] == size:
                    (self.drop if f.d in removes or reaches(W, f, removes) else self.size).add(f.d)
            elif any(t[0] == "adt" and t[1] == vf for t in ts) and r[0] == "adt" and r[1] == RESULT:
                self.flush.add(f.d)
        # reading and writing one node in the file
        self.rawread, self.rawwrite = set(), set()
        for adt in (W.NODE, W.TREE):
            for f in W.methods(adt).values():
                ts = [self.bare(f.lty[i + 1]) for i in range(f.argc)]
                r = f.lty[0]
                if r[0] != "adt" or r[1] != RESULT or not any(t[0] == "adt" and t[1] == vf for t in ts):
                    continue
                if any(t[0] == "adt" and t[1] == off for t in ts) and (W.NODE in adts_in(r) or W.TREE in adts_in(r)):
                    self.rawread.add(f.d)
                elif any(t[0] == "adt" and t[1] in (W.NODE, W.TREE) for t in ts):
                    self.rawwrite.add(f.d)

    @staticmethod
    def bare(t):
        while t[0] in ("ref", "ptr"):
            t = t[2]
        return t


class Fresh(object):
    """what an operation reads from the index file, and whether the cache may hold something newer"""

    def __init__(self, W, C, lab, fn, clean, needs):
        self.W, self.C, self.lab, self.fn, self.needs = W, C, lab, fn, needs
        self.res = {}
        self.count = {}
        self.lroles = list_roles(W)
        h = hooks(W)
        for d in C.get:
            h[d] = self.h_get
        for d in C.size:
            h[d] = self.h_size
        for d in C.drop:
            h[d] = self.h_drop
        for d in C.put:
            h[d] = self.h_put
        for d in C.flush:
            h[d] = self.h_flush
        for d in self.lroles:
            h[d] = self.h_list
        for d in C.rawwrite:
            h[d] = self.h_rawwrite
        for d in needs:
            h[d] = self.h_rec
        o = {"hook": h, "relfacts": {CLEAN: None, MISS: None, TAKEN: None}, "rec": set(W.p.rec) - set(needs)}
        rf = set()
        for nm in ("KeyFile", "ValueFile", "HtxFile", "VarFileKeyCache", "VarFileValueCache", "VarFileHtxCache"):
            t = W.adt(nm, True)
            if t:
                rf |= {f.d for f in W.methods(t).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT}
        quiet = {f.d for f in W.methods(W.INNER, "*").values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT and
                 reaches(W, f, rf) and not self.touches(f, rf)}
        o["cut"] = lambda f: f.d in rf or f.d in quiet

        def setup(eng, st, av):
            if clean:
                st.facts[mk(CLEAN)] = 1
        self.eng = layout.run(W, lab, fn, {}, o, self.step, "", setup)

    def touches(self, f, others):
        """does it work on the index file (not by way of the files of keys, values and slots)?"""
        W = self.W
        idx = {g.d for g in W.methods(W.adt("VarFile")).values()}
        for nm in ("IdxFile", "VarFileNodeCache", "NodeCache"):
            t = W.adt(nm, True)
            if t:
                idx |= {g.d for g in W.methods(t).values()}
        todo, seen = [f.d], {f.d}
        while todo:
            for y in W.p.cg.get(todo.pop(), ()):
                if y in idx:
                    return True
                if y not in seen and y not in others:
                    seen.add(y)
                    todo.append(y)
        return False

    def off(self, eng, st, a, t):
        while t[0] in ("ref", "ptr"):
            a, t = eng.load(st, a), t[2]
        return number_of(self.W, eng, a, t)

    def say(self, rule, site, good, text, n):
        self.count[rule] = self.count.get(rule, 0) + 1
        k = (rule, site)
        if k not in self.res or self.res[k][0] and not good:
            self.res[k] = (good, text, n)

    def offarg(self, eng, st, f, sub, args):
        for i in range(f.argc):
            t = Cache.bare(f.lty[i + 1])
            if t[0] == "adt" and t[1] == self.W.adt("Offset"):
                return self.off(eng, st, args[i], Prog.sub(f.lty[i + 1], sub))
        return None

    def h_get(self, eng, st, ctx, site, f, sub, args, t):
        x = self.offarg(eng, st, f, sub, args)
        s2 = st.fork()
        v = eng.fresh(st, ctx, site, "cached")
        eng.event(st, ctx, site + (1,), "cachehit", f.name, (x,), res=v, sp=t["sp"])
        eng.event(s2, ctx, site + (0,), "cachemiss", f.name, (x,), sp=t["sp"])
        s2.facts[mk(MISS, x)] = 1
        return [(some(v), st), (NONE, s2)]
    h_size = h_get

    def h_drop(self, eng, st, ctx, site, f, sub, args, t):
        r = self.h_get(eng, st, ctx, site, f, sub, args, t)
        x = self.offarg(eng, st, f, sub, args)
        for v, s in r:
            s.facts[mk(MISS, x)] = 1
        return r

    def fail(self, eng, st, ctx, site, f, t):
        s2 = st.fork()
        drop(s2, lambda k: k.op in (CLEAN, MISS))
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        return (err(e), s2)

    def h_put(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        drop(st, lambda k: k.op == MISS)
        d = [a for i, a in enumerate(args) if f.lty[i + 1] == ("other", "bool")]
        if not d or eng.truth(st, d[0]) is not False:
            drop(st, lambda k: k.op == CLEAN)
        v = eng.fresh(st, ctx, site, "kept")
        eng.event(st, ctx, site, "cacheput", f.name, tuple(args), res=v, sp=t["sp"])
        return [(ok(v), st), bad]

    def h_rawwrite(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        eng.event(st, ctx, site, "rawwrite", f.name, (), sp=t["sp"])
        layout.put2(st, "idx", None, None)
        return [(ok(UNIT), st), bad]

    def h_flush(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        eng.event(st, ctx, site, "cacheflush", f.name, (), sp=t["sp"])
        layout.put2(st, "idx", None, None)
        st.facts[mk(CLEAN)] = 1
        return [(ok(UNIT), st), bad]

    def h_list(self, eng, st, ctx, site, f, sub, args, t):
        role = self.lroles[f.d]
        bad = self.fail(eng, st, ctx, site, f, t)
        for k in layout.KALL:
            layout.put2(st, k, None, None)
        if role[0] == "free":
            b = number_of(self.W, eng, args[role[1]], Prog.sub(f.lty[role[1] + 1], sub))
            n = eng.event(st, ctx, site, "free", f.name, (b,), sp=t["sp"])
            self.say("P14.drop", short(ctx.fn.d), any(k.op == MISS and k.a[0] is b for k in st.facts),
                     "gives the place of an index node back while the cache may still hold a node for it", n)
            return [(ok(UNIT), st), bad]
        v = eng.fresh(st, ctx, site, "place")
        eng.event(st, ctx, site, "take", f.name, (v,), sp=t["sp"])
        ty = Prog.sub(f.lty[0], sub)[2][0]
        if ty[0] == "adt" and ty[1] in self.W.p.adts:
            fl = self.W.p.adts[ty[1]]["vs"][0]["f"]
            w = mk("adt", ty[1], 0, v, *[default_of(self.W.p.ty(x["t"])) for x in fl[1:]])
        else:
            w = v
        st.facts[mk(TAKEN, v)] = 1
        return [(ok(w), st), bad]

    def h_rec(self, eng, st, ctx, site, f, sub, args, t):
        need, dirties, _ = self.needs[f.d]
        bad = self.fail(eng, st, ctx, site, f, t)
        n = eng.event(st, ctx, site, "call", f.name, (), sp=t["sp"])
        if need:
            self.say("P14.fresh", "call:" + short(f.d), mk(CLEAN) in st.facts,
                     "calls %s, which reads nodes straight from the file, without the cache having been written back before" % f.name, n)
        drop(st, lambda k: k.op == MISS)
        if dirties:
            drop(st, lambda k: k.op == CLEAN)
        layout.put2(st, "idx", None, None)
        v = eng.fresh(st, ctx, site, "rec")
        return [(ok(v) if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT else v, st), bad] if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT else [(v, st)]

    def step(self, eng, st, n):
        for a in eng.lastacc:
            if a.kind != "idx" or a.wr:
                continue
            base = layout.get2(st, "idx")[0] if a.pos is None else a.pos
            b = a.pos
            good, what = False, "a place that cannot be told"
            if mk(CLEAN) in st.facts:
                good = True
            elif b is not None:
                b0 = layout.get2(st, "idx")[0]
                atoms = [strip(uncast(x)) for x, m in lin_parts(b)[1]] + [strip(uncast(x)) for x, m in lin_parts(strip(b0))[1]]
                if strip(b0).op == "c" or b0.op == "call" and b0.a[0] in self.pm():
                    good = True
                else:
                    good = any(mk(MISS, x) in st.facts or mk(TAKEN, x) in st.facts for x in atoms)
                what = show(b, 4)
            self.say("P14.fresh", self.site(n), good, "reads the index file at %s where the cache may hold a newer node" % what, n)

    def pm(self):
        return pm_fns(self.W)

    def site(self, n):
        c = n.ctx
        vf = self.W.adt("VarFile")
        while c.parent is not None and (c.fn.kind == "Closure" or c.fn.self_ty and c.fn.self_ty[0] == "adt" and c.fn.self_ty[1] == vf or not c.fn.d.startswith("siamesedb")):
            c = c.parent
        return short(c.fn.d)


class Keep(object):
    """what the node functions of the index file promise: a node written is what the cache or the file holds at its place"""

    def __init__(self, W, C, fn, role):
        self.W, self.C, self.fn, self.role = W, C, fn, role
        self.res, self.count = {}, 0
        p = W.p
        tf = p.adts[W.TREE]["vs"][0]["f"]
        self.tf = {f["n"]: (("f", i, W.TREE, f["n"]), p.ty(f["t"])) for i, f in enumerate(tf)}
        off = W.adt("Offset")
        self.place = [n for n, (e, t) in self.tf.items() if t[0] == "adt" and t[1] == off][0]
        self.lists = [n for n, (e, t) in self.tf.items() if t[0] == "adt" and t[1].endswith("vec::Vec")]
        self.nf = ("f", 0, W.NODE, p.adts[W.NODE]["vs"][0]["f"][0]["n"])
        self.offv = ("f", 0, off, p.adts[off]["vs"][0]["f"][0]["n"])
        h = {}
        for s, m in ((C.get, self.h_get), (C.size, self.h_size), (C.drop, self.h_size), (C.put, self.h_put), (C.flush, self.h_io), (C.rawread, self.h_rawread), (C.rawwrite, self.h_rawwrite)):
            for d in s:
                h[d] = m
        pm = hooks(W)
        for d in pm:
            h[d] = pm[d]
        vf = W.adt("VarFile")
        for f in W.methods(vf).values():
            if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT:
                h.setdefault(f.d, self.h_io)
        self.node = mk("alloc", "given", fn.d)
        args = [mk("arg", fn.d, i, fn.lname[i + 1] or str(i)) for i in range(fn.argc)]
        self.args = args
        nd = ("adt", W.NODE, ())
        self.k = [i for i in range(fn.argc) if fn.lty[i + 1] == nd]
        if self.k:
            args[self.k[0]] = mk("adt", W.NODE, 0, mk("ref", self.node, ()))
        self.eng = W.run("keep:" + fn.name, fn, {}, lambda e, s, n: None, frozenset(), self.setup, {"hook": h, "learn": self.learn}, args=args)
        self.finish()

    def learn(self, eng, st, t, v):
        # nothing was on the list
        if st.trk:
            st.trk = frozenset(y for y in st.trk if not (y[0] == "took" and is_zero({t: v}, y[1])))

    def setup(self, eng, st, av):
        if self.k:
            st.mem[self.node] = mk("sym", "node0")
            for l in self.lists:
                eng.put(st, self.node, (self.tf[l][0],), mk("sym", l))
            eng.put(st, self.node, (self.tf[self.place][0],), mk("sym", "place0"))

    def n(self, off):
        return num(self.eng_proj(off))

    def eng_proj(self, off):
        return self._e.proj(off, self.offv)

    def offarg(self, eng, st, f, args):
        self._e = eng
        for i in range(f.argc):
            t = f.lty[i + 1]
            if Cache.bare(t)[0] == "adt" and Cache.bare(t)[1] == self.W.adt("Offset"):
                a = args[i]
                while t[0] in ("ref", "ptr"):
                    a, t = eng.load(st, a), t[2]
                return self.n(a)
        return None

    def content(self, eng, st, nd, path=()):
        """(place, lists) of a node: an IdxNode value, or a pointer to one or to a tree node"""
        self._e = eng
        r, q = eng.locof(eng.proj(nd, self.nf))
        return self.content_at(eng, st, r, q)

    def content_at(self, eng, st, r, q):
        self._e = eng
        g = lambda n: eng.get(st, r, q + (self.tf[n][0],))
        return self.n(g(self.place)), tuple(g(l) for l in self.lists)

    def fail(self, eng, st, ctx, site, f, t):
        s2 = st.fork()
        s2.trk = s2.trk | {("failed",)}
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        return (err(e), s2)

    def n_of(self, eng, st, f, i, args):
        self._e = eng
        a, t = args[i], f.lty[i + 1]
        while t[0] in ("ref", "ptr"):
            a, t = eng.load(st, a), t[2]
        return self.n(a)

    def h_io(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        role = list_roles(self.W).get(f.d)
        v = eng.fresh(st, ctx, site, "io")
        if role is not None and role[0] == "free":
            st.trk = st.trk | {("gaveback", self.n_of(eng, st, f, role[1], args))}
        elif role is not None:
            st.trk = st.trk | {("took", v)}
        eng.event(st, ctx, site, "opaque", f.name, (), res=v, sp=t["sp"])
        ty = Prog.sub(f.lty[0], sub)[2][0]
        if ty[0] == "adt" and ty[1] in (self.W.adt("Offset"), self.W.adt("Size")):
            fl = self.W.p.adts[ty[1]]["vs"][0]["f"]
            v = mk("adt", ty[1], 0, v, *[default_of(self.W.p.ty(x["t"])) for x in fl[1:]])
        return [(ok(v), st), bad]

    def node_at(self, eng, st, ctx, site, what, x, off):
        al = mk("alloc", what, ctx.id, site)
        st.mem[al] = mk("sym", what, al)
        for l in self.lists:
            eng.put(st, al, (self.tf[l][0],), mk("sym", l, what, x))
        eng.put(st, al, (self.tf[self.place][0],), off)
        st.trk = st.trk | {("src", al, what, x)}
        return mk("adt", self.W.NODE, 0, mk("ref", al, ()))

    def offval(self, x):
        fl = self.W.p.adts[self.W.adt("Offset")]["vs"][0]["f"]
        return mk("adt", self.W.adt("Offset"), 0, x, *[UNIT for _ in fl[1:]])

    def h_get(self, eng, st, ctx, site, f, sub, args, t):
        x = self.offarg(eng, st, f, args)
        s2 = st.fork()
        nd = self.node_at(eng, st, ctx, site, "cached", x, self.offval(x))
        eng.event(st, ctx, site + (1,), "cachehit", f.name, (x,), sp=t["sp"])
        eng.event(s2, ctx, site + (0,), "cachemiss", f.name, (x,), sp=t["sp"])
        return [(some(nd), st), (NONE, s2)]

    def h_size(self, eng, st, ctx, site, f, sub, args, t):
        x = self.offarg(eng, st, f, args)
        s2 = st.fork()
        v = eng.fresh(st, ctx, site, "size")
        eng.event(st, ctx, site + (1,), "cachehit", f.name, (x,), sp=t["sp"])
        eng.event(s2, ctx, site + (0,), "cachemiss", f.name, (x,), sp=t["sp"])
        if f.d in self.C.drop:
            for s in (st, s2):
                s.trk = frozenset(y for y in s.trk if not (y[0] == "held" and y[2] is x)) | {("dropped", x)}
        return [(some(v), st), (NONE, s2)]

    def h_put(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        i = [i for i in range(f.argc) if f.lty[i + 1] == ("adt", self.W.NODE, ())][0]
        d = [a for j, a in enumerate(args) if f.lty[j + 1] == ("other", "bool")]
        x, ls = self.content(eng, st, args[i])
        if d and eng.truth(st, d[0]) is True:
            st.trk = frozenset(y for y in st.trk if not (y[0] == "held" and y[2] is x)) | {("held", "cache", x, ls)}
        else:
            st.trk = st.trk | {("kept", x, ls)}
        eng.event(st, ctx, site, "cacheput", f.name, (x,), sp=t["sp"])
        return [(ok(args[i]), st), bad]

    def h_rawread(self, eng, st, ctx, site, f, sub, args, t):
        x = self.offarg(eng, st, f, args)
        bad = self.fail(eng, st, ctx, site, f, t)
        nd = self.node_at(eng, st, ctx, site, "file", x, self.offval(x))
        eng.event(st, ctx, site, "rawread", f.name, (x,), sp=t["sp"])
        r = f.lty[0][2][0]
        v = nd
        if r[0] == "tuple":
            v = mk("tup", *[nd if p == ("adt", self.W.NODE, ()) else eng.fresh(st, ctx, site, "rr%d" % j) for j, p in enumerate(r[1])])
        return [(ok(v), st), bad]

    def h_rawwrite(self, eng, st, ctx, site, f, sub, args, t):
        bad = self.fail(eng, st, ctx, site, f, t)
        for i in range(f.argc):
            ty = f.lty[i + 1]
            b = Cache.bare(ty)
            if b[0] == "adt" and b[1] in (self.W.NODE, self.W.TREE):
                a = args[i]
                if b[1] == self.W.NODE:
                    x, ls = self.content(eng, st, eng.load(st, a) if ty[0] in ("ref", "ptr") else a)
                else:
                    x, ls = self.content_at(eng, st, *eng.locof(a))
                st.trk = frozenset(y for y in st.trk if not (y[0] == "held" and y[2] is x)) | {("held", "file", x, ls)}
                eng.event(st, ctx, site, "rawwrite", f.name, (x,), sp=t["sp"])
                break
        return [(ok(UNIT), st), bad]

    def finish(self):
        W, eng = self.W, self.eng
        w = short(self.fn.d)
        for r, st in eng.exits:
            if eng.variant(st, r) == 1 or ("failed",) in st.trk:
                continue
            self.count += 1
            n = eng.nodes[max(st.last)] if st.last else None
            v = eng.payload(r, 0)
            if self.role == "write":
                x, ls = self.content(eng, st, v)
                want = tuple(mk("sym", l) for l in self.lists)
                good = any(y[0] == "held" and y[2] is x and y[3] == want for y in st.trk)
                self.say("P14.write", w, good and ls == want, "ends with success where neither the cache nor the file holds the written node at the place it answers", n)
                x0 = num(eng.proj(mk("sym", "place0"), self.offv))
                for y in st.trk:
                    if y[0] == "took":
                        self.say("P28.took", w, x is y[1] or is_zero(st.facts, y[1]),
                                 "ends with success where a place was taken off a free list and the node does not go there", n)
                if x is not x0:
                    new = [a for i, a in enumerate(self.args) if self.fn.lty[i + 1] == ("other", "bool")]
                    isnew = any(eng.truth(st, a) is True for a in new)
                    self.say("P28.moved", w, isnew or ("gaveback", x0) in st.trk, "ends with success where the node has left its place and the place was not given back", n)
                    self.say("P14.write", w + ":left", isnew or ("dropped", x0) in st.trk, "ends with success where the cache may still hold the node at the place it has left", n)
            elif self.role == "read":
                x = [num(eng.proj(a, self.offv)) for i, a in enumerate(self.args) if Cache.bare(self.fn.lty[i + 1])[0] == "adt" and Cache.bare(self.fn.lty[i + 1])[1] == W.adt("Offset")][0]
                if self.fn.lty[0][2][0][0] == "tuple":
                    v = eng.proj(v, ("f", 0, "", "0"))
                rr, q = eng.locof(eng.proj(v, self.nf))
                good = any(y[0] == "src" and y[1] is rr and y[3] is x for y in st.trk)
                self.say("P14.read", w, good, "answers a node that is neither what the cache nor what the file holds at the place asked for", n)
            else:
                x0 = num(eng.proj(mk("sym", "place0"), self.offv))
                self.say("P28.given", w, ("gaveback", x0) in st.trk, "ends with success where the node's place is on no free list", n)
                self.say("P14.drop", w, ("dropped", x0) in st.trk, "gives a node back where the cache may still hold it", n)

    def say(self, rule, site, good, text, n):
        k = (rule, site)
        if k not in self.res or self.res[k][0] and not good:
            self.res[k] = (good, text, n)


def fresh_roots(W):
    out = []
    for f in sorted(W.methods(W.INNER, "*").values(), key=lambda f: f.d):
        if f.trait and f.trait.split("::")[-1] == "DbXxxObjectSafe":
            out.append(("Inner::" + f.name, f))
    it = W.adt("DbXxxIterMut", True)
    if it:
        for f in sorted(W.methods(it).values(), key=lambda f: f.d):
            out.append(("Iter::" + f.name, f))
    return out


def keeps(W, R, C, roles, pid):
    k = 0
    for s, role in ((roles.write, "write"), (roles.read, "read"), (roles.free, "free")):
        for d in sorted(s):
            f = W.p.fns[d]
            if d in C.rawread:
                continue
            a = Keep(W, C, f, role)
            R.floor("%s.%s" % (pid, role), a.count, 1, "ways to success of " + f.name)
            k += 1
            for (rule, site), (good, text, n) in a.res.items():
                if rule.startswith(pid):
                    R.check(good, rule, site, "%s: %s" % (f.name, text), n, a.eng)
    R.floor(pid + ".write", k, 3, "functions that read, write or free a node")


class Took(object):
    """a record writer puts the record where the free list told it to"""

    def __init__(self, W, fn):
        self.W, self.fn = W, fn
        self.bad, self.good = [], 0
        h = {}
        pm = hooks(W)
        for d in pm:
            h[d] = pm[d]
        for f in W.methods(W.adt("VarFile")).values():
            if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT:
                h[f.d] = self.h_io
        self.eng = W.run("took:" + short(fn.d), fn, {}, lambda e, s, n: None, frozenset(), None, {"hook": h, "learn": self.learn})
        self.count = 0
        for r, st in self.eng.exits:
            if self.eng.variant(st, r) == 1 or ("failed",) in st.trk:
                continue
            self.count += 1
            for y in st.trk:
                if y[0] == "took":
                    if contains(self.eng.pv(st, r), lambda x, v=y[1]: x is v):
                        self.good += 1
                    else:
                        self.bad.append(self.eng.nodes[max(st.last)] if st.last else None)

    def learn(self, eng, st, t, v):
        if st.trk:
            st.trk = frozenset(y for y in st.trk if not (y[0] == "took" and is_zero({t: v}, y[1])))

    def h_io(self, eng, st, ctx, site, f, sub, args, t):
        s2 = st.fork()
        s2.trk = s2.trk | {("failed",)}
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        v = eng.fresh(st, ctx, site, "io")
        role = list_roles(self.W).get(f.d)
        if role is not None and role[0] == "take":
            st.trk = st.trk | {("took", v)}
        eng.event(st, ctx, site, "opaque", f.name, (), res=v, sp=t["sp"])
        ty = Prog.sub(f.lty[0], sub)[2][0]
        if ty[0] == "adt" and ty[1] in (self.W.adt("Offset"), self.W.adt("Size")):
            fl = self.W.p.adts[ty[1]]["vs"][0]["f"]
            v = mk("adt", ty[1], 0, v, *[default_of(self.W.p.ty(x["t"])) for x in fl[1:]])
        return [(ok(v), st), (err(e), s2)]


def record_writers(W):
    """the functions that answer a record and take its place off a free list themselves"""
    p = W.p
    take = {d for d, r in list_roles(W).items() if r[0] == "take"}
    off = W.adt("Offset")
    S = {}
    for f in p.fns.values():
        r = f.lty[0]
        if f.kind == "Closure" or r[0] != "adt" or r[1] != RESULT or r[2][0][0] != "adt" or r[2][0][1] in (off, W.NODE, W.TREE):
            continue
        a = p.adts.get(r[2][0][1])
        if a and any(p.ty(x["t"])[0] == "adt" and p.ty(x["t"])[1] == off for v in a["vs"] for x in v["f"]) and reaches(W, f, take):
            S[f.d] = f
    out = []
    for d, f in sorted(S.items()):
        seen, todo = {d}, [d]
        while todo:
            for x in p.cg.get(todo.pop(), ()):
                if x in take:
                    out.append(f)
                    todo = []
                    break
                if x not in seen and x not in S:
                    seen.add(x)
                    todo.append(x)
    return out


def P28(W, R):
    for f in record_writers(W):
        a = Took(W, f)
        R.floor("P28.used", a.count, 1, "ways to success of " + f.name)
        R.floor("P28.used", a.good + len(a.bad), 1, "ways of %s on which a place was taken off a free list" % f.name)
        R.check(not a.bad, "P28.used", short(f.d), "%s: ends with success where a place was taken off a free list and the record does not go there" % f.name, a.bad[0] if a.bad else None, a.eng)
    R.floor("P28.used", len(record_writers(W)), 2, "functions that store a key or value record")
    R.rule("P28.used", "a place that a record writer takes off a free list is the place of the record it answers")
    R.rule("P28.leak", "at every success exit of put, delete and their recursive steps each node that was read or stored is in the tree or was given back")
    R.rule("P28.moved", "the function that writes a node gives the node's former place back when it answers another one")
    R.rule("P28.took", "a place that the function that writes a node takes off a free list is the place it answers")
    R.rule("P28.given", "the function that frees a node puts its place on a free list")
    report(W, R, "P28")
    keeps(W, R, Cache(W), Roles(W), "P28")


def P14(W, R):
    C = Cache(W)
    roles = Roles(W)
    R.rule("P14.fresh", "the index file is read at the place of a node only when the cache was written back before, or does not hold that place")
    R.rule("P14.drop", "the place of a node is given back only after the cache has dropped it")
    R.rule("P14.write", "a node handed to the writer is what the cache (marked dirty) or the file holds at the place that is answered")
    R.rule("P14.read", "a node read is the one the cache, or else the file, holds at the place asked for")
    R.floor("P14.fresh", len(C.get), 1, "cache lookups")
    R.floor("P14.fresh", len(C.put), 1, "cache inserts")
    R.floor("P14.fresh", len(C.drop), 1, "cache removals")
    R.floor("P14.fresh", len(C.flush), 1, "cache write-backs")
    R.floor("P14.fresh", len(C.rawread), 1, "functions that read a node from the file")
    R.floor("P14.fresh", len(C.rawwrite), 1, "functions that write a node to the file")
    # the functions on nodes and the recursive ones: what they need and what they do to the cache
    idx = set()
    for nm in ("IdxFile", "VarFileNodeCache"):
        idx |= {f.d for f in W.methods(W.adt(nm)).values()}
    raw = {f.d for f in W.methods(W.adt("VarFile")).values()}
    needs = {}
    recs = [f for f in W.methods(W.INNER, "*").values() if f.d in W.p.rec and (reaches(W, f, idx) or reaches(W, f, raw))]
    own = [W.p.fns[d] for d in sorted(roles.nodeio)] + sorted(recs, key=lambda f: f.d)
    for f in own:
        needs[f.d] = (False, f.d in roles.write or reaches(W, f, roles.write), f)
    runs = {}
    for f in own:
        others = {d: v for d, v in needs.items() if d != f.d or d in W.p.rec}
        while True:
            a = runs[f.d] = Fresh(W, C, "%s::%s" % (f.self_ty[1].split("::")[-1], f.name), f, needs[f.d][0], others)
            bad = any(not g for (rule, s), (g, t, n) in a.res.items() if rule == "P14.fresh")
            if not bad or needs[f.d][0] or f.d not in W.p.rec:
                break
            # reads straight from the file: the callers have to write the cache back before
            needs[f.d] = (True,) + needs[f.d][1:]
            others[f.d] = needs[f.d]
    runs = list(runs.values())
    for lab, f in fresh_roots(W):
        runs.append(Fresh(W, C, lab, f, False, needs))
    seen = {}
    for a in runs:
        for (rule, site), (good, text, n) in a.res.items():
            R.check(good, rule, "%s:%s" % (a.lab, site), "%s: %s" % (a.lab, text), n, a.eng)
            seen[rule] = seen.get(rule, 0) + 1
    R.floor("P14.fresh", seen.get("P14.fresh", 0), 4, "places where index nodes are read from the file")
    R.floor("P14.drop", seen.get("P14.drop", 0), 1, "places where an index node's place is given back")
    R.floor("P14.fresh", sum(1 for a in runs if a.lab.startswith("Inner::")), 3, "operations of the map")
    keeps(W, R, C, roles, "P14")
    top(W, R, C, roles)
    beans(W, R, C)


class Top(object):
    """the place of the root kept in memory and the one in the file header"""

    def __init__(self, W, C, roles, lab, fn, spots=None):
        self.W, self.R, self.lab, self.fn, self.spots = W, roles, lab, fn, spots
        self.wrote = set()
        self.n0 = {}
        h = hooks(W)
        for d in roles.nodeio | set(roles.rec):
            h[d] = self.h_node
        rf = set()
        for nm in ("KeyFile", "ValueFile", "HtxFile", "VarFileKeyCache", "VarFileValueCache", "VarFileHtxCache", "NodeCache"):
            t = W.adt(nm, True)
            if t:
                rf |= {f.d for f in W.methods(t).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT}
        for d in rf:
            h.setdefault(d, self.h_other)
        self.place = [("f", i, W.TREE, f["n"]) for i, f in enumerate(W.p.adts[W.TREE]["vs"][0]["f"]) if W.p.ty(f["t"])[:2] == ("adt", W.adt("Offset"))][0]
        self.nf = ("f", 0, W.NODE, W.p.adts[W.NODE]["vs"][0]["f"][0]["n"])
        off = W.adt("Offset")
        self.offv = ("f", 0, off, W.p.adts[off]["vs"][0]["f"][0]["n"])
        self.topf = [("f", i, W.VNC, f["n"]) for i, f in enumerate(W.p.adts[W.VNC]["vs"][0]["f"]) if W.p.ty(f["t"])[:2] == ("adt", off)][0]
        self.topat = None
        self.eng = layout.run(W, lab, fn, {}, {"hook": h, "rec": set(W.p.rec) - set(roles.rec)}, self.step, ("", None), self.setup)

    def num(self, eng, off):
        return num(eng.proj(off, self.offv))

    def setup(self, eng, st, av):
        if eng.inner is None:
            return
        W, p = self.W, self.W.p
        r, q = eng.locof(eng.inner)
        for i, f in enumerate(p.adts[W.INNER]["vs"][0]["f"]):
            t = p.ty(f["t"])
            if t[0] == "adt" and t[1] == W.adt("IdxFile"):
                x = eng.get(st, r, q + (("f", i, W.INNER, f["n"]),))
                x = eng.proj(x, ("f", 0, t[1], p.adts[t[1]]["vs"][0]["f"][0]["n"]))
                r2, q2 = eng.locof(x)
                self.topat = (r2, q2 + (self.topf,))
        self.top0 = self.num(eng, eng.get(st, *self.topat))

    def h_other(self, eng, st, ctx, site, f, sub, args, t):
        s2 = st.fork()
        s2.trk = (("", "failed"),) + s2.trk[1:]
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        v = eng.fresh(st, ctx, site, "val")
        eng.event(st, ctx, site, "opaque", f.name, (), res=v, sp=t["sp"])
        return [(ok(v), st), (err(e), s2)]

    def h_node(self, eng, st, ctx, site, f, sub, args, t):
        W = self.W
        s2 = st.fork()
        s2.trk = (("", "failed"),) + s2.trk[1:]
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        for s in (st, s2):
            layout.put2(s, "idx", None, None)
        eng.event(st, ctx, site, "node", f.name, (), sp=t["sp"])
        # the node answered has some place
        nd = ("adt", W.NODE, ())
        r = f.lty[0][2][0]
        parts = r[1] if r[0] == "tuple" else (r,)
        vals = []
        for j, pt in enumerate(parts):
            if pt == nd:
                al = mk("alloc", "nd", ctx.id, site)
                st.mem[al] = mk("sym", "node", al)
                fl = W.p.adts[W.adt("Offset")]["vs"][0]["f"]
                eng.put(st, al, (self.place,), mk("adt", W.adt("Offset"), 0, mk("sym", "place", al), *[UNIT for _ in fl[1:]]))
                vals.append(mk("adt", W.NODE, 0, mk("ref", al, ())))
            else:
                vals.append(eng.fresh(st, ctx, site, "part%d" % j))
        return [(ok(mk("tup", *vals) if r[0] == "tuple" else vals[0]), st), (err(e), s2)]

    def step(self, eng, st, n):
        for a in eng.lastacc:
            if a.kind not in ("idx", "?") or a.pos is None or a.pos.op != "c" or a.w is not c(8):
                continue
            if self.spots is not None and a.pos not in self.spots:
                continue
            v = num(a.val) if a.val is not None else None
            if a.wr:
                self.wrote.add(a.pos)
            st.trk = (("w" if a.wr else "r", v),) + st.trk[1:]

    def exits(self):
        for r, st in self.eng.exits:
            if self.eng.variant(st, r) == 1 or st.trk[0][1] == "failed":
                continue
            yield r, st


def top(W, R, C, roles):
    R.rule("P14.header", "the place of the root in memory and in the header of the index file are changed together")
    spots, k = set(), 0
    for f in sorted(W.methods(W.INNER, "*").values(), key=lambda f: f.d):
        if not (f.trait and f.trait.split("::")[-1] == "DbXxxObjectSafe" and reaches(W, f, set(roles.rec))):
            continue
        a = Top(W, C, roles, "Inner::" + f.name, f)
        spots |= a.wrote
        m = 0
        for r, st in a.exits():
            m += 1
            T = a.num(a.eng, a.eng.get(st, *a.topat))
            h = st.trk[0][1] if st.trk[0][0] == "w" else None
            same = lambda x, y: x is y or st.facts.get(mk("op", "Eq", *sorted((x, y), key=lambda t: t.id))) == 1
            good = same(T, a.top0) if h is None else same(T, h)
            n = a.eng.nodes[max(st.last)] if st.last else None
            R.check(good, "P14.header", "Inner::" + f.name, "%s: ends with success where the root is at %s for the map but at %s for the header of the file" % (
                f.name, show(T, 3), "its former place" if h is None else show(h, 3)), n, a.eng)
        k += m
    R.floor("P14.header", k, 2, "ways to success of put and delete")
    R.floor("P14.header", len(spots), 1, "places in the header that hold the root's place")
    idxf = W.adt("IdxFile")
    m = 0
    for f in sorted(W.methods(idxf).values(), key=lambda f: f.d):
        r = f.lty[0]
        if not (r[0] == "adt" and r[1] == RESULT and r[2][0] == ("adt", idxf, ())):
            continue
        a = Top(W, C, roles, "IdxFile::" + f.name, f, spots)
        e = a.eng
        for r, st in a.exits():
            v = e.payload(r, 0)
            x = e.proj(v, ("f", 0, idxf, W.p.adts[idxf]["vs"][0]["f"][0]["n"]))
            rr, q = e.locof(x)
            T = a.num(e, e.get(st, rr, q + (a.topf,)))
            how, h = st.trk[0]
            made = T.op == "sym" and T.a[0] == "place"
            good = h is not None and (T is h or how == "w" and made)
            m += 1
            n = e.nodes[max(st.last)] if st.last else None
            R.check(good, "P14.header", "IdxFile::" + f.name, "%s: opens an index file with the root at %s where the header says %s" % (f.name, show(T, 3), show(h, 3) if h is not None else "nothing"), n, e)
    R.floor("P14.header", m, 2, "ways to open an index file")


class Beans(object):
    """the cache itself: which entry an offset leads to, and what the entry holds"""

    def __init__(self, W, C, f, role):
        self.W, self.C, self.f, self.role = W, C, f, role
        p = W.p
        fs = [(("f", i, W.NC, x["n"]), p.ty(x["t"])) for i, x in enumerate(p.adts[W.NC]["vs"][0]["f"])]
        vecs = [(e, t) for e, t in fs if t[0] == "adt" and t[1].endswith("vec::Vec")]
        self.vec, vt = vecs[0]
        self.bean = vt[2][0][1]
        bf = [(("f", i, self.bean, x["n"]), p.ty(x["t"])) for i, x in enumerate(p.adts[self.bean]["vs"][0]["f"])]
        nd = ("adt", W.NODE, ())
        self.bnode = [e for e, t in bf if t[0] == "adt" and t[1] == OPTION and t[2][0] == nd][0]
        self.boff = [e for e, t in bf if t[0] == "adt" and t[1] == W.adt("Offset")][0]
        self.bdirty = [e for e, t in bf if t == ("other", "bool")][0]
        self.bsize = [e for e, t in bf if t[0] == "adt" and t[1] == W.adt("Size")][0]
        self.index = [(e, t) for e, t in fs if t[0] == "adt" and t[1].startswith("siamesedb") and t[1] in p.adts][0]
        off = W.adt("Offset")
        self.offv = ("f", 0, off, p.adts[off]["vs"][0]["f"][0]["n"])
        self.nf = ("f", 0, W.NODE, p.adts[W.NODE]["vs"][0]["f"][0]["n"])
        self.place = [("f", i, W.TREE, x["n"]) for i, x in enumerate(p.adts[W.TREE]["vs"][0]["f"]) if p.ty(x["t"])[:2] == ("adt", off)][0]
        h = {}
        for kind, d in index_fns(W, self.index[1][1]).items():
            for x in d:
                h[x] = getattr(self, "h_" + kind)
        for d in C.rawwrite:
            h[d] = self.h_write
        for d in C.flush:
            if role != "flush":
                h[d] = self.h_flush
        self.res, self.count = {}, 0
        self.uid = {}
        args = [mk("arg", f.d, i, f.lname[i + 1] or str(i)) for i in range(f.argc)]
        self.node = None
        for i in range(f.argc):
            if f.lty[i + 1] == nd:
                self.node = mk("alloc", "given", f.d)
                args[i] = mk("adt", W.NODE, 0, mk("ref", self.node, ()))
        self.args = args
        self.eng = W.run("cache:" + f.name, f, {}, self.step, frozenset(), self.setup, dict({"hook": h, "learn": self.learn}, **self.more()), args=args)
        self.finish()

    def step(self, eng, st, n):
        pass

    def more(self):
        return {}

    def setup(self, eng, st, av):
        self.eng = eng
        if self.node is not None:
            st.mem[self.node] = mk("sym", "node0")
            eng.put(st, self.node, (self.place,), mk("sym", "place0"))
        r, q = eng.locof(av[0])
        self.at = (r, q + (self.vec,))
        self.v0 = eng.get(st, *self.at)

    def learn(self, eng, st, t, v):
        """paths that know different things stay apart (there are few of them)"""
        if self.role in ("put", "get", "drop") and t.op != "c" and not contains(t, lambda y: y.op == "phi"):
            st.trk = st.trk | {("known", t, v)}

    def n(self, off):
        return num(self.eng.proj(off, self.offv))

    def key(self, eng, st, f, args):
        t, a = f.lty[2], args[1]
        while t[0] in ("ref", "ptr"):
            a, t = eng.load(st, a), t[2]
        return num(a)

    def h_find(self, eng, st, ctx, site, f, sub, args, t):
        x = self.key(eng, st, f, args)
        s2 = st.fork()
        i = mk("sym", "ix", x)
        ins = [y for y in st.trk if y[0] == "ins" and y[1] is x]
        if ins:
            return [(some(ins[0][2]), st)]
        st.trk = st.trk | {("at", x, i)}
        s2.trk = s2.trk | {("none", x)}
        eng.event(st, ctx, site + (1,), "indexhit", f.name, (x,), sp=t["sp"])
        eng.event(s2, ctx, site + (0,), "indexmiss", f.name, (x,), sp=t["sp"])
        return [(some(i), st), (NONE, s2)]

    def h_remove(self, eng, st, ctx, site, f, sub, args, t):
        x = self.key(eng, st, f, args)
        r = self.h_find(eng, st, ctx, site, f, sub, args, t)
        for v, s in r:
            s.trk = frozenset(y for y in s.trk if not (y[0] == "ins" and y[1] is x)) | {("rm", x)}
        return r

    def h_insert(self, eng, st, ctx, site, f, sub, args, t):
        x = self.key(eng, st, f, args)
        eng.event(st, ctx, site, "indexput", f.name, (x, args[2]), sp=t["sp"])
        st.trk = frozenset(y for y in st.trk if not (y[0] == "ins" and y[1] is x)) | {("ins", x, args[2], eng.get(st, *self.at))}
        return [(UNIT, st)]

    def h_clear(self, eng, st, ctx, site, f, sub, args, t):
        eng.event(st, ctx, site, "indexclear", f.name, (), sp=t["sp"])
        st.trk = frozenset(y for y in st.trk if y[0] not in ("ins", "at", "none")) | {("clear",)}
        return [(UNIT, st)]

    def h_write(self, eng, st, ctx, site, f, sub, args, t):
        s2 = st.fork()
        s2.trk = s2.trk | {("failed",)}
        e = eng.fresh(s2, ctx, site, "err")
        eng.event(st, ctx, site, "rawwrite", f.name, (), sp=t["sp"])
        eng.event(s2, ctx, site + ("e",), "fail", f.name, (), res=e, sp=t["sp"])
        return [(ok(UNIT), st), (err(e), s2)]

    def h_flush(self, eng, st, ctx, site, f, sub, args, t):
        """everything is written back, and the entries may all be gone (then the index is empty too)"""
        r = self.h_write(eng, st, ctx, site, f, sub, args, t)
        s = r[0][1]
        fl = self.flushes(f)
        if fl:
            eng.put(s, self.at[0], self.at[1], mk("vnew"))
            s.trk = frozenset(y for y in s.trk if y[0] not in ("ins", "at", "none")) | {("clear",)}
        return r

    def flushes(self, f):
        """does it empty the cache?"""
        W = self.W
        return any(reaches(W, f, {d}) or d in W.p.cg.get(f.d, ()) for d in index_fns(W, self.index[1][1])["clear"])

    def say(self, site, good, text, n):
        k = ("P14.cache", site)
        if k not in self.res or self.res[k][0] and not good:
            self.res[k] = (good, text, n)

    def entry(self, eng, st, i, e):
        r, q = self.at
        return eng.get(st, r, q + (("i", i), e))

    def finish(self):
        eng, W = self.eng, self.W
        w = self.role + ":" + short(self.f.d)
        for r, st in eng.exits:
            if ("failed",) in st.trk or self.role in ("put", "flush") and eng.variant(st, r) == 1:
                continue
            self.count += 1
            n = eng.nodes[max(st.last)] if st.last else None
            at = {y[1]: y[2] for y in st.trk if y[0] == "at"}
            ins = [y for y in st.trk if y[0] == "ins"]
            cleared = ("clear",) in st.trk
            V = eng.get(st, *self.at)
            if self.role in ("get", "size", "drop"):
                x = None
                for i in range(self.f.argc):
                    t, a = self.f.lty[i + 1], self.args[i]
                    while t[0] in ("ref", "ptr"):
                        a, t = eng.load(st, a), t[2]
                    if t[0] == "adt" and t[1] == W.adt("Offset"):
                        x = self.n(a)
                vs = eng.variant(st, r)
                e = self.bnode if self.role == "get" else self.bsize
                if vs != 0:
                    i = at.get(x)
                    v = eng.payload(r, 1)
                    good = i is not None
                    if good:
                        z = self.entry(eng, st, i, e)
                    if good and not (self.role == "get" and r is z):
                        if self.role == "get":
                            z = z.a[2] if z.op == "adt" and len(z.a) > 2 else eng.proj(mk("as", z, 1), ("f", 0, OPTION, "0"))
                            v, z = eng.proj(v, self.nf), eng.proj(z, self.nf)
                        good = v is z or strip(uncast(v)) is strip(uncast(z))
                    self.say(w, good, "answers something else than what the cache holds for the place asked for", n)
                if self.role == "drop":
                    self.say(w + ":index", ("rm", x) in st.trk, "ends where the index of the cache still leads to the entry", n)
                    if vs != 0 and x in at:
                        z = self.entry(eng, st, at[x], self.bnode)
                        d = self.entry(eng, st, at[x], self.bdirty)
                        self.say(w + ":entry", eng.variant(st, z) == 0 or eng.truth(st, d) is False, "leaves a removed entry that would be written back later", n)
            elif self.role == "put":
                place = self.n(mk("sym", "place0"))
                dirty = [a for i, a in enumerate(self.args) if self.f.lty[i + 1] == ("other", "bool")]
                mine = [y for y in ins if y[1] is place]
                i, new = None, False
                if mine:
                    i, new = mine[0][2], True
                elif place in at and not cleared:
                    i = at[place]
                if i is None:
                    self.say(w, False, "ends with success where the cache holds no entry for the place of the node", n)
                    continue
                if new:
                    good = V.op == "vpush" and veclen(V.a[0]) is uncast(i) or uncast(i) is sub(veclen(V), c(1))
                    if V.op == "vset" or not good:
                        B = V
                        while B.op == "vset":
                            B = B.a[0]
                        good = B.op == "vpush" and veclen(B.a[0]) is uncast(i)
                    self.say(w + ":place", good, "enters a place in the index with another position than that of the new entry", n)
                z = self.entry(eng, st, i, self.bnode)
                g = eng.variant(st, z) == 1
                if g:
                    nd = eng.payload(z, 1)
                    rr, q = eng.locof(eng.proj(nd, self.nf))
                    g = rr is self.node
                self.say(w + ":node", g, "ends with success where the entry holds another node than the one given", n)
                d = self.entry(eng, st, i, self.bdirty)
                want = dirty[0] if dirty else None
                if want is not None and eng.truth(st, want) is not False:
                    gd = d is want or eng.truth(st, d) is True or d.op == "op" and d.a[0] == "BitOr" and want in d.a[1:]
                    self.say(w + ":dirty", gd, "ends with success where the entry of a changed node is not marked to be written back", n)
                if new:
                    o = self.n(self.entry(eng, st, i, self.boff))
                    self.say(w + ":off", o is place, "a new entry says it is for another place than that of its node", n)
            else:
                emptied = V.op == "vnew"
                if emptied or cleared:
                    self.say(w, emptied and cleared, "ends with success where the entries or the index of the cache are emptied without the other", n)


def index_fns(W, adt):
    p = W.p
    removes = {f.d for f in p.fns.values() if any(b["t"]["k"] == "call" and b["t"]["f"].get("k") == "fn" and b["t"]["f"]["d"].split("::")[-1] in ("remove", "swap_remove", "retain", "remove_entry") for b in f.bbs)}
    out = {"find": set(), "remove": set(), "insert": set(), "clear": set()}
    for f in W.methods(adt).values():
        ts = [Cache.bare(f.lty[i + 1]) for i in range(f.argc)]
        r = f.lty[0]
        if r[0] == "adt" and r[1] == OPTION and r[2][0] == ("other", "usize") and len(ts) == 2:
            out["remove" if f.d in removes or reaches(W, f, removes) else "find"].add(f.d)
        elif ts[1:] == [("other", "u64"), ("other", "usize")]:
            out["insert"].add(f.d)
        elif len(ts) == 1 and f.lty[1][0] == "ref" and f.lty[1][1] and r == ("tuple", ()):
            out["clear"].add(f.d)
    return out


def index_body(W, R, adt):
    """the index of the cache is a map: it answers, takes and forgets the position under the place it is asked for"""
    R.rule("P14.index", "the index of the cache answers, enters and removes the position for exactly the place it is given")
    for kind, ds in index_fns(W, adt).items():
        R.floor("P14.index", len(ds), 1, "functions of the index that %s" % kind)
        for d in sorted(ds):
            f = W.p.fns[d]
            seen = {}

            def setup(eng, st, av):
                t, a = f.lty[2] if f.argc > 1 else None, av[1] if f.argc > 1 else None
                while t and t[0] in ("ref", "ptr"):
                    a, t = eng.load(st, a), t[2]
                seen["key"], seen["self"] = a, av[0]
                r, q = eng.locof(av[0])
                seen["old"] = [(e, eng.get(st, r, q + (e,))) for e in flds]
                seen["at"] = (r, q)
                seen["av"] = av

            flds = [("f", i, adt, x["n"]) for i, x in enumerate(W.p.adts[adt]["vs"][0]["f"])]
            eng = W.run("index:" + f.name, f, {}, lambda e, s, n: None, frozenset(), setup)
            R.floor("P14.index", len(eng.exits), 1, "ways out of " + f.name)
            key = seen["key"]
            good, text, n = True, "", None
            for r, st in eng.exits:
                rr, q = seen["at"]
                ms = [(e, o, eng.get(st, rr, q + (e,))) for e, o in seen["old"]]
                maps = [x for x in ms if x[1] is not x[2]]
                old = [o for e, o in seen["old"]]
                vs = eng.variant(st, r)
                g = False
                if kind == "find":
                    v = bare_val(eng.payload(r, 1)) if vs == 1 else None
                    g = not maps and (vs == 0 and missing(eng, st, old, key) or v is not None and v.op == "call" and v.a[0] in ("map_get", "map_val", "map_get_val") and v.a[1] in old and v.a[2] is key)
                    text = "answers something else than the position entered for the place"
                elif kind == "remove":
                    w = [t for t in (r, bare_val(eng.payload(r, 1)) if vs == 1 else None) if t is not None]
                    g = len(maps) == 1 and maps[0][2].op == "mremove" and maps[0][2].a[0] is maps[0][1] and maps[0][2].a[1] is key and (vs == 0 or any(t.op == "call" and t.a[0] in ("map_get", "map_val", "map_get_val") and t.a[1] is maps[0][1] and t.a[2] is key for t in w))
                    g = g or not maps and vs == 0 and missing(eng, st, old, key)
                    text = "does not remove the place it is given and answer its position"
                elif kind == "insert":
                    g = len(maps) == 1 and maps[0][2].op == "minsert" and maps[0][2].a[0] is maps[0][1] and num(maps[0][2].a[1]) is num(key) and uncast(maps[0][2].a[2]) is uncast(seen["av"][2])
                    text = "does not enter the given position under the given place"
                else:
                    g = all(m.op == "vnew" for e, o, m in ms if o.op != "c") and bool(maps)
                    text = "does not empty the index"
                if not g:
                    good, n = False, eng.nodes[max(st.last)] if st.last else None
                    break
            R.check(good, "P14.index", kind + ":" + short(d), "%s: %s" % (f.name, text), n, eng)


def bare_val(t):
    """the value behind what a map answers"""
    while t is not None and t.op in ("deref", "fld", "as", "cptr", "cast"):
        t = t.a[0]
    return t


def missing(eng, st, olds, key):
    return any(eng.variant(st, mk("call", o, m, key)) == 0 for m in olds for o in ("map_get", "map_get_val"))


def beans(W, R, C):
    R.rule("P14.cache", "the cache answers for a place what was last put under it; its entries and its index change together; a removed entry is never written back")
    for role in ("get", "size", "drop", "put", "flush"):
        for d in sorted(getattr(C, role)):
            a = Beans(W, C, W.p.fns[d], role)
            R.floor("P14.cache", a.count, 1, "ways out of " + a.f.name)
            for (rule, site), (good, text, n) in a.res.items():
                R.check(good, rule, site, "%s: %s" % (a.f.name, text), n, a.eng)
            ix = a.index[1][1]
    index_body(W, R, ix)
