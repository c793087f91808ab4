"""P01 P02 P03: what flush, sync and close must have done when they return."""
from core import *
from models import phi_leaves, counts_from_zero, iter_pos


def in_cache(W, n):
    """the event happens inside a method of the node cache (write-back of earlier changes)"""
    x = n.ctx
    while x is not None:
        t = x.fn.self_ty
        if t is not None and t[0] == "adt" and t[1] == W.NC:
            return True
        if W.NC and x.fn.d.startswith(W.NC.rsplit("::", 1)[0] + "::"):
            return True
        x = x.parent
    return False


def cache_fn(W):
    return lambda f: f.self_ty is not None and f.self_ty[0] == "adt" and f.self_ty[1] == W.NC and W.NC is not None


def is_change(W, n):
    """an event that changes what the four files will hold"""
    if n.kind == "io" and is_write(n.name) and n.file and n.file[1] in KINDS:
        return not in_cache(W, n)
    if n.kind == "call" and n.name.startswith(W.NC or "?") and n.x["fn"].name == "put":
        # put(cache, file, node, size, dirty)
        d = [a for a, t in zip(n.args, n.x["fn"].lty[1:]) if t == ("other", "bool")]
        return not d or not (d[0].op == "c" and d[0].a[0] == 0)
    return False


def stored(n):
    """last path element of the place a store event writes"""
    if n.args[0].op == "ref" and n.args[0].a[1]:
        return n.args[0].a[1][-1]
    return None


# ---------------------------------------------------------------- P01
def dirty_rule(W, R, rule, clear=None):
    """every change happens while the dirty flag is set; and nothing but sync clears it"""
    if clear:
        R.rule(clear, "outside sync_all/sync_data no operation clears the dirty flag")
    R.rule(rule, "on every path, each write to one of the four files and each dirty insertion into the node cache happens when the map's dirty flag is set, so that a later flush/sync is not skipped")
    n_ch = [0]
    rec = dict((f.d, f) for _, f, _ in W.inner_fn_roots())
    assume = dict((d, True) for d in rec)       # greatest fixpoint: dirty set on entry
    for _ in range(6):
        bad = set()
        viols = {}

        def mk_step():
            def step(eng, st, n):
                if eng.inner is None:
                    return
                if n.kind == "store" and stored(n) == W.dirty:
                    k = "%s<-%s stores dirty" % (short(owner(n)), short(eng.rootfn))
                    v = n.args[1]
                    if v.op == "c" and v.a[0] == 1 or eng.truth(st, v) is True:
                        sts.add(k)
                    else:
                        cl[k] = (n, eng)
                if n.kind in ("recok", "recerr") :
                    st.trk = "rec"
                    return
                ch = is_change(W, n)
                if n.kind == "rec" and n.name in assume or ch:
                    v = W.dirty_at(eng, st, eng.inner)
                    if v.op == "c" and v.a[0] == 1 or eng.truth(st, v) is True:
                        good = True
                    else:
                        good = ch and st.trk == "rec"
                    if n.kind == "rec":
                        if not good:
                            bad.add(n.name)
                    else:
                        n_ch[0] += 1
                        k = "%s<-%s %s %s" % (short(owner(n)), short(eng.rootfn), n.name.split("::")[-1], n.file[1] if n.file else "cache")
                        if not good:
                            viols[k] = (n, eng)
                        else:
                            oks.add(k)
            return step
        oks = set()
        sts, cl = set(), {}
        n_ch[0] = 0
        for label, f, sub in W.public_ops(base=False) + W.inner_fn_roots():
            def setup(eng, st, av, f=f):
                if f.d in assume and assume[f.d] and eng.inner is not None:
                    r, q = eng.locof(eng.inner)
                    eng.put(st, r, q + (W.dirty,), TRUE)
            W.run(label, f, sub, mk_step(), "", setup, {"callev": cache_fn(W), "stores": bool(clear)})
        nb = [d for d in bad if assume.get(d)]
        if not nb:
            break
        for d in nb:
            assume[d] = False
    for k in sorted(oks - set(viols)):
        R.ok(rule, k)
    for k, (n, eng) in sorted(viols.items()):
        R.bad(rule, k, "a file or the node cache is changed while the map is not marked dirty: a later sync or flush is skipped and the change is not written", n, eng)
    R.floor(rule, len(oks), 12, "changes of files")
    if clear:
        for k in sorted(sts):
            R.ok(clear, k)
        for k, (n, eng) in sorted(cl.items()):
            R.bad(clear, k, "the dirty flag is cleared outside of a sync: a later sync is skipped although not everything is on the disk", n, eng)
        R.floor(clear, len(sts), 3, "stores of the dirty flag outside sync")


def sync_roots(W, names):
    out = []
    for nm in names:
        out.append((nm, W.method(W.FM, "DbXxxBase", nm)))
    return out


def writeback_machine(W, R, rule, need, what, ev_names, err_ok=False):
    """step for flush / sync roots.  trk = frozenset of facts:
       'nc' node cache written back, kinds already done, 'E' an operation failed"""
    def step(eng, st, n):
        t = st.trk
        if n.kind == "cret" and n.x["fn"].name in ("flush", "clear") and cache_fn(W)(n.x["fn"]) and n.x["rk"] == 0:
            t = t | {"nc"}
        elif n.kind == "cret" and cache_fn(W)(n.x["fn"]) and n.x["fn"].name == "put":
            t = t - {"nc", "idx"}
        elif n.kind == "io" and is_write(n.name) and n.file and n.file[1] in KINDS and not in_cache(W, n):
            t = t - {n.file[1]}
        elif n.kind == "io" and is_write(n.name) and n.file and n.file[1] == "idx":
            t = t - {"idx"}
        elif n.kind == "ok" and n.name in ev_names and n.file:
            k = n.file[1]
            if k == "idx" and W.NC and "nc" not in t:
                t = t | {"early"}
            elif k in KINDS:
                t = t | {k}
        elif n.kind in ("err", "recerr"):
            t = t | {"E"}
        elif n.kind == "entry":
            eng.d0 = W.dirty_at(eng, st, eng.inner)
        elif n.kind == "store" and stored(n) == W.dirty and n.args[1].op == "c" and n.args[1].a[0] == 0:
            if eng.truth(st, eng.d0) is not False:
                n.x.setdefault("clr", set()).add(t)
            t = t | {"clr"}
        elif n.kind == "ret":
            clean = eng.truth(st, eng.d0) is False
            n.x["final"] = (t, clean)
        st.trk = t
    return step


def check_sync(W, R, rule, nm, fn, evs, strict_clear, drop=False):
    eng = W.run(nm, fn, {}, writeback_machine(W, R, rule, None, None, evs), frozenset(), None,
                {"callev": cache_fn(W), "stores": True, "track": lambda e, s: (s.trk, e.truth(s, e.d0) if hasattr(e, "d0") else None)})
    nok = 0
    for n in eng.nodes:
        if n.kind == "ret" and (n.name == 0 or drop):
            t, clean = n.x["final"]
            if drop and "E" in t:
                continue
            nok += 1
            if clean:
                R.ok(rule, "%s: clean map, nothing to write" % nm)
                continue
            for k in W.kinds:
                R.check(k in t, rule, "%s: %s file" % (nm, k),
                        "%s can return success on a changed map without %s the %s file%s" % (nm, "/".join(evs) + "ing", k, " after writing back the node cache" if k == "idx" else ""), n, eng)
        if n.kind == "store" and "clr" in n.x:
            for t in n.x["clr"]:
                miss = [k for k in W.kinds if k not in t]
                R.check(not miss and strict_clear, rule, "%s: dirty cleared only when everything is synced" % nm,
                        "%s clears the dirty flag although %s: a later sync is skipped" % (nm, ("file(s) %s are not synced yet" % miss) if miss else "nothing was synced to the disk"), n, eng)
    R.floor(rule, nok, 1, "returns of %s" % nm)


def has_phi(t):
    return any(x.op == "phi" for x in subterms(t))


def cache_writeback(W, R, rule):
    """flush of the node cache writes every dirty entry before it is forgotten"""
    if not W.NC:
        return
    m = W.methods(W.NC)
    if "flush" not in m:
        R.bad(rule, "NodeCache::flush", "the node cache has no flush")
        return
    bean = [d for d in W.p.adts if d.split("::")[-1] == "NodeCacheBean"]
    if not bean:
        raise Anchor("NodeCacheBean")
    bean = bean[0]
    bf = {f["n"]: (i, f) for i, f in enumerate(W.p.adts[bean]["vs"][0]["f"])}
    dirtyf = [(i, n) for n, (i, f) in bf.items() if f["t"].get("s") == "bool"][0]
    nodef = [(i, n) for n, (i, f) in bf.items() if f["t"]["k"] == "adt" and f["t"]["d"] == OPTION][0]
    vecf = [(i, f["n"]) for i, f in enumerate(W.p.adts[W.NC]["vs"][0]["f"]) if f["t"]["k"] == "adt" and f["t"]["d"].endswith("Vec")][0]
    GH = mk("ghost", "item")
    nodefld = W.p.adts[W.NODE]["vs"][0]["f"][0]["n"]
    tb = [(i, f["n"]) for i, f in enumerate(W.p.adts[W.TREE]["vs"][0]["f"]) if f["n"] == "is_dirty"]
    treed = ("f", tb[0][0], W.TREE, tb[0][1]) if tb else ("f", 0, W.TREE, "?")
    for nm in ("flush", "clear"):
        if nm not in m:
            continue
        f = m[nm]
        # trk: (in an entry?, "" | w | E, 0 not started / 1 started / 2 whole list visited, (dirty at entry, node present, tree dirty at entry))
        UN = (None, None, None)

        def step(eng, st, n):
            t = upd(eng, st)
            if n.kind == "next":
                if n.args and t[0] is not None:
                    n.x.setdefault("skip", []).append((t[1],) + t[3])
                ix = index_of(eng, n.args[0])
                if n.name == "skip":
                    if n.res.op == "ref" and n.res.a[1] and n.res.a[1][-1][0] == "i" and t[2] == 0:
                        st.mem[GH] = n.res
                        n.x.setdefault("skip", []).append(("",) + state_of(eng, st))
                    return
                if n.name == "some" and (ix is not None or n.res is not None and n.res.op == "ref"):
                    x = n.res
                    if ix is not None:
                        r_, q_ = eng.locof(eng.args[0])
                        x = eng.mkref(r_, q_ + (("f", vecf[0], W.NC, vecf[1]), ("i", ix)))
                    root, path = x.a
                    # one generic entry: the first one of the list
                    if path and path[-1][0] == "i" and len(path) > 1 and path[-2][0] == "f" and path[-2][2] == W.NC and path[-2][3] == vecf[1] and t[2] == 0 and iter_pos(n.args[0]) in (c(0), None):
                        t = ("in", "", 1, UN)
                        st.mem[GH] = x
                    else:
                        t = (None, "", t[2], UN)
                elif n.name == "none":
                    it = n.args[0]
                    while it.op == "it" and it.a[0] == "filter":
                        it = it.a[1]
                    whole = ix is not None and counts_from_zero(eng, ix) or it.op == "it" and it.a[0] == "slice" and it.a[1].op == "ref" and it.a[1].a[1] and it.a[1].a[1][-1][0] == "f" and it.a[1].a[1][-1][3] == vecf[1]
                    p = iter_pos(n.args[0])
                    t = (None, "", 2 if whole and (t[2] or p is None or p is c(0)) else t[2], UN)
            elif n.kind == "ok" and is_write(n.name) and t[0] is not None:
                t = (t[0], "w", t[2], t[3])
            elif n.kind in ("err",):
                t = (None, "E", t[2], UN)
            elif n.kind == "store" and stored(n) is not None and stored(n)[2:] == (bean, dirtyf[1]) and n.args[1].op == "c" and n.args[1].a[0] == 0 and t[0] is not None:
                n.x.setdefault("st", []).append((t[1],) + t[3])
            elif n.kind == "ret":
                n.x["fin"] = t
            st.trk = t

        def index_of(eng, it):
            """the index of a walk 0 .. len(self.vec)"""
            if it.op != "it" or it.a[0] not in ("range", "vec"):
                return None
            if it.a[0] == "range":
                v, i = (it.a[2].a[0], it.a[1]) if it.a[2].op == "len" else (None, None)
            else:
                v, i = it.a[1], it.a[2]
            if v is None or not base_fld(v, eng):
                return None
            return i

        def base_fld(v, eng):
            """whichever way the vector came about, it is the list of entries (with entries changed in place)"""
            seen, todo = set(), [v]
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "phi" and eng.phiops.get(x):
                    todo += list(eng.phiops[x])
                elif x.op in ("hv", "obj", "vset", "slset"):
                    todo.append(x.a[0])
                elif not (x.op == "fld" and x.a[2] == vecf[1] and x.a[3] == W.NC):
                    return False
            return True

        def upd(eng, st):
            """fold what the branches taken so far say about the entry being handled into the typestate"""
            t = st.trk
            if t[0] is not None and GH in st.mem:
                now = state_of(eng, st)
                t = t[:3] + (tuple(a if a is not None else b for a, b in zip(t[3], now)),)
                st.trk = t
            return t

        def state_of(eng, st):
            """(dirty at entry?, node present?, tree node dirty at entry?) of the entry being handled"""
            x = st.mem[GH]
            if has_phi(x):
                return UN
            root, path = eng.locof(x)
            v = eng.default_at(st, root, path)
            nd = eng.proj(v, ("f", nodef[0], bean, nodef[1]))
            tn = eng.proj(eng.proj(eng.proj(nd, ("v", 1)), ("f", 0, OPTION, "0")), ("f", 0, W.NODE, nodefld))
            td = eng.proj(mk("deref", tn), treed)
            return eng.truth(st, eng.proj(v, ("f", dirtyf[0], bean, dirtyf[1]))), eng.variant(st, nd), eng.truth(st, td)

        setup = None
        eng = W.run("NodeCache::" + nm, f, {}, step, (None, "", 0, UN), setup, {"stores": True, "iterev": True, "track": upd})
        ns = 0
        for n in eng.nodes:
            for w, wasdirty, nodev, td in n.x.get("skip", []):
                ns += 1
                R.check(w == "w" or wasdirty is False or nodev == 0 or td is False, rule, "NodeCache::%s entry" % nm, "an entry of the node cache that may be dirty is skipped by %s" % nm, n, eng)
            for w, wasdirty, nodev, td in n.x.get("st", []):
                R.check(w == "w" or nodev == 0 or td is False, rule, "NodeCache::%s clears an entry's dirty mark after writing it" % nm, "the dirty mark of a cached node is cleared before/without writing the node", n, eng)
            if n.kind == "ret" and n.name == 0:
                R.check(n.x["fin"][2] == 2, rule, "NodeCache::%s visits every entry" % nm, "%s returns success without having visited every cached node" % nm, n, eng)
        R.floor(rule, ns, 1, "entries handled by %s" % nm)


def P01(W, R):
    R.rule("P01.sync", "on every path of sync_all/sync_data that returns Ok with a map that was dirty at entry: node cache written back (Ok), then a successful sync of all four files of at least the requested strength, with no later write; the dirty flag is cleared only after all of them")
    dirty_rule(W, R, "P01.dirty", "P01.clear")
    check_sync(W, R, "P01.sync", "sync_all", W.method(W.FM, "DbXxxBase", "sync_all"), ("sync_all",), True)
    check_sync(W, R, "P01.sync", "sync_data", W.method(W.FM, "DbXxxBase", "sync_data"), ("sync_all", "sync_data"), True)
    check_sync(W, R, "P01.flush", "flush", W.method(W.FM, "DbXxxBase", "flush"), ("flush", "sync_all", "sync_data"), False)
    R.rule("P01.flush", "flush writes everything back and does not clear the dirty flag")
    R.rule("P01.cache", "writing back the node cache visits every entry, writes every dirty one and clears its mark only after the write succeeded")
    cache_writeback(W, R, "P01.cache")


def P03(W, R):
    R.rule("P03.flush", "on every path of flush (and of dropping the map object) that meets no I/O error and starts with a dirty map: node cache written back, then every file's buffer flushed")
    check_sync(W, R, "P03.flush", "flush", W.method(W.FM, "DbXxxBase", "flush"), ("flush", "sync_all", "sync_data"), False)
    m = W.methods(W.INNER, "Drop")
    if "drop" not in m:
        R.bad("P03.flush", "drop", "the map object has no Drop implementation: dirty index nodes held in memory are lost when the last handle is dropped")
    else:
        check_sync(W, R, "P03.flush", "drop", m["drop"], ("flush", "sync_all", "sync_data"), False, drop=True)
    R.rule("P03.cache", "writing back the node cache visits every entry, writes every dirty one and clears its mark only after the write succeeded")
    cache_writeback(W, R, "P03.cache")
    R.rule("P03.dirty", "every change happens while the dirty flag is set (a flush of a clean map does nothing)")
    dirty_rule(W, R, "P03.dirty")
