"""P02 P04 P17 P20: errors, database-wide sync, read-only operations, borrows."""
from core import *
from models import phi_leaves, counts_from_zero, iter_pos
from rules_sync import is_change, in_cache, cache_fn, stored, has_phi

DBTYPES = ("FileDb",)


def filedb_roots(W):
    out = []
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        if f.kind == "Closure" or f.self_ty is None or not f.pub and f.trait is None:
            continue
        t = f.self_ty
        while t[0] == "ref":
            t = t[2]
        if t[0] == "adt" and t[1].split("::")[-1] == "FileDb" and f.name not in ("fmt", "clone") and (f.pub or f.trait):
            out.append(("FileDb::" + f.name, f, {}))
    return out


def is_ok(k):
    return k == 0 or (isinstance(k, tuple) and k and k[0] == 0)


def is_result(W, f, sub):
    t = Prog.sub(f.lty[0], sub)
    return t[0] == "adt" and t[1] == RESULT


from prog import Prog


def P04(W, R):
    R.rule("P04.ret", "on no path does a public operation return Ok (or an iterator yield) after a file operation reported an error earlier on that path")
    roots = W.public_ops() + W.inner_fn_roots() + filedb_roots(W)
    nerr = set()
    nroot = 0
    for label, f, sub in roots:
        res = is_result(W, f, sub)

        def step(eng, st, n):
            if n.kind in ("err", "recerr"):
                nerr.add((n.ctx.fn.d, str(n.sp), n.name))
                if not st.trk:
                    st.trk = n.id
            elif n.kind == "ret":
                n.x["t"] = st.trk
        eng = W.run(label, f, sub, step, 0, None, {})
        bad = None
        for n in eng.nodes:
            if n.kind == "ret" and n.x.get("t") and (not res or is_ok(n.name)):
                bad = n
        nroot += 1
        if bad is None:
            R.ok("P04.ret", label)
        else:
            e = eng.nodes[bad.x["t"]]
            R.bad("P04.ret", "%s after failed %s in %s" % (label, short(str(e.name)), short(owner(e))),
                  "%s can return success although %s failed in %s" % (label, e.name, owner(e)), e, eng)
    R.floor("P04.ret", nroot, 40, "operations")
    R.floor("P04.err", len(nerr), 30, "fallible file operations")


# ---------------------------------------------------------------- P02
def map_fields(W):
    """the fields of the shared database object that hold the open maps: {field: key type}"""
    adt = W.adt("FileDbInner")
    out = {}
    for f in W.p.adts[adt]["vs"][0]["f"]:
        t = W.p.ty(f["t"])
        if t[0] == "adt" and t[1].endswith("Map") and len(t[2]) >= 2:
            v = t[2][1]
            if v[0] == "adt" and v[1] == W.FM:
                out[f["n"]] = v
            elif v[0] == "adt" and len(v[2]) == 0:
                out[f["n"]] = v
    return adt, out


def src_field(W, adt, flds, t, eng=None):
    """the one collection a value comes from (through joins as well)"""
    seen = set()
    todo = [t]
    o = set()
    while todo:
        for x in subterms(todo.pop()):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "fld" and x.a[3] == adt and x.a[2] in flds:
                o.add(x.a[2])
            elif x.op == "phi" and eng is not None:
                todo += list(eng.phiops.get(x, ()))
    return o.pop() if len(o) == 1 else None


CHAIN = ("vec", "op", "slice", "cloned", "copied", "map", "rev", "enumerate", "svals")


def whole_chain(it, eng):
    if it.op == "it" and it.a[0] == "range":
        return it.a[2].op == "len" and counts_from_zero(eng, it.a[1]) and whole_chain(mk("it", "vec", it.a[2].a[0], it.a[1]), eng)
    if it.op == "it" and it.a[0] in CHAIN:
        if it.a[0] in ("vec", "op", "slice", "svals"):
            if not counts_from_zero(eng, it.a[2]):
                return False
            vs, seen = {it.a[1]}, set()
            while True:
                v = vs.pop()
                if v in seen:
                    if not vs:
                        return False
                    continue
                seen.add(v)
                if v.op == "vcoll":
                    return whole_chain(v.a[1], eng)
                if v.op == "phi":
                    vs |= phi_leaves(eng, v)
                elif v.op in ("vcloned", "vsorted", "vclone", "vrem"):
                    vs.add(v.a[0])
                else:
                    break
                if not vs:
                    return False
            return v.op == "call" and v.a[0] in ("map_keys", "map_values", "map_iter")
        return whole_chain(it.a[1], eng)
    return False


def P02(W, R):
    R.rule("P02.all", "on every path of FileDb::sync_all/sync_data that returns Ok: for each of the collections of open maps the loop over the whole collection ran to its end, and each element's sync (of at least the requested strength) was called and succeeded")
    R.rule("P02.map", "the sync of one map syncs all its files (the rule of P01)")
    R.rule("P02.reg", "every map handed out by db_map_* was found in, or put into, the collection that sync walks")
    from rules_sync import check_sync
    adt, flds = map_fields(W)
    R.floor("P02.fields", len(flds), 3, "collections of open maps")
    fdb = W.adt("FileDb")
    for nm, strong in (("sync_all", ("sync_all",)), ("sync_data", ("sync_all", "sync_data"))):
        f = W.method(fdb, None, nm)
        good = {W.method(W.FM, "DbXxxBase", s).d for s in strong}
        nsync = set()

        def step(eng, st, n):
            cur, done, items, miss, err_ = st.trk
            if n.kind == "next":
                fl = src_field(W, adt, flds, n.args[0], eng)
                if fl is not None:
                    if cur is not None and cur[1] == 0:
                        miss = miss | {cur[0]}
                    if n.name == "skip":
                        miss = miss | {fl}
                    elif n.name == "some":
                        # collecting the keys is not the walk itself: a walk that follows clears the mark
                        cur = (fl, 0)
                        if iter_pos(n.args[0]) is c(0):
                            items = items | {fl}
                    else:
                        cur = None
                        p = iter_pos(n.args[0])
                        if whole_chain(n.args[0], eng) and (p is None or p is c(0) or fl in items):
                            done = done | {fl}
            elif n.kind == "rec" and n.name in good and n.args:
                v = eng.load(st, n.args[0])
                fl = src_field(W, adt, flds, v, eng)
                if cur is not None and fl == cur[0]:
                    cur = (fl, 1)
                    nsync.add(fl)
            elif n.kind in ("recerr", "err"):
                err_ = True
            elif n.kind == "ret":
                n.x["fin"] = (done, miss, err_)
            st.trk = (cur, done, items, miss, err_)
        cut = lambda g: g.trait is not None and g.trait.endswith("::DbXxxBase") and g.self_ty is not None and g.self_ty[0] == "adt" and g.self_ty[1] == W.FM
        eng = W.run("FileDb::" + nm, f, {}, step, (None, frozenset(), frozenset(), frozenset(), False), None, {"iterev": True, "cut": cut})
        nret = 0
        for n in eng.nodes:
            if n.kind == "ret" and is_ok(n.name):
                nret += 1
                done, miss, e = n.x["fin"]
                for fl in sorted(flds):
                    R.check(fl in done, "P02.all", "%s walks all of %s" % (nm, fl), "FileDb::%s can return success without having gone through every map in %s" % (nm, fl), n, eng)
                    R.check(fl not in miss, "P02.all", "%s syncs each of %s" % (nm, fl), "FileDb::%s can skip the sync of a map in %s" % (nm, fl), n, eng)
                R.check(not e, "P02.all", "%s reports errors" % nm, "FileDb::%s can return success although the sync of a map failed" % nm, n, eng)
        R.floor("P02.all", nret, 1, "successful returns of %s" % nm)
        for fl in sorted(flds):
            R.check(fl in nsync, "P02.all", "%s reaches %s" % (nm, fl), "FileDb::%s never syncs the maps in %s" % (nm, fl))
        check_sync(W, R, "P02.map", nm, W.method(W.FM, "DbXxxBase", nm), strong, True)
    registered(W, R, "P02.reg")


def registered(W, R, rule):
    """a map handed out by FileDb::db_map_* is in the collection"""
    adt, flds = map_fields(W)
    n_ok = 0
    for label, f, sub in filedb_roots(W):
        t = Prog.sub(f.lty[0], sub)
        if not (t[0] == "adt" and t[1] == RESULT and t[2][0][0] == "adt"):
            continue
        if not (t[2][0][1] == W.FM or t[2][0] in flds.values()):
            continue

        def step(eng, st, n):
            if n.kind == "mapinsert":
                fl = src_field(W, adt, flds, n.args[0]) or path_field(W, adt, flds, n.args[0])
                v = n.args[2]
                st.trk = st.trk | {(fl, v)} if not has_phi(v) else st.trk | {(fl, None)}
            elif n.kind == "ret":
                n.x["ins"] = st.trk
        eng = W.run(label, f, sub, step, frozenset(), None, {})
        for n in eng.nodes:
            if n.kind == "ret" and is_ok(n.name):
                v = n.args[0].a[2]
                fl = src_field(W, adt, flds, v, eng)
                ins = [x for x in n.x["ins"] if x[0] is not None and (x[1] is None or x[1] is v or same_map(x[1], v))]
                good = fl is not None or bool(ins)
                n_ok += 1
                R.check(good, rule, label, "%s can hand out a map that is not in the collection of open maps: FileDb::sync_all does not reach it and a second open gives a second map on the same files" % label, n, eng)
                want = [k for k, ty in flds.items() if ty == t[2][0]]
                got = [fl] if fl else [x[0] for x in ins]
                R.check(not want or set(got) <= set(want), rule, label + " kind", "%s uses the collection %s for a map of another kind" % (label, got), n, eng)
    R.floor(rule, n_ok, 6, "returns of db_map functions")


def path_field(W, adt, flds, p):
    if p.op == "ref":
        for e in p.a[1]:
            if e[0] == "f" and e[2] == adt and e[3] in flds:
                return e[3]
    return None


def same_map(a, b):
    """clones of one map share the Rc they hold"""
    return a is b


# ---------------------------------------------------------------- P17
MUTATORS = ("put", "del", "delete", "remove", "insert", "bulk_put", "bulk_delete", "flush", "sync", "clear", "update")


def is_mutator(name):
    return any(name.startswith(m) for m in MUTATORS)


def P17(W, R):
    R.rule("P17.ro", "no path of a reading operation writes to one of the four files (other than the node cache writing back earlier changes), puts a dirty node into the node cache, removes a node from it, or edits a cached node")
    nread, seen, nmut = 0, set(), 0
    for label, f, sub in W.public_ops() + W.inner_fn_roots():
        if is_mutator(f.name) or f.name in ("read_fill_buffer",) and False:
            nmut += 1
            continue
        if f.d in W.p.rec and f.kind != "Closure" and mutating_rec(W, f):
            continue
        hits = {}

        def step(eng, st, n):
            if n.kind == "io" and n.file and n.file[1] in KINDS:
                seen.add((n.file[1], n.name))
            why = None
            if n.kind == "rec" and W.p.fns.get(n.name) is not None and mutating_rec(W, W.p.fns[n.name]):
                why = "calls %s, which changes the tree" % short(n.name)
            elif is_change(W, n):
                why = "writes (%s%s)" % (n.name.split("::")[-1], ", %s file" % n.file[1] if n.file else "")
            elif n.kind == "call" and W.NC and n.x["fn"].self_ty and n.x["fn"].self_ty[1] == W.NC and n.x["fn"].name == "delete":
                why = "drops a node from the node cache"
            elif n.kind == "store" and stored(n) is not None and stored(n)[2] == W.TREE and n.args[0].a[0].op not in ("loc", "alloc") and not in_cache(W, n):
                why = "edits field %s of a node" % stored(n)[3]
            if why:
                hits.setdefault(short(owner(n)) + " " + why, n)
        eng = W.run(label, f, sub, step, None, None, {"callev": cache_fn(W), "stores": True})
        nread += 1
        if not hits:
            R.ok("P17.ro", label)
        for k, n in sorted(hits.items()):
            R.bad("P17.ro", "%s: %s" % (label, k), "the reading operation %s changes the map: %s" % (label, k), n, eng)
    R.floor("P17.ro", nread, 40, "reading operations")
    R.floor("P17.ro", len(seen), 8, "kinds of file reads met while reading")


_mut = {}


def mutating_rec(W, f):
    """recursive functions reachable from put/delete only"""
    k = (id(W), f.d)
    if k not in _mut:
        roots = [g.d for l, g, s in W.public_ops(dbxxx=False) if not is_mutator(g.name)]
        inner = [g.d for g in W.methods(W.INNER, "*").values() if g.trait and not is_mutator(g.name)]
        reach = set()
        todo = list(roots) + [g for g in inner if g not in W.p.rec]
        while todo:
            d = todo.pop()
            if d in reach:
                continue
            reach.add(d)
            todo += list(W.p.cg.get(d, ()))
        _mut[k] = f.d not in reach and any(is_mutator(g.name) and f.d in reachset(W, g.d) for l, g, s in W.public_ops(dbxxx=False))
    return _mut[k]


def reachset(W, d):
    r, todo = set(), [d]
    while todo:
        x = todo.pop()
        if x not in r:
            r.add(x)
            todo += list(W.p.cg.get(x, ()))
    return r
