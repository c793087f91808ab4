"""P19 P21 P24: opening maps and files."""
from core import *
from prog import Prog
from models import phi_leaves, kind_of_ctx, veclen
from rules_err import filedb_roots, map_fields, registered, is_ok
from rules_own import memdb_roots

STRFN = ("to_string", "to_owned", "into", "from", "as_ref", "as_str", "clone", "deref", "borrow", "into_string", "new_display", "string", "as_path")


def core_of(eng, st, t, depth=0):
    """strip conversions that keep the text"""
    while depth < 12:
        depth += 1
        if t.op == "deref":
            t = t.a[0]
        elif t.op == "ref" and st is not None and eng is not None:
            t2 = eng.load(st, t)
            if t2 is t or t2.op in ("hv", "loc"):
                return t
            t = t2
        elif t.op in STRFN and len(t.a) >= 1 and isinstance(t.a[-1], T):
            t = t.a[-1]
        elif t.op == "call" and str(t.a[0]).split("::")[-1] in STRFN and isinstance(t.a[-1], T):
            t = t.a[-1]
        elif t.op in ("vclone", "vcloned", "vsized"):
            t = t.a[0]
        else:
            return t
    return t


def name_arg(W, f):
    """index of the name parameter (the &str)"""
    for i in range(1, f.argc + 1):
        t = f.lty[i]
        if t[0] == "ref" and t[2] in (("other", "str"), ("str",)) or t[0] == "ref" and str(t[2]).find("str") >= 0 and t[2][0] != "adt":
            return i - 1
    return None


def is_coll(W, x):
    return x.op == "fld" and "BTreeMap" in str(fld_ty(W, x)) or x.op == "fld" and "HashMap" in str(fld_ty(W, x))


def fld_ty(W, x):
    a = W.p.adts.get(x.a[3])
    if not a:
        return ""
    for f in a["vs"][0]["f"]:
        if f["n"] == x.a[2]:
            return W.p.ty(f["t"])
    return ""


def coll_of(W, eng, st, t):
    if t.op == "ref":
        for e in reversed(t.a[1]):
            if e[0] == "f":
                return (e[2], e[3])
    for x in subterms(t):
        if x.op == "fld" and is_coll(W, x):
            return (x.a[3], x.a[2])
    return None


def absent_facts(W, eng, st):
    """{(collection, key core)} known to have no such entry"""
    o = set()
    for k, v in st.facts.items():
        if k.op == "discr" and v == 0 and k.a[0].op == "call" and k.a[0].a[0] == "map_get":
            o.add((coll_of(W, eng, st, k.a[0].a[1]), core_of(eng, st, k.a[0].a[2])))
    return o


def P19(W, R):
    R.rule("P19.reg", "every map handed out was found in, or put into, the collection for its key kind that later calls search")
    R.rule("P19.key", "a handle is looked up, stored and its files are opened under exactly the name asked for")
    R.rule("P19.again", "a request for a map fails only after the collection of the very kind asked for was found to have no map of that name (asking again for an open map does not fail)")
    R.rule("P19.new", "files are opened, and a map is put into a collection, only when no collection of that database (of any key kind for the file database) has a map of that name")
    registered(W, R, "P19.reg")
    adt, flds = map_fields(W)
    nins = nopen = nret = nerr = 0
    for label, f, sub in filedb_roots(W) + memdb_roots(W):
        isf = label.startswith("FileDb::")
        if not (isf or label.startswith("MemoryDb::")) or not f.pub:
            continue
        t = Prog.sub(f.lty[0], sub)
        if t[0] == "adt" and t[1] == RESULT:
            t = t[2][0]
        if not (t[0] == "adt" and (t[1] == W.FM or t[1] in [v[1] for v in flds.values()] or "MemoryDbMap" in t[1])):
            continue
        na = name_arg(W, f)
        if na is None:
            R.bad("P19.key", label, "%s takes no name" % label)
            continue
        own = {(adt, k) for k, v in flds.items() if v == t} if isf else set()
        if isf:
            R.check(len(own) == 1, "P19.again", label + " kind", "%s: cannot tell which collection holds the maps of the kind it returns" % label)

        def step(eng, st, n):
            nm = core_of(eng, st, eng.args[na])
            if isf and "absent" not in st.trk and any((c_, nm) in absent_facts(W, eng, st) for c_ in own):
                st.trk = st.trk | {"absent"}
            if n.kind == "io" and n.name == "open" or n.kind == "mapinsert":
                ab = absent_facts(W, eng, st)
                miss = []
                if n.kind == "mapinsert":
                    cl = coll_of(W, eng, st, n.args[0])
                    need = [cl]
                    if isf:
                        need = [(adt, k) for k in flds]
                    kk = core_of(eng, st, n.args[1])
                    n.x["keyok"] = n.x.get("keyok", True) and kk is nm
                    n.x["coll"] = cl
                    st.trk = st.trk | {n.args[2]}
                else:
                    need = [(adt, k) for k in flds]
                    n.x["keyok"] = n.x.get("keyok", True) and any(core_of(eng, st, x) is nm or x is nm for x in subterms(n.args[1]))
                for c_ in need:
                    if (c_, nm) not in ab:
                        miss.append(c_)
                n.x.setdefault("miss", set()).update(miss)
            elif n.kind == "ret":
                n.x["nm"] = nm
                if not is_ok(n.name) and n.name is not None:
                    n.x["again"] = n.x.get("again", True) and "absent" in st.trk
        eng = W.run(label, f, sub, step, frozenset(), None, {})
        for n in eng.nodes:
            if n.kind == "mapinsert":
                nins += 1
                R.check(n.x["keyok"], "P19.key", label + " insert", "%s stores the map under something else than the name asked for" % label, n, eng)
                R.check(not n.x["miss"], "P19.new", label + " insert", "%s can put a map into %s without having made sure that no map of that name is open (%s)" % (label, n.x["coll"], sorted(x[1] for x in n.x["miss"] if x)), n, eng)
            elif n.kind == "io" and n.name == "open":
                nopen += 1
                R.check(n.x["keyok"], "P19.key", label + " open", "%s opens a file whose name does not depend on the whole map name" % label, n, eng)
                R.check(not n.x["miss"], "P19.new", label + " open", "%s can open the files of a map although a map of that name may be open (%s)" % (label, sorted(x[1] for x in n.x["miss"] if x)), n, eng)
            elif n.kind == "ret" and n.name is not None and not is_ok(n.name):
                nerr += 1
                if isf:
                    R.check(n.x.get("again", False), "P19.again", label, "%s can fail although a map of that name and kind is open (it did not find the name missing from its own collection first)" % label, n, eng)
            elif n.kind == "ret" and (n.name is None or is_ok(n.name)):
                v = n.args[0].a[2] if n.args[0].op == "adt" and n.args[0].a[0] == RESULT else n.args[0]
                nret += 1
                todo, seen = [v], set()
                bad = None
                while todo:
                    x = todo.pop()
                    for y in subterms(x):
                        if y in seen:
                            continue
                        seen.add(y)
                        if y.op == "phi":
                            todo += list(eng.phiops.get(y, ()))
                        elif y.op == "call" and y.a[0] == "map_get":
                            if core_of(eng, None, y.a[2]) is not n.x["nm"]:
                                bad = y
                R.check(bad is None, "P19.key", label + " lookup", "%s can hand out a map that was looked up under another name" % label, n, eng)
    R.floor("P19.new", nins, 6, "insertions into the collections of maps")
    R.floor("P19.new", nopen, 12, "files opened")
    R.floor("P19.again", nerr, 3, "failing exits")
    R.floor("P19.key", nret, 6, "handles handed out")


# ---------------------------------------------------------------- P21, P24
def open_fns(W):
    """{kind: fn} : the functions that open each of the four files"""
    out = {}
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        if f.kind == "Closure" or f.self_ty is None or f.self_ty[0] != "adt":
            continue
        t = f.lty[0]
        for n, kd in (("KeyFile", "key"), ("ValueFile", "val"), ("IdxFile", "idx"), ("HtxFile", "htx")):
            if f.self_ty[1].split("::")[-1] == n and t[0] == "adt" and t[1] == RESULT and t[2][0][0] == "adt" and t[2][0][1] == f.self_ty[1]:
                out.setdefault(kd, []).append(f)
    miss = [k for k in W.kinds if k not in out]
    if miss:
        raise Anchor("no function opens the %s file" % miss)
    return out


def parm(f, ty):
    for i in range(1, f.argc + 1):
        t = f.lty[i]
        if t[0] == "ref":
            t = t[2]
        if ty(t):
            return i - 1
    return None


def param_facts(eng, s):
    a = getattr(eng, "parr", None)
    if a is None:
        return ()
    return tuple(sorted((k.id, v if isinstance(v, int) else 0) for k, v in s.facts.items() if isinstance(v, int) and k.op != "isc" and any(x is a for x in subterms(k)) and not any(x.op == "phi" for x in subterms(k))))


def arr_bytes(t):
    if t.op == "arr" and all(x.op == "c" for x in t.a):
        return tuple(x.a[0] for x in t.a)
    if t.op == "vrep" and t.a[0].op == "c" and t.a[1].op == "c" and t.a[1].a[0] < 4096:
        return (t.a[0].a[0],) * t.a[1].a[0]
    return None


def width(n):
    from layout import parts
    ps = parts(n, n.args)
    if ps is None:
        return None
    t = c(0)
    for x, _ in ps:
        t = add(t, x)
    return t


def opener(W, kd, f, step):
    def setup(eng, st, av):
        i = parm(f, lambda t: t[0] == "adt" and t[1].endswith("FileDbParams"))
        eng.parr = av[i] if i is not None else None
        # the type signature handed in: an array of 8 bytes
        eng.sig2 = None
        for a, t in zip(av, f.lty[1:]):
            if t[0] == "array":
                eng.sig2 = a
    return W.run("%s open" % kd, f, {}, step, None, setup, {"track": lambda e, s: (s.trk, param_facts(e, s)), "stores": False})


def P24(W, R):
    R.rule("P24.min", "every path of opening a file with a fixed buffer size asks for at least two chunks; with a per-mille size below 1000 for chunks of at most 32 KiB (the smallest automatic buffer), so that it has two")
    R.rule("P24.kind", "the buffer is made the way the parameter variant says, from the payload of that parameter")
    R.rule("P24.own", "each file uses the parameter named after it, from the parameters given")
    R.rule("P24.total", "no buffer parameter value makes opening panic in a conversion")
    R.rule("P24.default", "opening without parameters uses the default parameters")
    n1 = 0
    for kd, fs in sorted(open_fns(W).items()):
        for f in fs:
            def step(eng, st, n):
                if n.kind == "io" and n.name in ("with_capacity", "with_per_mille", "new") and n.file and len(n.args) >= 2:
                    n.x.setdefault("st", []).append(st.fork())
                elif n.kind in ("panic", "diverge"):
                    n.x.setdefault("st", []).append(st.fork())
            eng = opener(W, kd, f, step)
            if eng.parr is None:
                R.bad("P24.own", "%s parameters" % kd, "opening the %s file takes no parameters" % kd)
                continue
            for n in eng.nodes:
                if n.kind == "io":
                    for st in n.x.get("st", ()):
                        n1 += 1
                        # the parameter this path looked at
                        sel = [(k.a[0], v) for k, v in st.facts.items() if k.op == "discr" and any(x is eng.parr for x in subterms(k.a[0])) and "FileBufSizeParam" in str(fld_ty(W, k.a[0]) if k.a[0].op == "fld" else "")]
                        good = len(sel) == 1
                        want = {"with_capacity": 0, "with_per_mille": 1, "new": 2}
                        R.check(good and sel[0][0].a[2].split("_")[0] == kd, "P24.own", "%s file" % kd, "the %s file is opened with the buffer parameter %s" % (kd, [s[0].a[2] for s in sel if s[0].op == "fld"]), n, eng)
                        if not good:
                            continue
                        pv = W.p.adts[[a for a in W.p.adts if a.endswith("FileBufSizeParam")][0]]["vs"]
                        vn = pv[sel[0][1]]["n"]
                        R.check({"Size": "with_capacity", "PerMille": "with_per_mille", "Auto": "new"}.get(vn) == n.name, "P24.kind", "%s %s" % (kd, vn), "buffer parameter %s of the %s file makes a buffer with %s" % (vn, kd, n.name), n, eng)
                        if n.name == "with_capacity":
                            ch, num = n.args[-2], n.args[-1]
                            lb = lower(st, num)
                            R.check(lb is not None and lb >= 2, "P24.min", "%s with_capacity" % kd, "the %s file can be opened with a buffer of fewer than two chunks" % kd, n, eng)
                            R.check(ch.op == "c" and ch.a[0] > 0 and ch.a[0] & (ch.a[0] - 1) == 0, "P24.kind", "%s chunk size" % kd, "the chunk size of the %s file is not a power of two" % kd, n, eng)
                            if num.op != "c":
                                pay = eng.proj(eng.proj(sel[0][0], ("v", sel[0][1])), ("f", 0, "", "0"))
                                R.check(num.op == "op" and num.a[0] == "Div" and num.a[2] is ch and sel[0][0] in list(subterms(num.a[1])), "P24.kind", "%s number of chunks" % kd, "the number of chunks of the %s file is not its size parameter divided by the chunk size" % kd, n, eng)
                        elif n.name == "with_per_mille":
                            ch, pm = n.args[-2], n.args[-1]
                            R.check(sel[0][0] in list(subterms(pm)) and pm.op != "op", "P24.kind", "%s per mille" % kd, "the %s file does not use its per-mille parameter as given" % kd, n, eng)
                            big = lower(st, pm)
                            R.check(ch.op == "c" and ch.a[0] > 0 and ch.a[0] & (ch.a[0] - 1) == 0 and (ch.a[0] <= 32768 or big is not None and big >= 1000), "P24.min", "%s with_per_mille" % kd,
                                    "the %s file can be opened with a per-mille buffer that has one chunk only (chunk size %s)" % (kd, show(ch, 3)), n, eng)
                elif n.kind in ("panic", "diverge"):
                    for st in n.x.get("st", ()):
                        # reached through a conversion that cannot fail?
                        un = [k for k, v in st.facts.items() if k.op == "op" and k.a[0] == "Fits" and v == 0 and any(x is eng.parr for x in subterms(k))]
                        bad = [k for k in un if not (upper(st, k.a[1]) is not None and upper(st, k.a[1]) < 1 << fitbits(k))]
                        if un:
                            R.check(not bad, "P24.total", "%s conversion" % kd, "some buffer size of the %s file makes opening panic" % kd, n, eng)
    R.floor("P24.min", n1, 4 * len(W.kinds), "ways of making a buffer")
    # the database hands its parameters through
    nl = 0
    for label, f, sub in filedb_roots(W):
        pi = parm(f, lambda t: t[0] == "adt" and t[1].endswith("FileDbParams"))
        t = Prog.sub(f.lty[0], sub)
        if not (t[0] == "adt" and t[1] == RESULT and t[2][0][0] == "adt" and (t[2][0][1] == W.FM)):
            continue
        seen = {}

        def step2(eng, st, n):
            if n.kind == "io" and n.name in ("with_capacity", "with_per_mille", "new") and n.file and len(n.args) >= 2:
                for k, v in st.facts.items():
                    if k.op == "discr" and k.a[0].op == "fld" and "FileBufSizeParam" in str(fld_ty(W, k.a[0])):
                        seen.setdefault((n.file[1], k.a[0]), n)
                if pi is None:
                    n.x["kinds"] = n.name
        eng = W.run(label, f, sub, step2, None, None, {})
        if pi is not None:
            for (kd, x), n in sorted(seen.items(), key=lambda y: str(y[0][0])):
                if any(k2 is x for (k1, k2) in seen if k1 == kd):
                    nl += 1
                    R.check(any(y is eng.args[pi] for y in subterms(x)), "P24.own", "%s %s" % (label, kd), "%s does not use the parameters it was given for the %s file" % (label, kd), n, eng)
    R.floor("P24.own", nl, 3 * len(W.kinds), "buffer parameters handed through")


def fitbits(k):
    b = k.a[2]
    return b.a[0] if isinstance(b, T) else int(b)


def lower(st, t):
    if t.op == "c":
        return t.a[0]
    best = None
    if t.op == "cast":
        best = lower(st, t.a[-1]) if isinstance(t.a[-1], T) else None
    for k, v in st.facts.items():
        if k.op == "op" and k.a[0] == "Lt":
            if k.a[1] is t and k.a[2].op == "c" and v == 0:
                best = max(best or 0, k.a[2].a[0])
            elif k.a[2] is t and k.a[1].op == "c" and v == 1:
                best = max(best or 0, k.a[1].a[0] + 1)
    return best


def upper(st, t):
    if t.op == "c":
        return t.a[0]
    if t.op == "op" and t.a[0] == "Div" and t.a[2].op == "c" and t.a[2].a[0] > 0:
        u = upper(st, t.a[1])
        return (1 << 32) // t.a[2].a[0] if u is None else u // t.a[2].a[0]
    best = None
    for k, v in st.facts.items():
        if k.op == "op" and k.a[0] == "Lt":
            if k.a[1] is t and k.a[2].op == "c" and v == 1:
                best = k.a[2].a[0] - 1 if best is None else min(best, k.a[2].a[0] - 1)
            elif k.a[2] is t and k.a[1].op == "c" and v == 0:
                best = k.a[1].a[0] if best is None else min(best, k.a[1].a[0])
    return best


FSBAD = ("remove_file", "rename", "create_new", "remove_dir_all", "remove_dir")


def header_step(kd, acc, exts):
    """follows the position in the file while it is opened: what is written and read at which place of the header"""
    def step(eng, st, n):
        if n.kind == "io" and n.name == "open":
            n.x["opt"] = n.args[0]
            exts[kd] = n.args[1]
        if n.kind == "ok" and n.name == "seek" and n.file:
            a = n.args[0]
            if a.op == "adt" and a.a[1] == 1 and a.a[2] is c(0) and mk("ghost", "wrote") in st.mem:
                st.mem[mk("ghost", "pos")] = mk("none")
            elif a.op == "adt" and a.a[1] == 1 and a.a[2] is c(0):
                st.mem[mk("ghost", "end")] = n.res
                st.mem[mk("ghost", "pos")] = mk("none")
            elif a.op == "adt" and a.a[1] == 0:
                st.mem[mk("ghost", "pos")] = a.a[2]
            else:
                st.mem[mk("ghost", "pos")] = mk("none")
        elif n.kind in ("io", "ok") and n.file and n.file[1] == kd and (is_write(n.name) or is_read(n.name)):
            p = st.mem.get(mk("ghost", "pos"), mk("none"))
            w = width(n)
            wr = is_write(n.name)
            if n.kind == "io":
                if wr:
                    e = st.mem.get(mk("ghost", "end"))
                    n.x["empty"] = n.x.get("empty", True) and e is not None and eng.truth(st, eq(e, c(0))) is True
            else:
                if p.op == "c" and w is not None and w.op == "c":
                    if wr:
                        v = n.args[0] if n.args else None
                        b = arr_bytes(v) if v is not None else None
                        acc["w"].setdefault((p.a[0], w.a[0]), set()).add(v if b is None else mk("arr", *[c(x) for x in b]))
                    else:
                        st.trk = (st.trk or frozenset()) | {(p.a[0], w.a[0], n.res)}
                if wr:
                    st.mem[mk("ghost", "wrote")] = c(1)
                if n.name != "set_len":
                    st.mem[mk("ghost", "pos")] = add(p, w) if p.op != "none" and w is not None else mk("none")
        elif n.kind == "ret":
            n.x["st"] = st.fork()
    return step


def P21(W, R):
    R.rule("P21.trunc", "no file is opened with truncation, or created over an existing one, or removed or renamed, anywhere in the crate")
    R.rule("P21.empty", "on every path of opening a file, it is written to (or its length set) only when its length was found to be zero")
    R.rule("P21.sig", "on every path that opens a non-empty file successfully, its signature and key-kind signature were read from where they are written and compared equal to the expected ones, and every other header value was accepted that an empty file is initialised with")
    R.rule("P21.distinct", "the signatures of the four file kinds, the signatures of the key kinds, and the file names are pairwise different; the same place holds them in every file")
    sigs, exts, nsig = {}, {}, 0
    # the whole crate
    nfs = 0
    for d, f in sorted(W.p.fns.items()):
        for t in [b["t"]["f"]["d"] for b in f.bbs if b["t"]["k"] == "call" and b["t"]["f"].get("k") == "fn"]:
            nm = t.split("::")[-1]
            if t.startswith("std::fs::") and nm in FSBAD or t.startswith("std::fs::") and "File" in t and nm == "create":
                R.bad("P21.trunc", "%s in %s" % (nm, short(d)), "%s calls %s: an existing file may be destroyed" % (d, t))
            nfs += 1
    R.floor("P21.trunc", nfs, 100, "calls looked at")
    for kd, fs in sorted(open_fns(W).items()):
        for f in fs:
            acc = {"w": {}}
            eng = opener(W, kd, f, header_step(kd, acc, exts))
            now = 0
            for n in eng.nodes:
                if n.kind == "io" and n.name == "open":
                    o = dict(n.x["opt"].a) if n.x["opt"].op == "oo" else None
                    good = o is not None and all(o.get(k, c(0)) is c(0) for k in ("truncate", "append", "create_new"))
                    R.check(good, "P21.trunc", "%s file" % kd, "the %s file is opened with options that can destroy or misplace its content (%s)" % (kd, show(n.x["opt"], 4)), n, eng)
                if n.kind == "io" and "empty" in n.x:
                    now += 1
                    R.check(n.x["empty"], "P21.empty", "%s %s" % (kd, n.name), "opening the %s file can write to it (%s) although it is not empty" % (kd, n.name), n, eng)
            R.floor("P21.empty", now, 3, "writes that initialise the %s file" % kd)
            nok = 0
            for n in eng.nodes:
                if n.kind != "ret" or not is_ok(n.name):
                    continue
                st = n.x["st"]
                e = st.mem.get(mk("ghost", "end"))
                if e is None:
                    R.bad("P21.sig", "%s length" % kd, "the %s file can be opened without looking at its length" % kd, n, eng)
                    continue
                if eng.truth(st, eq(e, c(0))) is True:
                    continue
                nok += 1
                rd = st.trk or frozenset()
                # signature 1: compared equal with the constant written there
                for off, what in ((0, "signature"), (8, "key-kind signature")):
                    ws = acc["w"].get((off, 8), set())
                    rs = [r for (p, w, r) in rd if p == off and w == 8]
                    good = False
                    for r in rs:
                        for wv in ws:
                            if cmp_equal(eng, st, r, wv):
                                good = True
                    R.check(len(ws) == 1 and good, "P21.sig", "%s %s" % (kd, what), "the %s file can be opened although its %s was not compared with the one a new file gets" % (kd, what), n, eng)
                    for wv in ws:
                        if off == 0:
                            b = arr_bytes(wv)
                            sigs.setdefault(kd, set()).add(b)
                        else:
                            R.check(wv is eng.sig2, "P21.sig", "%s %s given" % (kd, what), "a new %s file does not get the key-kind signature handed in" % kd, n, eng)
                    nsig += 1
                # the rest of the header a new file gets is accepted
                for (p, w, r) in sorted(rd, key=lambda x: (x[0], x[1])):
                    if p < 16 or w > 8:
                        continue
                    wv = init_value(acc["w"], p, w)
                    if wv is None:
                        R.bad("P21.sig", "%s header at %d" % (kd, p), "opening the %s file reads a header field at %d that a new file does not get" % (kd, p), n, eng)
                        continue
                    if wv.op == "c":
                        R.check(eng.truth(st, eq(r, wv)) is not False, "P21.sig", "%s header at %d" % (kd, p), "the value a new %s file gets at %d is refused when it is opened again" % (kd, p), n, eng)
            R.floor("P21.sig", nok, 1, "successful opens of a non-empty %s file" % kd)
    ks = sorted(sigs)
    for i, a in enumerate(ks):
        R.check(len(sigs[a]) == 1 and None not in sigs[a], "P21.distinct", "signature of %s" % a, "the signature of the %s file is not a constant" % a)
        for b in ks[i + 1:]:
            R.check(not (sigs[a] & sigs[b]), "P21.distinct", "signatures %s %s" % (a, b), "the %s and %s files have the same signature" % (a, b))
            R.check(a in exts and b in exts and exts_differ(exts[a], exts[b]), "P21.distinct", "file names %s %s" % (a, b), "the %s and %s files may have the same name" % (a, b))
    R.floor("P21.distinct", len(ks), len(W.kinds), "file kinds with a signature")
    # key kinds
    kt = {}
    for f in W.p.fns.values():
        if f.name == "signature" and f.trait and f.trait.endswith("::DbMapKeyType"):
            r = []
            W.run("signature", f, {}, lambda eng, st, n: r.append(n.args[0]) if n.kind == "ret" else None, None, None, {})
            kt[short(f.self_ty[1])] = [arr_bytes(x) for x in r]
    names = sorted(kt)
    R.floor("P21.distinct", len(names), 3, "key kinds with a signature")
    for i, a in enumerate(names):
        R.check(len(kt[a]) == 1 and kt[a][0] is not None and len(kt[a][0]) == 8, "P21.distinct", "signature of %s" % a, "the signature of key kind %s is not one constant" % a)
        for b in names[i + 1:]:
            R.check(not (set(kt[a]) & set(kt[b])), "P21.distinct", "key kinds %s %s" % (a, b), "the key kinds %s and %s have the same signature" % (a, b))
    # the map hands the signature of its key kind to all four files
    inner = [f for f in W.methods(W.INNER).values() if f.lty[0][0] == "adt" and f.lty[0][1] == RESULT and f.lty[0][2][0][0] == "adt" and f.lty[0][2][0][1] == W.INNER]
    nh = 0
    od = {f.d: kd for kd, fs in open_fns(W).items() for f in fs}
    for f in inner:
        hit = {}
        eng = W.run("open", f, {}, lambda eng, st, n: hit.setdefault(od[n.x["fn"].d], []).append(n) if n.kind == "call" and n.x["fn"].d in od else None, None, None, {"callev": lambda g: g.d in od})
        for kd in W.kinds:
            for n in hit.get(kd, ()):
                nh += 1
                s = [a for a, t in zip(n.args, n.x["fn"].lty[1:]) if t[0] == "array"]
                R.check(len(s) == 1 and s[0].op == "call" and "signature" in str(s[0].a[0]), "P21.sig", "%s gets the key kind's signature" % kd, "the %s file is not opened with the signature of the map's key kind" % kd, n, eng)
    R.floor("P21.sig", nh, len(W.kinds), "files opened by a map")


def kept(W, R, kd, rule):
    """numbers that are kept in memory about an open file: a new file starts with those that a later open reads back"""
    p = W.p
    cnt = 0
    for f in open_fns(W)[kd]:
        acc = {"w": {}}
        eng = opener(W, kd, f, header_step(kd, acc, {}))
        # the numbers beside the file in the shared state
        t = f.lty[0][2][0]
        flds, path, seen = [], [], set()

        def look(t):
            if t[0] != "adt" or t[1] in seen:
                return
            seen.add(t[1])
            for x in t[2] if t[1] not in p.adts else ():
                look(x)
            if t[1] in p.adts and len(p.adts[t[1]]["vs"]) == 1:
                for i, x in enumerate(p.adts[t[1]]["vs"][0]["f"]):
                    ty = p.ty(x["t"])
                    if ty[0] == "other" and ty[1] in ("u64", "u32", "usize"):
                        flds.append(("f", i, t[1], x["n"]))
                    elif ty[0] == "adt" and ty[1] != W.adt("VarFile"):
                        look(ty)
        look(t)
        first = ("f", 0, t[1], p.adts[t[1]]["vs"][0]["f"][0]["n"])
        new, old = {}, {}
        for n in eng.nodes:
            if n.kind != "ret" or not is_ok(n.name):
                continue
            st = n.x["st"]
            e = st.mem.get(mk("ghost", "end"))
            r, q = eng.locof(eng.proj(eng.payload(n.args[0], 0), first))
            for fl in flds:
                v = eng.get(st, r, q + (fl,))
                if e is not None and eng.truth(st, eq(e, c(0))) is True:
                    new.setdefault(fl, set()).add(v)
                else:
                    old.setdefault(fl, []).append((v, st.trk or frozenset(), n))
        for fl in flds:
            cnt += 1
            nv = new.get(fl, set())
            for v, rd, n in old.get(fl, []):
                good = len(nv) == 1 and (v is list(nv)[0] or any(x[2] is v and init_value(acc["w"], x[0], x[1]) is list(nv)[0] for x in rd))
                R.check(good, rule, "%s %s" % (kd, fl[3]), "the %s file keeps %s in memory when it is new and %s when it is opened again" % (kd, ", ".join(show(x, 3) for x in nv), show(v, 3)), n, eng)
    return cnt


def eq(a, b):
    return mk("op", "Eq", a, b) if a.id <= b.id else mk("op", "Eq", b, a)


def cmp_equal(eng, st, r, w):
    """the two byte arrays compared equal on this path"""
    for k, v in st.facts.items():
        if not isinstance(v, int):
            continue
        s = None
        if k.op == "op" and k.a[0] == "Eq" and v == 1:
            s = k.a[1:]
        elif k.op == "call" and k.a[0] in ("eq", "PartialEq::eq", "slice_eq", "arr_eq", "veq") and v == 1:
            s = k.a[1:]
        elif k.op == "call" and k.a[0] in ("ne",) and v == 0:
            s = k.a[1:]
        if s is None or len(s) != 2:
            continue
        if uses(s[0], r) and uses(s[1], w) or uses(s[1], r) and uses(s[0], w):
            return True
    return False


def uses(t, x):
    if t is x:
        return True
    while t.op in ("vsized", "vclone", "deref", "vcoll") or t.op == "slice" and t.a[1] is c(0) and (t.a[2] == "end" or isinstance(t.a[2], T) and (t.a[2] is veclen(t.a[0]) or t.a[2] is c(8))):
        t = t.a[0]
        if t is x:
            return True
    return arr_bytes(t) is not None and arr_bytes(t) == arr_bytes(x)


def exts_differ(a, b):
    def bs(t):
        return frozenset(x for x in (arr_bytes(y) for y in subterms(t)) if x is not None)
    return bs(a) != bs(b)


def init_value(ws, p, w):
    for (q, n), vs in ws.items():
        if (q, n) == (p, w) and len(vs) == 1:
            return list(vs)[0]
    for (q, n), vs in ws.items():
        if q <= p and p + w <= q + n and len(vs) == 1:
            b = arr_bytes(list(vs)[0])
            if b is not None and all(x == 0 for x in b[p - q:p - q + w]):
                return c(0)
            if b is not None:
                return c(int.from_bytes(bytes(b[p - q:p - q + w]), "little"))
    return None
