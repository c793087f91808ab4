"""P09: what is written is what is read, on every record of every file.
P10: records stay inside their place.  P08: free lists.  P18: values.  P23: truncation.  P11: tables."""
from core import *
from models import phi_leaves, veclen
import layout
from layout import F, Layout, strip, uncast, file_roots, WIDTH

HEAD, FREE, USED = "head", "free", "used"


def frames(n):
    x = n.ctx
    while x is not None:
        if x.fn.kind != "Closure":
            yield x.fn
        x = x.parent


def actor(W, n):
    """the function that decides about an access: past the implementations of foreign traits and the methods of VarFile"""
    vf = W.adt("VarFile")
    last = None
    for f in frames(n):
        last = f
        if f.trait and f.trait not in W.p.traits:
            continue
        if selfadt(f) == vf and f.d not in heavy(W):
            continue
        return f.d
    return last.d


def selfadt(f):
    t = f.self_ty
    while isinstance(t, tuple) and t[0] in ("ref", "ptr"):
        t = t[1]
    return t[1] if isinstance(t, tuple) and t[0] == "adt" else None


def heavy(W):
    """methods of VarFile that go to a place themselves"""
    h = getattr(W, "_heavy", None)
    if h is None:
        vf = W.adt("VarFile")
        seeks = {f.d for f in W.p.fns.values() if f.trait and f.name == "seek"}
        near = {f.d for f in W.p.fns.values() if set(W.p.cg.get(f.d, ())) & seeks and selfadt(f) == vf}
        h = W._heavy = {f.d for f in W.p.fns.values() if selfadt(f) == vf and set(W.p.cg.get(f.d, ())) & near}
    return h


class Book(object):
    """every access of every operation on the four files, with the kind of place it touches"""

    def __init__(self, W, only=None):
        self.W = W
        self.lays = []
        self._lc = {}
        for lab, f in file_roots(W):
            if only and not only(lab, f):
                continue
            self.lays.append(Layout(W, lab, f))
        self.pm = W.adt("PieceMgr")
        self.tables = {}          # kind -> (head positions, size classes)
        self.places = []          # (L, can, class, header positions)
        for L in self.lays:
            for x in L.can:
                self.places.append((L, x) + self.place(L, x))

    def leaves(self, L, t):
        out = set()
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            x = layout.resolve(L.eng, x)
            if x.op == "phi":
                todo += list(phi_leaves(L.eng, x))
            elif x.op == "deref" and x.a[0].op == "phi":
                todo += [L.eng.default_at(L.eng.new_state(), *L.eng.locof(y)) for y in phi_leaves(L.eng, x.a[0])]
            else:
                out.add(x)
        return out

    def is_head(self, x):
        return x.op == "elem" and (x.a[0].op == "arr" or any(y.op == "fld" and len(y.a) > 3 and y.a[3] == self.pm for y in subterms(x.a[0])))

    def leafclass(self, L, l, kind, busy=()):
        """what a place is the start of: a free list head, a record on a free list, or a record in use.
        A record reached in a round of a walk from records of one class is of that class (greatest fixed point)."""
        if l.op == "c":
            return "const"
        if self.is_head(l):
            return HEAD
        if (id(L), l) in self._lc:
            return self._lc[(id(L), l)]
        if l in busy:
            return None
        out = set()
        for k, p in L.readat.get(l, ()):
            if k != kind:
                out.add(USED)
                continue
            b, rel = L.split(p, k)
            if b is None:
                out.add(USED)
                continue
            cl = {self.leafclass(L, x, kind, busy + (l,)) for x in self.leaves(L, b)}
            cl.discard(None)
            out.add(FREE if cl <= {HEAD, FREE, "const"} and cl != {"const"} else USED)
        r = next(iter(out)) if len(out) == 1 else USED
        if not busy:
            self._lc[(id(L), l)] = r
        return r

    def baseclass(self, L, b, kind):
        return {self.leafclass(L, l, kind) for l in self.leaves(L, b)}

    def place(self, L, x):
        """(class, positions): HEAD / const: fixed places in the header; FREE: a record reached through a free list;
        USED: any other record; None: not known"""
        if x.base is None:
            if x.rel is None:
                return (None, ())
            if x.rel.op == "c":
                return ("const", (x.rel.a[0],))
            return ("slot", ())
        ls = self.leaves(L, x.base)
        cl = {self.leafclass(L, l, x.a.kind) for l in ls}
        cs = tuple(sorted(l.a[0] for l in ls if l.op == "c" and l.a[0]))
        if cl == {HEAD} or cl == {HEAD, "const"}:
            return (HEAD, cs)
        if cl == {"const"}:
            return ("const", cs)
        if cs:
            return ("mixed", cs)
        cl.discard("const")
        if HEAD in cl:
            return ("mixed", cs)
        return (FREE if cl == {FREE} else USED if cl == {USED} else "any", ())


    def kind_of(self, lab):
        return {"KeyFile": "key", "ValueFile": "val", "IdxFile": "idx", "HtxFile": "htx"}.get(lab.split("::")[0])

    def header_fields(self, kind):
        """([(position, bytes)] of the header fields other than list heads, [(position, bytes)] zeroed in a new file, end of the header)"""
        fs, zs, end, ini = set(), set(), 0, initfns(self.W, self, kind)
        for L, x, cl, cs in self.places:
            if x.a.kind != kind or cl != "const" or x.w.op != "c" or x.rel is None or x.rel.op != "c":
                continue
            w = x.w.a[0]
            if x.base is None:
                at = (x.rel.a[0],)
            else:
                at = [q + x.rel.a[0] for q in cs]
            mine = x.a.wr and actor(self.W, x.a.n) in ini
            for q in at:
                zero = x.a.wr and (zerofill(x) or x.val is not None and x.val.op == "c" and x.val.a[0] == 0)
                if mine:
                    end = max(end, q + w) if q < 1 << 16 else end
                    if zero:
                        zs.add((q, w))
                        continue
                fs.add((q, w))
        return fs, zs, end


def zerofill(x):
    v = x.val
    return x.a.n.name == "write_zero" or v is not None and v.op == "vrep" and v.a[0] is c(0)


def segments(B, kind):
    """writes that follow one seek: {(root, seek): [(L, can, class)]}"""
    out = {}
    for L, x, cl, cs in B.places:
        if x.a.kind == kind and x.a.wr:
            out.setdefault((L.label, x.base, x.a.seg), []).append((L, x, cl))
    return out


def fkey(x):
    return (show(x.rel, 6), show(x.w, 6))


def name(L):
    return L.label


def P09(W, R):
    R.rule("P09.pos", "every read and write of the four files happens at a known place: a fixed header position, a free list head, a hash slot, or a constant or length-dependent distance from the start of a record")
    R.rule("P09.full", "all functions that write a whole record of a file write the same fields: same order, widths and starting places, with no gap")
    R.rule("P09.free", "a record is put on a free list with one set of fields, and what is read through a free list is exactly these fields")
    R.rule("P09.read", "every field read from a record in use is one of the fields its writers write (same distance from the start, same width)")
    R.rule("P09.write", "every single write into a record is a field of the record, of the free record, or zero filling")
    R.rule("P09.header", "every access to a header field is at the place and width of a field or of a free list head that opening a new file initialises")
    R.rule("P09.slot", "hash slots start where the header of the hash file ends, are 8 bytes wide and 8 bytes apart, for readers and writers")
    R.rule("P09.match", "the field of a record that a reader returns as a member of its result is the one that the writer fills from that member")
    B = Book(W)
    nacc = 0
    for L, x, cl, cs in B.places:
        nacc += 1
        R.check(cl is not None and cl != "mixed" and x.a.kind in KINDS, "P09.pos", "%s %s" % (actor(W, x.a.n), x.a.n.name), "%s accesses the %s file at a place that is not known (%s)" % (short(actor(W, x.a.n)), x.a.kind, cl), x.a.n, L.eng)
    for L in B.lays:
        for a in L.accs:
            if a.pos is None:
                R.bad("P09.pos", "%s %s" % (actor(W, a.n), a.n.name), "%s accesses the %s file with the file position unknown" % (short(actor(W, a.n)), a.kind), a.n, L.eng)
    R.floor("P09.pos", nacc, 400, "accesses")
    for kind in KINDS:
        if kind == "htx" and not W.adt("HtxFile", opt=True):
            continue
        header(W, R, B, kind)
        if kind == "htx":
            slots(W, R, B)
        else:
            records(W, R, B, kind)
    members(W, R, B)


def header(W, R, B, kind):
    init, tail = {}, []
    acc = []
    for L, x, cl, cs in B.places:
        if x.a.kind != kind or cl not in (HEAD, "const"):
            continue
        isinit = cl == "const" and x.base is None and x.a.wr and L.label.endswith("::" + "open_with_params") and actor(W, x.a.n) in initfns(W, B, kind)
        if isinit:
            if zerofill(x) and x.w.op == "c":
                tail.append((x.rel.a[0], x.rel.a[0] + x.w.a[0]))
            elif x.w.op == "c":
                init[x.rel.a[0]] = x.w.a[0]
        else:
            acc.append((L, x, cl, cs))
    end = max([b for a, b in tail] + [a + w for a, w in init.items()] + [0])
    # contiguous
    p = 0
    spans = sorted([(a, a + w) for a, w in init.items() if a < 1 << 16] + tail)
    good = bool(spans)
    for a, b in spans:
        if a >= 1 << 16:
            continue
        good = good and a == p
        p = max(p, b)
    R.check(good and p >= 64, "P09.header", "%s header" % kind, "opening a new %s file does not write its header without gaps from the start" % kind)
    B.hend = getattr(B, "hend", {})
    B.hend[kind] = p
    n = 0
    for L, x, cl, cs in acc:
        w = x.w.a[0] if x.w.op == "c" else None
        poss = list(cs)
        rel = x.rel.a[0] if x.rel.op == "c" else None
        if x.base is None:
            rel = 0
        for q in poss:
            q += rel if x.base is not None else 0
            n += 1
            if kind == "htx" and q >= p and (q - p) % 8 == 0 and w == 8:
                continue
            ok = init.get(q) == w or w == 8 and any(a <= q and q + 8 <= b and (q - a) % 8 == 0 for a, b in tail)
            if not ok:
                ok = any(a <= q and q + (w or 1 << 30) <= b for a, b in [(q0, q0 + w0) for q0, w0 in init.items()]) and init.get(q) == w
            R.check(ok, "P09.header", "%s %s at %d" % (actor(W, x.a.n), x.a.n.name, q), "%s accesses %s bytes at %d of the %s file header, which is no field of it" % (short(actor(W, x.a.n)), w, q, kind), x.a.n, L.eng)
        if cl == HEAD:
            n += 1
            R.check(w == 8 and rel == 0, "P09.header", "%s %s head" % (actor(W, x.a.n), x.a.n.name), "%s accesses a free list head of the %s file with another width or place" % (short(actor(W, x.a.n)), kind), x.a.n, L.eng)
    R.floor("P09.header", n, 3, "%s header accesses" % kind)


def initfns(W, B, kind):
    """functions that write the header of a new file: those whose write of the start of the file is reached from open"""
    s = getattr(B, "_init", {}).get(kind)
    if s is None:
        s = set()
        for L, x, cl, cs in B.places:
            if x.a.kind == kind and x.a.wr and x.base is None and x.rel is not None and x.rel is c(0):
                s.add(actor(W, x.a.n))
        B.__dict__.setdefault("_init", {})[kind] = s
    return s


def records(W, R, B, kind):
    segs = segments(B, kind)
    full, free = {}, {}
    rest = []
    for k, ws in segs.items():
        ws = [(L, x, cl) for L, x, cl in ws if cl not in ("const", HEAD)]
        if not ws:
            continue
        fs = {}
        bytes_ = False
        link = False
        for L, x, cl in ws:
            if zerofill(x):
                continue
            fs[fkey(x)] = x
            if x.a.n.name in ("write_all", "write_all_small", "write_u64_le_slice", "write_u64_le_slice2", "write_u32_le_slice", "write_u32_le_slice2") or x.w.op != "c":
                bytes_ = True
            if x.val is not None and x.a.n.name.startswith("write_u") and x.w.op == "c" and x.val.op != "c":
                cls = {B.leafclass(L, l, kind) for l in B.leaves(L, x.val)}
                if FREE in cls or HEAD in cls:
                    link = True
        L, x0, _ = min(ws, key=lambda z: z[1].a.n.id)
        if not fs:
            rest.append((k, ws, fs))
        elif bytes_:
            full.setdefault(frozenset(fs), []).append((L, x0, ws))
        elif link and len(fs) > 1:
            free.setdefault(frozenset(fs), []).append((L, x0, ws))
        else:
            rest.append((k, ws, fs))
    # the whole record
    R.floor("P09.full", sum(len(v) for v in full.values()), 2, "%s record writers" % kind)
    best = sorted(full, key=lambda s: (-len(s), sorted(s)))
    UW = set(best[0]) if best else set()
    for s in best:
        L, x0, ws = full[s][0]
        ok = consistent(s, UW, kind)
        R.check(ok, "P09.full", "%s record writer %s" % (kind, actor(W, x0.a.n)), "%s writes %s records with the fields %s where others write %s" % (short(actor(W, x0.a.n)), kind, fields(s), fields(UW)), x0.a.n, L.eng)
        for L, x0, ws in full[s]:
            R.check(nogap(ws), "P09.full", "%s record writer %s contiguous" % (kind, actor(W, x0.a.n)), "%s leaves a gap in, or does not start at the start of, the %s record it writes" % (short(actor(W, x0.a.n)), kind), x0.a.n, L.eng)
        UW |= set(s)
    # the free record
    R.check(len(free) == 1, "P09.free", "%s free record" % kind, "%s records are put on the free list with %d different sets of fields" % (kind, len(free)), *([free[sorted(free, key=sorted)[0]][0][1].a.n, free[sorted(free, key=sorted)[0]][0][0].eng] if free else []))
    FW = set().union(*free) if free else set()
    arrays = arrs(full)
    n = 0
    for L, x, cl, cs in B.places:
        if x.a.kind != kind or x.a.wr or cl in (HEAD, "const", None, "mixed"):
            continue
        n += 1
        k = fkey(x)
        inU = k in UW or inarray(B, L, x, arrays)
        inF = k in FW
        ok = inF if cl == FREE else inU if cl == USED else inU and inF
        if not ok and cl in (FREE, "any"):
            ok = sizefield(k, UW, FW)      # the leading size, before the record is taken apart
        R.check(ok, "P09.free" if cl == FREE else "P09.read", "%s %s +%s" % (actor(W, x.a.n), x.a.n.name, k[0]), "%s reads %s bytes at +%s of a %s %s record, which is no field of it (fields: %s)" % (short(actor(W, x.a.n)), k[1], k[0], cl, kind, fields(FW if cl == FREE else UW)), x.a.n, L.eng)
    R.floor("P09.read", n, 8, "%s record reads" % kind)
    # arrays start at their start
    for r, f in sorted(arrays_used(W, B, kind, arrays).items()):
        L, x, least = f
        R.check(least, "P09.read", "%s array %s" % r, "%s never reads the first entry of the list of the %s record that starts at +%s" % (short(r[0]), kind, r[1]), x.a.n, L.eng)
    # single writes
    for k, ws, fs in rest:
        for L, x, cl in ws:
            if zerofill(x):
                continue
            kk = fkey(x)
            R.check(kk in UW or kk in FW, "P09.write", "%s %s +%s" % (actor(W, x.a.n), x.a.n.name, kk[0]), "%s writes %s bytes at +%s of a %s record, which is no field of it" % (short(actor(W, x.a.n)), kk[1], kk[0], kind), x.a.n, L.eng)


def fields(s):
    return ", ".join(sorted({"+%s:%s" % (a, b if b.isdigit() or b == "F(4)" else "list") for a, b in s}))


def sizefield(k, UW, FW):
    """the leading size field: the first field of both kinds of record, of any width that covers it"""
    return k[0] == "0" and any(f[0] == "0" for f in UW) and any(f[0] == "0" for f in FW) and k in UW | FW


def consistent(s, UW, kind):
    """a leaf node has no children, an empty one no keys: a shorter record is a prefix, lists are named by their start"""
    if set(s) <= UW:
        return True
    fixed = lambda q: {f for f in q if f[1].isdigit()}
    starts = lambda q: {f[0] for f in q if not f[1].isdigit()}
    return kind == "idx" and {f for f in fixed(s) if int(f[1]) < 8} == {f for f in fixed(UW) if int(f[1]) < 8} and \
        starts(s) | {f[0] for f in fixed(s) if int(f[1]) >= 8} <= starts(UW) | {f[0] for f in fixed(UW) if int(f[1]) >= 8}


def nogap(ws):
    ends, starts = [], []
    for L, x, cl in ws:
        starts.append(strip(x.rel))
        ends.append(strip(add(x.rel, x.w)))
    ok = c(0) in starts
    for L, x, cl in ws:
        s = strip(x.rel)
        if s is c(0) or x.a.n.name == "write_zero":
            continue
        if not any(e is s for e in ends):
            ok = False
    return ok


def arrs(full):
    """start -> element width, of the lists in a record"""
    out = {}
    for s, l in full.items():
        for L, x0, ws in l:
            for _, x, _ in ws:
                if "slice" in x.a.n.name:
                    out[strip(x.rel)] = 8 if "u64" in x.a.n.name else 4
    return out


def entry(x, arrays):
    """(start, index) of the list entry an access touches"""
    r = strip(x.rel)
    if x.w.op != "c":
        return None
    best = None
    for s, w in arrays.items():
        if x.w.a[0] != w:
            continue
        d = strip(sub(r, s))
        k, ps = lin_parts(d)
        if k % w or any(n % w for t, n in ps):
            continue
        # the list whose symbolic start it contains
        if any(t.op == "F" for t, n in ps):
            continue
        i = mk_lin(k // w, {t: n // w for t, n in ps})
        if best is None or len(lin_parts(s)[1]) > len(lin_parts(best[0])[1]):
            best = (s, i)
    return best


def inarray(B, L, x, arrays):
    e = entry(x, arrays)
    if e is None:
        return False
    k, ps = lin_parts(e[1])
    return all(n > 0 for t, n in ps) and (k >= 0 or mini(B, L, e[1]) is not None and mini(B, L, e[1]) >= 0)


def mini(B, L, i):
    """smallest value an index takes at the start"""
    k, ps = lin_parts(i)
    for t, n in ps:
        if t.op != "phi":
            if k < 0:
                return None
            continue
        cs = [l.a[0] for l in phi_leaves(L.eng, t) if l.op == "c"]
        if not cs:
            if k < 0:
                return None
            continue
        k += n * min(cs)
    return k


def arrays_used(W, B, kind, arrays):
    out = {}
    for L, x, cl, cs in B.places:
        if x.a.kind != kind or x.a.wr or cl in (HEAD, "const", None):
            continue
        e = entry(x, arrays)
        if e is None:
            continue
        key = (actor(W, x.a.n), show(e[0], 5))
        m = mini(B, L, e[1])
        v = out.get(key)
        out[key] = (L, x, (v[2] if v else False) or m == 0)
    return out


def slots(W, R, B):
    end = B.hend["htx"]
    n = 0
    for L, x, cl, cs in B.places:
        if x.a.kind != "htx" or cl != "slot":
            continue
        n += 1
        k, ps = lin_parts(strip(x.rel))
        ok = x.w is c(8) and all(m == 8 for t, m in ps) and len(ps) == 1
        if ok:
            t = ps[0][0]
            ok = k == end or t.op == "phi" and (k - end) % 8 == 0 and mini(B, L, add(t, c((k - end) // 8))) is not None and mini(B, L, add(t, c((k - end) // 8))) >= 0
        R.check(ok, "P09.slot", "%s %s" % (actor(W, x.a.n), x.a.n.name), "%s accesses a hash slot at %s, not at %d + 8 * slot" % (short(actor(W, x.a.n)), show(x.rel, 5), end), x.a.n, L.eng)
    R.floor("P09.slot", n, 2, "slot accesses")


def toplevel(t, adt):
    """members of the object of this type that a value is made from"""
    return {x.a[2] for x in subterms(t) if x.op == "fld" and len(x.a) > 3 and x.a[3] == adt}


def members(W, R, B):
    n = 0
    for nm in ("KeyPiece", "ValuePiece"):
        adt = W.adt(nm)
        wr, rd = {}, {}
        for L, x, cl, cs in B.places:
            if not x.a.wr or x.val is None or x.base is None or cl == HEAD:
                continue
            ms = toplevel(x.val, adt)
            if len(ms) == 1:
                wr.setdefault(next(iter(ms)), {}).setdefault(strip(x.rel), (L, x))
        for L in B.lays:
            for nd in L.eng.nodes:
                if nd.kind != "ret" or not nd.args:
                    continue
                for t in subterms(nd.args[0]):
                    if t.op == "adt" and t.a[0] == adt:
                        for i, v in enumerate(t.a[2:]):
                            for x in L.can:
                                if not x.a.wr and x.val is not None and x.base is not None and contains(v, lambda q, w=x.val: q is w):
                                    rd.setdefault(fieldname(W, adt, i), {}).setdefault(strip(x.rel), (L, x, nd))
        R.floor("P09.match", len(wr), 1, "members of %s written" % nm)
        for m, d in sorted(rd.items()):
            for rel, (L, x, nd) in d.items():
                n += 1
                others = [o for o, q in wr.items() if rel in q]
                R.check(m in others or not others and m not in wr, "P09.match", "%s.%s from +%s" % (nm, m, show(rel, 5)), "%s fills %s of %s from +%s of the record, which the writer fills from %s" % (short(actor(W, x.a.n)), m, nm, show(rel, 5), others or "nothing"), x.a.n, L.eng)
    R.floor("P09.match", n, 4, "members read")


def fieldname(W, adt, i):
    return W.p.adts[adt]["vs"][0]["f"][i]["n"]
