"""P23: a database file is shortened only to where the failing operation itself had begun to append."""
from core import *
from models import file_id, default_of, phi_leaves
import layout
from prog import Prog
from terms import *
from layout import strip, uncast
from rules_lists import drop, is_zero, fact, ZER, eqz, reaches, rounders, file_tables, Pieces, value, number
from rules_rec import roles, Rec, inner_roots, call_of, content
from rules_err import filedb_roots

END = "end"


class Cuts(object):
    """the changes of file lengths of one root: end(kind, x): x was the end of that file when it was told"""

    def __init__(self, W, lab, fn, sub=None):
        self.W, self.lab = W, lab
        self.roles = roles(W)
        self.res, self.opens = [], []
        self.places = set()
        o = {"hook": {d: self.hook for d in self.roles}, "relfacts": {END: None, "eqz": None}, "learn": self.learn}
        self.eng = layout.run(W, lab, fn, sub or {}, o, self.step, frozenset())

    def hook(self, eng, st, ctx, site, f, sub, args, t):
        kind = file_id(eng, st, ctx, args[0])[1] or "?"
        s2 = st.fork()
        layout.put2(st, kind, None, None)
        layout.put2(s2, kind, None, None)
        er = eng.fresh(s2, ctx, site, "listerr")
        if self.roles[f.d][0] == "free":
            return [(ok(UNIT), st), (err(er), s2)]
        v = eng.fresh(st, ctx, site, "place")
        self.places.add(v)
        ty = Prog.sub(f.lty[0], sub)[2][0]
        if ty[0] == "adt" and ty[1] in self.W.p.adts:
            fl = self.W.p.adts[ty[1]]["vs"][0]["f"]
            w = mk("adt", ty[1], 0, v, *[default_of(self.W.p.ty(x["t"])) for x in fl[1:]])
        else:
            w = v
        return [(ok(w), st), (err(er), s2)]

    def learn(self, eng, st, t, v):
        """keep the ways where a place was found on a list apart from those where none was"""
        for x in self.places:
            if contains(t, lambda y: y is x):
                st.trk = (frozenset(st.trk[0] | {(t.id, bool(v))}),) + st.trk[1:]

    def step(self, eng, st, n):
        if n.kind == "ok" and n.name == "seek" and n.args[0].op == "adt" and n.args[0].a[1] == 1 and n.args[0].a[2] is ZER:
            st.facts[mk(END, n.file and n.file[1] or "?", n.res)] = 1
        if n.kind == "io" and n.name == "set_len":
            kind = n.file and n.file[1] or "?"
            x = strip(uncast(n.args[0]))
            own = fact(eng, st.facts, mk(END, kind, x))
            empty = any(v == 1 and k.op == END and k.a[0] == kind and is_zero(st.facts, k.a[1]) for k, v in st.facts.items())
            self.res.append((n, own, empty, x))
        elif n.kind == "io" and n.name in ("open", "create", "create_new") and n.args:
            v = eng.pv(st, n.args[0])
            v = eng.load(st, v) if v.op == "ref" else v
            if v.op == "oo":
                m = dict(v.a)
                self.opens.append((n, m.get("truncate", FALSE) is FALSE, "opens a database file with truncation"))
            else:
                self.opens.append((n, n.name != "create", "creates a database file over what is there"))


def P23(W, R):
    R.rule("P23.length", "the length of a database file is set only to what was its end when the same operation looked for it, or while the file was found empty")
    R.rule("P23.open", "no database file is opened with truncation, created over an existing one, removed or replaced")
    seen = set()
    n = 0
    runs = []
    sites = {f.d for f in W.p.fns.values() if any(d.split("::")[-1] in ("set_len", "open", "create") and d.split("::")[0] in ("rabuf", "std") for d in calls(f))}
    for lab, f in layout.file_roots(W):
        if not reaches(W, f, sites):
            continue
        L = Cuts(W, lab, f)
        runs.append(L)
        for nd, own, empty, x in L.res:
            n += 1
            seen.add(owner(nd))
            R.check(own or empty and x.op == "c", "P23.length", "%s %s" % (short(owner(nd)), caller(nd)),
                    "%s: the length of the file is set to %s, which is not where this operation began to append" % (caller(nd), show(x, 4)), nd, L.eng)
    R.floor("P23.length", n, 3, "places where a file length is set")
    # every function that sets a length was met
    missed = []
    for f in W.p.fns.values():
        for d in calls(f):
            if d.split("::")[-1] == "set_len" and d.split("::")[0] in ("rabuf", "std") and f.d not in seen:
                missed.append(f.d)
    R.check(not missed, "P23.length", "all sites met", "file lengths are set in functions no operation was seen to reach: %s" % missed)
    cnt = 0
    for L in runs:
        for nd, good, text in L.opens:
            cnt += 1
            R.check(good, "P23.open", short(owner(nd)), "%s %s" % (short(owner(nd)), text), nd, L.eng)
    R.floor("P23.open", cnt, 3, "places where a database file is opened")
    other = [(f.d, d) for f in W.p.fns.values() for d in calls(f) if d.startswith("std::fs::") and d.split("::")[-1] in FORBID and "OpenOptions" not in d and "{impl" not in d]
    R.check(not other, "P23.open", "other file operations", "files are replaced or removed: %s" % other)


FORBID = ("remove_file", "remove_dir_all", "rename", "write", "copy", "create")


def calls(f):
    out = []
    for b in f.bbs:
        t = b["t"]
        if not b.get("cl") and t["k"] == "call" and t["f"].get("k") == "fn":
            out.append(t["f"]["d"])
    return out


def caller(n):
    """the innermost function of the library's record level above a file access"""
    st = [d for d, s in n.ctx.stack()]
    for d in reversed(st) if st and st[0] != owner(n) else st:
        if "::vfile::" not in d and short(d) != short(owner(n)):
            return short(d)
    return short(owner(n))


# ---------------------------------------------------------------------------------------------------------------- P22
TOP = (1 << 32) - 1


def wide(t):
    """t without the casts that keep every length"""
    while t.op == "cast" and t.a[0] in (64, 128):
        t = t.a[1]
    return t


def bounds(facts, which):
    """the greatest length that is possible: {"key" | "value": bound}"""
    out = {}

    def le(x, b):
        if b is None:
            return
        x = wide(x)
        if x.op == "call" and x.a[0] == "max":
            for y in x.a[1:]:
                le(y, b)
            return
        k, ps = lin_parts(x)
        if len(ps) == 1 and ps[0][1] > 0:
            w = which(wide(ps[0][0]))
            if w:
                b = (b - k) // ps[0][1]
                out[w] = min(out.get(w, b), b)

    def most(x):
        x = wide(x)
        return x.a[0] if x.op == "c" else out.get(which(x))
    for _ in range(3):
        for k, v in facts.items():
            if k.op == "op" and k.a[0] == "Lt":
                if v == 0:
                    le(k.a[2], most(k.a[1]))
                else:
                    b = most(k.a[2])
                    le(k.a[1], b - 1 if b is not None else None)
            elif k.op == "discr" and v == 0 and k.a[0].op == "call" and str(k.a[0].a[0]).split("::")[-1] in ("try_from", "try_into") and len(k.a[0].a) == 2:
                le(k.a[0].a[1], TOP)
    return out


class Guard(object):
    """what is known about the lengths of the key and the value where a put operation changes something"""

    def __init__(self, W, lab, f, sinks):
        self.res, self.refused, self.late = [], 0, []
        self.args = [None, None]

        def step(eng, st, n):
            wr = n.kind == "io" and is_write(n.name) or n.kind == "rec" or n.kind == "call" and n.x["fn"].d in sinks
            if not wr:
                return
            st.trk = "W"
            self.eng = eng
            b = bounds(st.facts, self.which)
            for what in ("key", "value"):
                self.res.append((n, what, b.get(what)))
        self.eng = None
        self.eng = W.run(lab, f, {}, step, "", None, {"callev": lambda g: g.d in sinks, "learn": self.learn})
        for r, st in self.eng.exits:
            if st.trk == "over":
                if r.op == "adt" and r.a[0] == RESULT and r.a[1] == 1:
                    self.refused += 1
                else:
                    self.late.append(r)

    def learn(self, eng, st, t, v):
        """keep the ways on which a length was found too great apart"""
        self.eng = eng
        if t.op == "op" and t.a[0] == "Lt" and st.trk == "" and (self.about(t.a[1]) or self.about(t.a[2])) and not bounds({t: int(v)}, self.which) and \
                any(uncast(x).op == "c" and uncast(x).a[0] >= 1 << 28 for x in t.a[1:]):
            st.trk = "over"

    def about(self, x):
        return any(self.which(y) for y in subterms(x))

    def which(self, x):
        eng = self.eng
        if x.op != "len":
            return None
        y = content(x.a[0])
        for i, (a, t) in enumerate(zip(eng.args, eng.argty)):
            if i and t[0] == "ref":
                if t[2][0] == "slice" and y is content(a):
                    return "value"
                q = call_of(y, "as_bytes")
                if t[2][0] != "slice" and q and content(q[0]) is content(a):
                    return "key"
        return None


def sizes_asked(W, f, rnd):
    """[(constant, kind of length)] of the sizes that a record-writing function asks room for"""
    out = []

    def step(eng, st, n):
        if n.kind == "call" and n.x["fn"].d in rnd:
            k, ps = lin_parts(number_all(n.args[-1]))
            out.append((n, k, ps, eng))
    W.run(f.name, f, {}, step, 0, None, {"callev": lambda g: g.d in rnd})
    return out


def number_all(t):
    """a size with the wrappings and width changes on the way taken off"""
    t = number(t)
    for _ in range(6):
        u = uncast(number(t))
        k, ps = lin_parts(u)
        m = {x: uncast(number(x)) for x, _ in ps if uncast(number(x)) is not x}
        v = subst(u, m, {}) if m else u
        if v is t:
            break
        t = v
    return t


def P22(W, R):
    R.rule("P22.guard", "before put changes anything, the lengths of the key and of the value are known to be below a limit")
    R.rule("P22.refuse", "a length above the limit makes put return an error with nothing changed")
    R.rule("P22.fits", "at that limit, the size of the record and its rounding up fit in 32 bits")
    R.rule("P22.only", "records of keys and values are written only on behalf of a guarded put")
    rnd = rounders(W)
    sinks = {}
    for nm in ("KeyFile", "ValueFile"):
        for f in W.methods(W.adt(nm)).values():
            if reaches(W, f, rnd):
                sinks[f.d] = nm
    R.floor("P22.fits", len(sinks), 3, "functions that write key or value records")
    roots = [(lab, f) for lab, f in inner_roots(W) if f.trait is not None and reaches(W, f, set(sinks))]
    limit = {}
    n = 0
    for lab, f in roots:
        G = Guard(W, lab, f, set(sinks))
        for nd, what, b in G.res:
            n += 1
            if R.check(b is not None, "P22.guard", "%s %s %s %s" % (short(f.d), what, nd.kind, nd.name), "%s can change something (%s) without the length of the %s having been checked" % (short(f.d), nd.name, what), nd, G.eng):
                limit[what] = max(limit.get(what, 0), b)
        R.check(not G.late, "P22.refuse", short(f.d) + " result", "%s can answer success for a length above the limit" % short(f.d), None, G.eng)
        R.check(G.refused > 0, "P22.refuse", short(f.d), "%s has no way that refuses a length" % short(f.d), None, G.eng)
    R.floor("P22.guard", n, 4, "changes made by put")
    R.floor("P22.guard", len(roots), 1, "put operations")
    # who else writes records
    inner = {f.d for f in W.methods(W.INNER, "*").values()} | {f.d for f in W.p.fns.values() if f.self_ty and f.self_ty[0] == "adt" and f.self_ty[1] == W.INNER}
    users = set(sinks)
    todo = list(users)
    while todo:
        d = todo.pop()
        for g in W.p.fns:
            if g not in users and d in W.p.cg.get(g, ()):
                if g in {f.d for lab, f in roots}:
                    R.ok("P22.only", short(g))
                    continue
                users.add(g)
                todo.append(g)
                fn = W.p.fns[g]
                R.check(not (fn.pub and g not in inner and not isfile(W, fn)) and not (fn.trait and g not in inner), "P22.only", short(g), "%s writes records of keys or values without a guarded put" % short(g))
    R.floor("P22.only", len(users), 4, "functions that write records on behalf of put")
    # the sizes
    m = 0
    file_tables(W)
    for d, nm in sorted(sinks.items()):
        what = "key" if nm == "KeyFile" else "value"
        pms = [W._fpm[lab] for lab in W._fpm if lab.startswith(nm)]
        for nd, k, ps, eng in sizes_asked(W, W.p.fns[d], rnd):
            m += 1
            key = "%s %s" % (short(d), short(nd.x["fn"].d))
            good = len(ps) == 1 and ps[0][1] == 1 and ps[0][0].op == "len" and what in limit
            if not R.check(good, "P22.fits", key + " size", "%s asks room for %s bytes, which is not a constant more than the length of the %s" % (short(d), show(nd.args[-1], 5), what), nd, eng):
                continue
            s = limit[what] + k
            bad = s > TOP
            for pm in pms:
                P = Pieces(W, nd.x["fn"], pm)
                at = P.at(min(s, TOP))
                bad = bad or not at or any(v is None or not min(s, TOP) <= v <= TOP for v in at)
                for lo, hi, v, nn, facts in P.pieces:
                    if lo <= s <= hi and v is not None:
                        for x in subterms(v):
                            y = value(x, P.isize, s)
                            bad = bad or y is not None and not 0 <= y <= TOP
            R.check(bool(pms) and not bad, "P22.fits", key, "a %s of the greatest accepted length (%d) makes %s round up a record size that does not fit in 32 bits" % (what, limit[what], short(d)), nd, eng)
    R.floor("P22.fits", m, 2, "sizes asked for")


def isfile(W, fn):
    return fn.self_ty is not None and fn.self_ty[0] == "adt" and "::inner::" in fn.self_ty[1]
