"""The program under analysis seen through its roles: public operations, files, map object."""
import os
from terms import *
from prog import Prog
import engine

KINDS = ("val", "key", "idx", "htx")
WRITE_IO = ("write", "write_all", "write_all_small", "write_u8", "write_u16_le", "write_u32_le", "write_u64_le",
            "write_u64_le_slice", "write_u64_le_slice2", "write_zero", "set_len", "write_fmt", "write_vectored")
SYNC_IO = ("sync_all", "sync_data")


def is_write(name):
    return name in WRITE_IO or name.startswith("write") or name == "set_len"


def is_read(name):
    return name.startswith("read") or name in ("bytes",)


class Anchor(Exception):
    """a construct the rule is about is missing"""


def std_opaque(d, tr, a):
    return tr is not None and (tr.endswith("::DbMapKeyType") or tr.endswith("::HashValue"))


class World(object):
    def __init__(self, path, config="default"):
        self.p = Prog(path)
        self.config = config
        self.analysed = set()
        self.stats = {"functions": set(), "events": 0, "roots": 0, "io_sites": set()}
        self.FM = self.adt("FileDbMap")
        self.INNER = self.adt("FileDbXxxInner")
        self.NC = self.adt("NodeCache", opt=True)
        self.VNC = self.adt("VarFileNodeCache")
        self.NODE = self.adt("IdxNode")
        self.TREE = self.adt("TreeNode")
        a = self.p.adts[self.INNER]["vs"][0]["f"]
        self.inner_fields = [f["n"] for f in a]
        bools = [(i, f["n"]) for i, f in enumerate(a) if f["t"].get("s") == "bool"]
        if len(bools) != 1:
            raise Anchor("expected one dirty flag in FileDbXxxInner, found %s" % bools)
        self.dirty = ("f", bools[0][0], self.INNER, bools[0][1])
        self.has_htx = any(f["n"] == "htx_file" for f in a)
        self.kinds = KINDS if self.has_htx else KINDS[:3]

    def adt(self, name, opt=False):
        c = [d for d in self.p.adts if d.split("::")[-1] == name]
        if len(c) != 1:
            if opt and not c:
                return None
            raise Anchor("type %s not found (%s)" % (name, c))
        return c[0]

    # ------------------------------------------------------------ functions
    def methods(self, adt, trait=None):
        """methods with Self = adt (or a reference to it); trait None = inherent, '*' = any"""
        out = {}
        for d, f in self.p.fns.items():
            if f.kind == "Closure" or f.self_ty is None:
                continue
            t = f.self_ty
            while t[0] == "ref":
                t = t[2]
            if t[0] != "adt" or t[1] != adt:
                continue
            if trait == "*" or (trait is None and f.trait is None) or (trait and f.trait and f.trait.split("::")[-1] == trait):
                out.setdefault(f.name, f)
        return out

    def method(self, adt, trait, name):
        m = self.methods(adt, trait)
        if name not in m:
            raise Anchor("method %s of %s (%s) not found" % (name, adt, trait))
        return m[name]

    def trait_defaults(self, trait):
        return {f.name: f for f in self.p.fns.values() if f.intrait and f.kind != "Closure" and f.intrait.split("::")[-1] == trait}

    def rec_fns(self):
        """recursive functions that take the map object"""
        return [d for d in self.p.rec]

    KT = ("param", "KT")

    def fm_ty(self):
        return ("adt", self.FM, (self.KT,))

    def public_ops(self, base=True, safe=True, dbxxx=True, check=True, iters=True):
        """[(label, fn, subst)] : every public entry point of a file map"""
        out = []
        for f in sorted(self.p.fns.values(), key=lambda f: f.d):
            if f.kind == "Closure" or f.self_ty is None:
                continue
            t = f.self_ty
            ref = False
            while t[0] == "ref":
                t = t[2]
                ref = True
            if t[0] != "adt" or t[1] != self.FM:
                continue
            tr = f.trait.split("::")[-1] if f.trait else None
            if tr in ("Debug", "Clone"):
                continue
            if tr is None and not f.pub:
                continue
            if (tr == "DbXxxBase" and not base) or (tr == "DbXxxObjectSafe" and not safe) or (tr == "CheckFileDbMap" and not check) or (tr in ("DbMap", "IntoIterator") and not iters):
                continue
            out.append(("FileDbMap::" + f.name + ("[ref]" if ref else ""), f, {}))
        if dbxxx:
            for nm, f in sorted(self.trait_defaults("DbXxx").items()):
                sub = {}
                for g in f.gen:
                    if g == "Self":
                        sub[g] = self.fm_ty()
                out.append(("DbXxx::" + nm, f, sub))
        if iters:
            for f in sorted(self.p.fns.values(), key=lambda f: f.d):
                if f.trait and f.trait.endswith("::Iterator") and f.name == "next" and f.self_ty and f.self_ty[0] == "adt":
                    out.append((f.self_ty[1].split("::")[-1] + "::next", f, {}))
        return out

    def inner_fn_roots(self):
        """recursive functions (analysed as roots of their own)"""
        return [(self.p.fns[d].name, self.p.fns[d], {}) for d in sorted(self.p.rec) if self.p.fns[d].kind != "Closure"]

    # ------------------------------------------------------------ locations
    def inner_of(self, eng, st, v, ty, depth=0):
        """pointer to the FileDbXxxInner reachable from a value v of type ty, or None"""
        if depth > 6:
            return None
        k = ty[0]
        if k in ("ref", "ptr"):
            if ty[2][0] == "adt" and ty[2][1] == self.INNER:
                return v
            return self.inner_of(eng, st, eng.load(st, v), ty[2], depth + 1)
        if k == "adt":
            d = ty[1]
            n = d.split("::")[-1]
            if n == "Rc":
                t = ty[2][0]
                if t[0] == "adt" and t[1].split("::")[-1] == "RefCell":
                    t = t[2][0]
                if t[0] == "adt" and t[1] == self.INNER:
                    return v
                return None
            if d in self.p.adts and not self.p.adts[d]["enum"]:
                for i, f in enumerate(self.p.adts[d]["vs"][0]["f"]):
                    ft = self.p.ty(f["t"])
                    r = self.inner_of(eng, st, eng.proj(v, ("f", i, d, f["n"])), ft, depth + 1)
                    if r is not None:
                        return r
        return None

    def dirty_at(self, eng, st, ptr):
        r, q = eng.locof(ptr)
        return eng.get(st, r, q + (self.dirty,))

    # ------------------------------------------------------------ running
    def run(self, label, fn, sub, step=None, init=None, setup=None, opts=None, opaque=None, args=None):
        """typestate run: step(eng, st, node) may update st.trk and call eng.report"""
        o = dict(opts or {})
        if label.startswith("DbXxx::") and not o.get("nocut"):
            # the single operations behind these are roots of their own
            o.setdefault("cut", lambda f: f.trait is not None and f.trait.endswith("::DbXxxObjectSafe"))
        if init is not None or step is not None:
            o.setdefault("track", lambda e, s: s.trk)
        eng = engine.Engine(self.p, opaque or std_opaque, on_event=step, opts=o)
        eng.W = self
        eng.label = label

        def su(e, st, av):
            st.trk = init
            e.args = av
            e.argty = [Prog.sub(fn.lty[i + 1], sub) for i in range(fn.argc)]
            e.inner = None
            for v, t in zip(av, e.argty):
                r = self.inner_of(e, st, v, t)
                if r is not None:
                    e.inner = r
                    break
            if setup:
                setup(e, st, av)
        eng.exits = eng.root(fn.d, sub, su, args)
        self.stats["functions"] |= eng.fn_seen
        self.stats["events"] += len(eng.nodes)
        self.stats["roots"] += 1
        for n in eng.nodes:
            if n.kind == "io":
                self.stats["io_sites"].add((n.ctx.fn.d, n.name, n.sp))
        return eng


def path_to(eng, n, maxlen=400):
    """a shortest event path from the entry to node n"""
    from collections import deque
    prev = {eng.entry.id: None}
    dq = deque([eng.entry.id])
    while dq:
        x = dq.popleft()
        if x == n.id:
            break
        for y in eng.nodes[x].succ:
            if y not in prev:
                prev[y] = x
                dq.append(y)
    if n.id not in prev:
        return [n]
    o = []
    x = n.id
    while x is not None:
        o.append(eng.nodes[x])
        x = prev[x]
    return o[::-1]


def where(n):
    return "%s in %s" % (n.sp, n.ctx.fn.d)
