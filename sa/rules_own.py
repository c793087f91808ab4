"""P20 P25: borrows and thread confinement."""
from core import *
from prog import Prog
import engine
from rules_err import filedb_roots


def fx(W):
    import check
    return Prog(check.fixture(W.exe, W.work))


def memdb_roots(W):
    out = []
    for f in sorted(W.p.fns.values(), key=lambda f: f.d):
        if f.kind == "Closure" or not (f.pub or f.trait) or f.self_ty is None:
            continue
        t = f.self_ty
        while t[0] == "ref":
            t = t[2]
        if t[0] == "adt" and "::memdb::" in t[1] and f.name not in ("fmt", "clone"):
            out.append((t[1].split("::")[-1] + "::" + f.name, f, {}))
    return out


def short_ty(t):
    return t.split("::")[-1]


def P20(W, R):
    R.rule("P20.borrow", "no path takes a RefCell borrow that conflicts with one the same path still holds")
    R.rule("P20.rec", "no recursive call is made while holding a borrow that the callee takes again: same kind of object for files and maps, the very same cell for index nodes")
    R.rule("P20.pos", "the rule reports the double borrow in the positive example and stays quiet on its repaired twin")
    roots = W.public_ops() + W.inner_fn_roots() + filedb_roots(W) + memdb_roots(W)
    nb, viols, held = set(), {}, []
    takes = {}     # recursive fn -> {(content type, mode, param index|None)}
    callsrec = {}
    for label, f, sub in roots:
        isrec = f.d in W.p.rec

        def step(eng, st, n):
            if n.kind == "borrow":
                nb.add((owner(n), str(n.sp)))
                if isrec:
                    r, q = eng.locof(n.args[0])
                    x = r
                    while x.op in ("deref", "fld"):
                        x = x.a[0]
                    pi = x.a[1] if x.op == "arg" and only_own(r) else None
                    takes.setdefault(f.d, set()).add((n.x["ct"], n.name, pi))
            elif n.kind == "conflict":
                viols[(label, short(owner(n)))] = (n, eng)
            elif n.kind == "rec":
                if isrec:
                    callsrec.setdefault(f.d, set()).add(n.name)
                if st.bor:
                    held.append((label, n, eng, [(g, eng.gty.get(g, "")) for g in st.bor]))
        eng = W.run(label, f, sub, step, None, None, {"borrows": True})
    for (label, o), (n, eng) in sorted(viols.items(), key=lambda x: x[0]):
        R.bad("P20.borrow", "%s in %s" % (label, o), "%s borrows an object again that it is still using mutably: it panics" % label, n, eng)
    for x in sorted(nb):
        R.ok("P20.borrow", "%s %s" % (short(x[0]), x[1].rsplit(":", 1)[0].split("/")[-1] if False else ""))
    R.floor("P20.borrow", len(nb), 40, "borrow sites")
    # transitive borrows of the recursive functions
    reach = {}
    for d in set(takes) | set(callsrec):
        s, todo = set(), [d]
        while todo:
            x = todo.pop()
            if x not in s:
                s.add(x)
                todo += list(callsrec.get(x, ()))
        reach[d] = s
    nrec = 0
    for label, n, eng, gs in held:
        nrec += 1
        for g, ct in gs:
            mode = g.a[1]
            for e in reach.get(n.name, {n.name}):
                for ct2, m2, pi in takes.get(e, ()):
                    if ct != ct2 or (mode == "s" and m2 == "s"):
                        continue
                    if ct == W.TREE:
                        # the very same node?
                        if e != n.name or pi is None or pi >= len(n.args):
                            continue
                        a = n.args[pi]
                        if not same_cell(eng, g.a[0], a):
                            continue
                    R.bad("P20.rec", "%s calls %s holding %s" % (label, short(n.name), short_ty(ct)),
                          "%s calls %s while it holds a borrow of a %s which the callee borrows again: it panics" % (label, n.name, short_ty(ct)), n, eng)
                    break
    if not any(r == "P20.rec" and not o for r, s, o in R.obl):
        R.ok("P20.rec", "%d recursive calls under a borrow" % nrec)
    R.floor("P20.rec", nrec, 5, "recursive calls under a borrow")
    p = fx(W)
    got = {}
    for d, f in p.fns.items():
        if f.name in ("double_borrow", "single_borrow"):
            c = []
            e = engine.Engine(p, lambda a, b, c_: False, on_event=lambda en, s, n: c.append(n.kind), opts={"borrows": True})
            e.root(f.d, {}, lambda *a: None, None)
            got[f.name] = "conflict" in c
    R.check(got == {"double_borrow": True, "single_borrow": False}, "P20.pos", "positive example", "the borrow rule does not recognise its own positive example (%s)" % got)


def only_own(r):
    return not any(x.op in ("elem", "call", "sym", "as", "phi") for x in subterms(r))


def same_cell(eng, p, a):
    r, q = eng.locof(p)
    b = eng.locof(a)
    return any(x is a or x is b[0] for x in subterms(r))


def P25(W, R):
    R.rule("P25.send", "rustc's trait solver: no public handle type of the crate (a type that reaches shared mutable state) implements Send or Sync for any key type")
    R.rule("P25.cells", "the types that hold the shared state (Rc/RefCell) are reached from the public handles")
    n = 0
    for d, a in sorted(W.p.adts.items()):
        if not a["pub"] or not reaches_shared(W, d, set()):
            continue
        n += 1
        R.check(not a["may_send"], "P25.send", "%s: Send" % short(d), "%s can be sent to another thread although it reaches unsynchronised shared state" % d)
        R.check(not a["may_sync"], "P25.send", "%s: Sync" % short(d), "%s can be shared between threads although it reaches unsynchronised shared state" % d)
    for nm in ("FileDb", "FileDbMap", "DbXxxIter", "DbXxxIterMut", "DbXxxIntoIter", "MemoryDb", "MemoryDbMapDbString", "MemoryDbMapDbInt", "MemoryDbMapDbBytes"):
        d = W.adt(nm, opt=True)
        R.check(d is not None and not W.p.adts[d]["may_send"] and not W.p.adts[d]["may_sync"], "P25.send", "handle " + nm, "the handle type %s is gone or can cross threads" % nm)
        R.check(d is not None and reaches_shared(W, d, set()), "P25.cells", "handle " + nm, "the handle type %s no longer reaches shared state through Rc/RefCell: the confinement argument does not apply" % nm)
    R.floor("P25.send", n, 9, "public handle types")
    ui = [i for i in W.p.impls if str(i.get("tr", "")).split("::")[-1] in ("Send", "Sync")]
    R.rule("P25.impl", "no unsafe impl of Send or Sync in the crate")
    R.check(not ui, "P25.impl", "unsafe impl Send/Sync", "the crate declares Send/Sync by hand: %s" % ui[:2])
    p = fx(W)
    a = {d.split("::")[-1]: x for d, x in p.adts.items()}
    R.rule("P25.pos", "the trait query answers yes for the positive example and no for its twin")
    R.check(a["Handle"]["may_send"] and not a["LocalHandle"]["may_send"], "P25.pos", "positive example", "the Send/Sync query does not recognise its own positive example")
    compile_witness(W, R)


def reaches_shared(W, d, seen):
    if d in seen or d not in W.p.adts:
        return False
    seen.add(d)
    def ty(t):
        if t[0] == "adt":
            if t[1].endswith("::Rc") or t[1].endswith("::RefCell") or t[1].endswith("::Cell") or t[1].endswith("UnsafeCell") or t[1].endswith("rc::Weak"):
                return True
            return reaches_shared(W, t[1], seen) or any(ty(x) for x in t[2] if isinstance(x, tuple))
        if t[0] in ("ref", "ptr"):
            return ty(t[2])
        return False
    return any(ty(W.p.ty(f["t"])) for v in W.p.adts[d]["vs"] for f in v["f"])


WITNESS = '''
%s
fn need_send<T: Send>(_: T) {}
fn need_any<T>(_: T) {}
pub fn w(h: %s) { %s(h) }
'''


def compile_witness(W, R):
    """a program that moves a handle to another thread must not build; its twin must"""
    import json, os, shutil, subprocess, tempfile
    R.rule("P25.witness", "a crate that requires Send of a public handle fails to build with E0277, while the twin that differs only in that bound builds")
    import check
    base = os.path.join(W.work, "wit-" + W.config)
    os.makedirs(os.path.join(base, "src"), exist_ok=True)
    with open(os.path.join(base, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "wit"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\nsiamesedb = { path = "%s" }\n[workspace]\n' % W.repo)
    lock = os.path.join(W.repo, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(base, "Cargo.lock"))
    types = ["siamesedb::filedb::FileDb", "siamesedb::filedb::FileDbMapDbString", "siamesedb::filedb::FileDbMapDbInt", "siamesedb::filedb::FileDbMapDbBytes", "siamesedb::memdb::MemoryDb"]
    for t in types:
        res = []
        for fn in ("need_any", "need_send"):
            with open(os.path.join(base, "src", "lib.rs"), "w") as f:
                f.write(WITNESS % ("", t, fn))
            r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--message-format=json", "--manifest-path", os.path.join(base, "Cargo.toml"), "--target-dir", os.path.join(base, "t")],
                               capture_output=True, text=True)
            codes = set()
            for ln in r.stdout.splitlines():
                if ln.startswith("{"):
                    m = json.loads(ln)
                    if m.get("reason") == "compiler-message" and m["message"].get("level") == "error" and m["message"].get("code"):
                        codes.add(m["message"]["code"]["code"])
            res.append((r.returncode == 0, codes))
        R.check(res[0][0], "P25.witness", "twin for " + t, "the compiling twin for %s does not build: the witness says nothing (%s)" % (t, sorted(res[0][1])))
        R.check(not res[1][0] and res[1][1] == {"E0277"}, "P25.witness", "witness for " + t, "a program that sends %s to another thread builds" % t)
