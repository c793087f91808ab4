#!/usr/bin/env python3
"""Run one property check.

  check.py <PID> [--tier quick|thorough] [--dump FILE]   decide one property on /repo's current tree
  check.py --setup                                        build the MIR dump driver

Exit 0: the property's rules hold on everything analysed.  Exit 1: a VIOLATION line was printed."""
import fcntl, glob, importlib, json, os, shutil, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
DRIVER = os.path.join(VERIF, "driver")
EVID = os.path.join(VERIF, "evidence")

# feature sets; the first one is what `cargo build` makes
CONFIGS = {
    "default": [],
    "lru": ["--features", "nc_lru"],
    "lfu": ["--features", "nc_lfu"],
    "large": ["--features", "nc_large"],
    "small": ["--features", "small_node_slots"],
    "node32": ["--no-default-features", "--features", "vf_u64u64,node_cache,buf_default,vf_node_u32,idx_straight,idx_find_uu,htx"],
    "nostraight": ["--no-default-features", "--features", "vf_u64u64,node_cache,buf_default,vf_node_u64,htx"],
    "nocache": ["--no-default-features", "--features", "vf_u64u64,buf_default,vf_node_u64,idx_straight,idx_find_uu,htx"],
    "nohtx": ["--no-default-features", "--features", "vf_u64u64,node_cache,buf_default,vf_node_u64,idx_straight,idx_find_uu"],
    "vu64": ["--no-default-features", "--features", "vf_vu64,node_cache,buf_default,htx"],
}


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def build_driver():
    exe = os.path.join(DRIVER, "target", "debug", "mirdump")
    os.makedirs(os.path.join(DRIVER, "target"), exist_ok=True)
    with open(os.path.join(DRIVER, "target", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=DRIVER, capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(exe):
            raise RuntimeError("driver does not build: " + r.stderr[-1500:])
    return exe


def dump(exe, config, work):
    """MIR of the crate as cargo builds it from the current tree"""
    out = os.path.join(work, config + ".json")
    env = dict(os.environ)
    env.update(MIRDUMP_CRATE="siamesedb", MIRDUMP_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=exe)
    env.pop("RUSTFLAGS", None)
    cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "-p", "siamesedb", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
           "--target-dir", os.path.join(work, "target-" + config)] + CONFIGS[config]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("the crate does not compile in configuration %s: %s" % (config, r.stderr[-1500:]))
    return out


def fixture(exe, work):
    """MIR of the positive examples in /verif/fixture"""
    out = os.path.join(work, "fixture.json")
    if os.path.exists(out):
        return out
    env = dict(os.environ)
    env.update(MIRDUMP_CRATE="fx", MIRDUMP_OUT=out, LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), RUSTC_WORKSPACE_WRAPPER=exe)
    cmd = ["cargo", "+nightly", "check", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "fixture", "Cargo.toml"), "--target-dir", os.path.join(work, "target-fx")]
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError("the positive examples do not compile: " + r.stderr[-1000:])
    return out


def known(pid):
    """keys of the listed findings of this property"""
    out = {}
    try:
        for ln in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                k = ln.split("key=", 1)[1]
                k, _, txt = k.partition(" :: ")
                out[k] = txt
    except IOError:
        pass
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_driver()
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    t0 = time.time()
    from core import Report
    from world import World
    import registry
    spec = registry.PROPS[pid]
    R = Report(pid)
    work = tempfile.mkdtemp(prefix="sa-%s-" % pid)
    worlds = []
    cfgs = ["default"] + [c for c in spec.get("configs", ()) if tier == "thorough"]
    try:
        exe = build_driver()
        for c in cfgs:
            R.config = c
            path = a[a.index("--dump") + 1] if "--dump" in a else dump(exe, c, work)
            W = World(path, c)
            W.repo = REPO
            W.tier = tier
            W.work = work
            W.exe = exe
            worlds.append(W)
            getattr(importlib.import_module(spec["module"]), pid)(W, R)
    except Exception as e:
        tb = traceback.format_exc()
        R.bad("%s.analysis" % pid, "%s" % type(e).__name__, "the analysis could not establish the property: %s" % (str(e) or tb.splitlines()[-1]))
        sys.stderr.write(tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    kn = known(pid)
    viol = []
    for k, v in sorted(R.viol.items()):
        if k in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[k] or v["message"]))
        else:
            viol.append(v)
    os.makedirs(EVID, exist_ok=True)
    per = {}
    for r, s, good in R.obl:
        d = per.setdefault(r, {"rule": R.rules.get(r, "instance-count floor" if r.endswith(".floor") else ""), "obligations": 0, "discharged": 0, "subjects": set()})
        d["obligations"] += 1
        d["discharged"] += 1 if good else 0
        d["subjects"].add(s)
    for d in per.values():
        s = sorted(d.pop("subjects"))
        d["distinct_subjects"] = len(s)
        d["subject_list"] = s[:60]
    stats = {}
    for W in worlds:
        stats[W.config] = {"functions_in_crate": len(W.p.fns), "functions_analysed": len(W.stats["functions"]), "analysis_roots": W.stats["roots"],
                           "events_on_paths": W.stats["events"], "file_io_call_sites": len(W.stats["io_sites"])}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": spec["explanation"],
              "obligations": len(R.obl), "discharged": sum(1 for o in R.obl if o[2]),
              "analysed": stats, "rules": per, "configurations": cfgs,
              "known_findings_seen": sorted(k for k in R.viol if k in kn)},
          "assumptions": spec.get("assumptions", []) + registry.COMMON,
          "violations": len(viol), "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(EVID, "violation-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1)
        for v in viol[:12]:
            print("%s\n   at %s%s" % (v["message"], v.get("at", "(crate)"), ("\n   reached from " + v["root"]) if "root" in v else ""))
            print("   rule %s" % v["key"])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations discharged, %s" % (pid, len(R.obl), json.dumps(stats)))
    return 0


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 1)
