#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and run the checks.

  check.py setup                      build everything once
  check.py run PROP [--tier quick|thorough] [--seed N] [--runs N] [--time S]
  check.py replay FILE                re-execute a replay file (exit 1: reproduced identically)
  check.py all [--tier T]             every property, one after another
"""
import sys, os, re, json, hashlib, subprocess, shutil, time, fcntl, glob, contextlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import ycheck
REPO = os.environ.get("OPK_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
LIBC = "algebra utils lcg gqtpar lnsrch linalg nlcg fmin vmlmb fltvector dblvector driver bobyqa cobyla newuoa".split()
CF = "-O1 -g -w -ftrivial-auto-var-init=pattern -fno-pic -fno-common -ffp-contract=off -fno-strict-aliasing".split()


def read(fn):
    with open(fn, "rb") as f:
        return f.read()


def sources():
    s = os.path.join(REPO, "src")
    return sorted(f for f in glob.glob(s + "/*.[ch]"))


def key(files, extra=""):
    h = hashlib.sha1(extra.encode())
    for f in files:
        h.update(os.path.basename(f).encode() + b"\0" + read(f) + b"\0")
    return h.hexdigest()[:16]


def run_all(cmds):
    """cmds: list of argv; run 8 at a time; returns first failure text or None."""
    pend, live, err = list(cmds), [], None
    while pend or live:
        while pend and len(live) < 8:
            live.append(subprocess.Popen(pend.pop(0), stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        p = live.pop(0)
        out, _ = p.communicate()
        if p.returncode and err is None:
            err = " ".join(p.args) + "\n" + out.decode(errors="replace")
            pend = []
    return err


@contextlib.contextmanager
def locked():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        yield


def build():
    with locked():
        return build_locked()


def build_locked():
    src = os.path.join(REPO, "src")
    hdr = sorted(glob.glob(src + "/*.h"))
    simh = sorted(glob.glob(SIM + "/*.h"))
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    hk = key(hdr)
    # the library: every .c includes others, so one key for all of it
    lk = key(sources(), " ".join(CF))
    lib = os.path.join(obj, "lib-" + lk + ".o")
    cmds, want = [], []
    if not os.path.exists(lib):
        d = os.path.join(obj, "lib-" + lk + ".d")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for m in LIBC:
            cmds.append(["gcc", *CF, "-I" + src, "-c", os.path.join(src, m + ".c"), "-o", os.path.join(d, m + ".o")])
    simobjs = []
    for f in sorted(glob.glob(SIM + "/*.cc")):
        k = key([f] + simh, hk)
        o = os.path.join(obj, os.path.basename(f)[:-3] + "-" + k + ".o")
        simobjs.append(o)
        if not os.path.exists(o):
            cmds.append(["g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-pic", "-ffp-contract=off", "-fno-strict-aliasing", "-I" + src, "-I" + SIM, "-c", f, "-o", o + ".tmp"])
            want.append(o)
    err = run_all(cmds)
    if err:
        print(err)
        sys.exit(2)
    for o in want:
        os.rename(o + ".tmp", o)
    if not os.path.exists(lib):
        d = os.path.join(obj, "lib-" + lk + ".d")
        err = run_all([["ld", "-r", "-o", d + "/all.o"] + [os.path.join(d, m + ".o") for m in LIBC]])
        err = err or run_all([["objcopy", "--rename-section", ".data=libdata", "--rename-section", ".bss=libbss,alloc,load,data,contents", d + "/all.o", d + "/all2.o"]])
        if err:
            print(err)
            sys.exit(2)
        os.rename(d + "/all2.o", lib)
        shutil.rmtree(d, ignore_errors=True)
    exe = os.path.join(BUILD, "simrun-" + key([lib] + simobjs))
    if not os.path.exists(exe):
        wraps = ["-Wl,--wrap=" + w for w in ("malloc", "calloc", "realloc", "free", "abort")]
        err = run_all([["g++", "-no-pie", *wraps, "-o", exe + ".tmp", *simobjs, lib, "-lm"]])
        if err:
            print(err)
            sys.exit(2)
        os.rename(exe + ".tmp", exe)
    # keep the cache small
    keep = set(simobjs + [lib, exe])
    olds = [f for f in glob.glob(obj + "/*.o") + glob.glob(BUILD + "/simrun-*") if f not in keep]
    olds.sort(key=os.path.getmtime)
    for f in olds[:-40]:
        try:
            os.remove(f)
        except OSError:
            pass
    return exe


def known_findings(prop):
    """[(oracle, description)] recorded for this property."""
    res = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"finding: property=(\S+) oracle=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def run_prop(prop, tier, seed, runs=None, tmax=None, quietly=False):
    if prop in ycheck.RULES:
        return ycheck.run(sys.modules[__name__], prop, tier, seed, runs, tmax)
    t0 = time.time()
    exe = build()
    tb = time.time() - t0
    out = os.path.join(VERIF, "replays")
    os.makedirs(out, exist_ok=True)
    kf = known_findings(prop)
    cmd = [exe, "check", "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--known", ",".join(o for o, _ in kf)]
    if runs is not None:
        cmd += ["--runs", str(runs)]
    if tmax is None:
        tmax = 60 if tier == "quick" else 600
    cmd += ["--time", str(tmax), "--shrink", "15" if tier == "quick" else "60"]
    summ = os.path.join(out, prop + ".summary.json")
    if os.path.exists(summ):
        os.remove(summ)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout, end="")
    if not os.path.exists(summ):
        print("the simulator ended with status %d and no summary" % r.returncode)
        return 3
    s = json.load(open(summ))
    for o, d in kf:
        print("KNOWN-FINDING: property=%s %s (oracle %s, seen in %d runs)" % (prop, d, o, s["counters"].get("known:" + o, 0)))
    hours = max(s["search_s"], 1e-3) / 3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(s["runs"]),
            "distinct_nontrivial": int(s["distinct_traces"]),
            "rule": s["rule"],
            "samples": s["samples"],
            "requested_runs": s["requested_runs"],
            "nontrivial_runs": s["nontrivial_runs"],
            "distinct_state_paths": s["distinct_state_paths"],
            "runs_per_hour": round(s["runs"] / hours),
            "seeds_per_hour": round(s["runs"] / hours),
            "simulated_seconds": s["simulated_seconds"],
            "faults_injected": s["faults"],
            "runs_reaching_probe": s["probes"],
            "counters": s["counters"],
            "repeated_runs": s["repeated_runs"],
            "repeated_runs_that_differed": s["repeated_runs_that_differed"],
            "workers": s["workers"],
            "components_real": s["real"],
            "components_stub": s["stub"],
            "build_s": round(tb, 2),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["one simulated run is fully determined by its seed (checked by re-executing 1 run in 61)",
                        "x86-64 SSE2 arithmetic, gcc -O1 -ffp-contract=off build of /repo/src"],
        "violations": 1 if s["violation"] else 0,
        "violation": s["violation"] or "",
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if r.returncode == 0:
        print("OK property=%s runs=%d distinct=%d faults=%d wall=%.1fs" % (prop, s["runs"], s["distinct_traces"], sum(s["faults"].values()), time.time() - t0))
    return r.returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    cmd = a.pop(0)
    opt = {"tier": os.environ.get("VERIF_TIER", "quick"), "seed": os.environ.get("VERIF_SEED", "1"), "runs": None, "time": None}
    pos = []
    while a:
        t = a.pop(0)
        if t.startswith("--"):
            opt[t[2:]] = a.pop(0)
        else:
            pos.append(t)
    runs = int(opt["runs"]) if opt["runs"] else None
    tmax = float(opt["time"]) if opt["time"] else None
    if cmd == "setup":
        print(build())
        with locked():
            print(ycheck.ybuild(sys.modules[__name__]))
        return 0
    if cmd == "run":
        return run_prop(pos[0], opt["tier"], int(opt["seed"]), runs, tmax)
    if cmd == "replay" and re.match(r"prop Y", open(pos[0], errors="replace").readline()):
        return ycheck.replay(sys.modules[__name__], pos[0])
    if cmd == "replay":
        exe = build()
        return subprocess.run([exe, "replay", pos[0]]).returncode
    if cmd == "one":
        exe = build()
        return subprocess.run([exe, "check", "--prop", pos[0], "--seed", opt["seed"], "--tier", opt["tier"], "--only", pos[1]]).returncode
    if cmd == "all":
        exe = build()
        rc = 0
        ids = [l.split()[0] for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        for i in ids + sorted(ycheck.RULES):
            r = run_prop(i, opt["tier"], int(opt["seed"]), runs, tmax)
            rc = rc or r
        return rc
    print(__doc__)
    return 3


sys.exit(main())
