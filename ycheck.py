"""Simulated runs of the Yorick interface: real interpreter, real opky.i, real plug-in.

The plug-in is built from /repo with the simulator's own built-in functions
(sim/yorick/simplug.c); the scenarios are in sim/yorick/ysim.i.
"""
import os, re, json, glob, time, shutil, struct, subprocess, sys
YLIB = "algebra fltvector dblvector driver utils gqtpar linalg nlcg lnsrch vmlmb cobyla newuoa".split()
YMOD = "opky ycobyla ynewuoa".split()
HANG = 20.0        # seconds without a new run: endless loop
CHUNK = 4000       # runs by one process
RULES = {
    "Y01": "one run: 1 to 3 optimizers driven from Yorick in lockstep with reference optimizers of the library (with faults, misuse, refused allocations, restarts, drops), or one opk_minimize, or one opk_gqtpar; distinct: hash of the event log",
    "Y02": "one run: 1 to 3 NEWUOA or COBYLA contexts driven from Yorick in lockstep with reference contexts of the library (with faults, misuse, refused allocations, restarts, drops), or one call of a driver; distinct: hash of the event log",
}
QUICK = {"Y01": 60000, "Y02": 60000}
REAL = ["Yorick interpreter", "yorick/opky.i", "yorick/opky.c", "yorick/ycobyla.c", "yorick/ynewuoa.c", "library (both sides of the comparison)"]
STUB = ["objective functions, gradients and constraints", "memory allocation of the plug-in (model of the heap)", "caller", "random choices"]


def yroot():
    for d in ("/usr/lib/yorick", "/usr/local/lib/yorick"):
        if os.path.exists(d + "/lib/codger"):
            return d
    print("Yorick is not installed: the Yorick interface cannot be checked")
    sys.exit(2)


def ybuild(ck):
    """Build the plug-in (under the lock of the build); return its directory."""
    repo, sim = ck.REPO, os.path.join(ck.SIM, "yorick")
    yor = os.path.join(repo, "yorick")
    y = yroot()
    cf = ["-g", "-O1", "-w", "-ftrivial-auto-var-init=pattern", "-fPIC", "-DPLUG_IN", "-DNDEBUG", "-ffp-contract=off", "-fno-strict-aliasing", "-I" + repo + "/src", "-I" + y + "/include"]
    files = ck.sources() + sorted(glob.glob(yor + "/*.[chi]")) + sorted(glob.glob(sim + "/*.[ci]"))
    d = os.path.join(ck.BUILD, "yk-" + ck.key(files, " ".join(cf)))
    if os.path.exists(d):
        os.utime(d)
        return d
    t = d + ".tmp"
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    cmds = [["gcc", *cf, "-c", "%s/src/%s.c" % (repo, m), "-o", "%s/%s.o" % (t, m)] for m in YLIB]
    cmds += [["gcc", *cf, "-c", "%s/%s.c" % (yor, m), "-o", "%s/%s.o" % (t, m)] for m in YMOD]
    cmds += [["gcc", *cf, "-c", sim + "/simplug.c", "-o", t + "/simplug.o"]]
    err = ck.run_all(cmds)
    if not err:
        shutil.copy(yor + "/opky.i", t)
        names = sorted(set(re.findall(r"\bY_(sim_\w+)\(int argc\)", open(sim + "/simplug.c").read())))
        open(t + "/simext.i", "w").write("".join("extern %s;\n" % n for n in names))
        r = subprocess.run([y + "/lib/codger", "w", "opky", "opky.i", "simext.i"], cwd=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            err = r.stdout
    if not err:
        err = ck.run_all([["gcc", *cf, "-c", t + "/ywrap.c", "-o", t + "/ywrap.o"]])
    if not err:
        wraps = ["-Wl,--wrap=" + w for w in ("malloc", "calloc", "realloc", "free")]
        err = ck.run_all([["gcc", "-shared", "-fPIC", *wraps, "-o", t + "/opky.so", *sorted(glob.glob(t + "/*.o")), "-lm"]])
    if err:
        print(err)
        sys.exit(2)
    for f in glob.glob(t + "/*.[oc]"):
        os.remove(f)
    shutil.copy(sim + "/ysim.i", t)
    os.rename(t, d)
    old = sorted((f for f in glob.glob(ck.BUILD + "/yk-*") if f != d), key=os.path.getmtime)
    for f in old[:-20]:
        shutil.rmtree(f, ignore_errors=True)
    return d


def start(d, work, name, cmd, env=None):
    """Run one Yorick command in a process of its own."""
    src = os.path.join(work, name + ".i")
    with open(src, "w") as f:
        f.write('plug_dir, ["%s/"];\ninclude, "%s/opky.i", 1;\ninclude, "%s/simext.i", 1;\ninclude, "%s/ysim.i", 1;\n%s\nquit;\n' % (d, d, d, d, cmd))
    log = open(os.path.join(work, name + ".log"), "wb")
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen([shutil.which("yorick") or "yorick", "-batch", src], stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, cwd=work, env=e, preexec_fn=limit)
    log.close()
    return p


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def verdict(fn):
    r = {"bad": 0, "oracle": "", "hash": "", "message": "", "choices": []}
    try:
        for l in open(fn, errors="replace"):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "choices":
                r[k] = [int(t) for t in v.split()[1:]]
            elif k == "bad":
                r[k] = int(v)
            elif k in r and not r[k]:
                r[k] = v
    except OSError:
        return None
    return r


def attempt(d, work, name, prop, choices, env=None):
    fn = os.path.join(work, name + ".in")
    with open(fn, "w") as f:
        f.write("choices %d %s\n" % (len(choices), " ".join(map(str, choices))))
    out = os.path.join(work, name + ".out")
    if os.path.exists(out):
        os.remove(out)
    return start(d, work, name, 'ysim_replay, "%s", 0, "%s", "%s";' % (prop, fn, out), env), out


def finish(p, out, t=HANG):
    try:
        p.wait(t)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return {"bad": 1, "oracle": "hang", "hash": "-", "message": "the run does not end", "choices": []}
    v = verdict(out)
    if v is None:
        return {"bad": 1, "oracle": "crash", "hash": "-", "message": "the interpreter ended with status %d" % p.returncode, "choices": []}
    return v


def shrink(d, work, prop, v, budget):
    """Remove and lower choices while the same oracle fails."""
    best, t0 = list(v["choices"]), time.time()
    hang = v["oracle"] == "hang"
    par = 8
    cache = {}

    def tryall(cands):
        """first candidate (in order) with the same failure"""
        res = None
        todo = [c for c in cands if tuple(c) not in cache]
        ps = [(c, *attempt(d, work, "s%d" % i, prop, c)) for i, c in enumerate(todo)]
        for c, p, out in ps:
            w = finish(p, out, 5.0 if hang else HANG)
            cache[tuple(c)] = w["bad"] and w["oracle"] == v["oracle"] and w
        for c in cands:
            if res is None and cache.get(tuple(c)):
                res = (c, cache[tuple(c)])
        return res
    lim = budget if not hang else 3*budget
    progress = True
    while progress and time.time() - t0 < lim:
        progress = False
        size = max(1, len(best)//2)
        while size >= 1 and time.time() - t0 < lim:
            pos = 0
            while pos < len(best) and time.time() - t0 < lim:
                cands = [best[:p] + best[p + size:] for p in range(pos, min(len(best), pos + par*size), size)]
                r = tryall(cands)
                if r:
                    i = cands.index(r[0])
                    best, progress = (r[1]["choices"] or r[0]), True
                    if len(best) > len(r[0]):
                        best = r[0]
                    pos += i*size
                else:
                    pos += par*size
            size //= 2
        pos = 0
        while pos < len(best) and time.time() - t0 < lim:
            cands = [best[:p] + [0] + best[p + 1:] for p in range(pos, min(len(best), pos + par)) if best[p]]
            cands += [best[:p] + [best[p]//2] + best[p + 1:] for p in range(pos, min(len(best), pos + par)) if best[p] > 1]
            r = tryall(cands[:2*par]) if cands else None
            if r:
                best, progress = r[0], True
            else:
                pos += par
    while best and best[-1] == 0:
        best.pop()
    p, out = attempt(d, work, "final", prop, best)
    w = finish(p, out)
    if not w["bad"] or w["oracle"] != v["oracle"]:
        best = list(v["choices"])
        p, out = attempt(d, work, "final", prop, best)
        w = finish(p, out)
    return best, w


def run(ck, prop, tier, seed, runs=None, tmax=None):
    t0 = time.time()
    with ck.locked():
        d = ybuild(ck)
    tb = time.time() - t0
    outdir = os.path.join(ck.VERIF, "replays")
    work = os.path.join(outdir, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run_in(ck, prop, tier, seed, runs, tmax, d, tb, outdir, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_in(ck, prop, tier, seed, runs, tmax, d, tb, outdir, work, t0):
    n = runs if runs is not None else (QUICK[prop] if tier == "quick" else 40*QUICK[prop])
    tmax = tmax if tmax is not None else (60 if tier == "quick" else 600)
    ts = time.time()
    jobs = [(a, min(n, a + CHUNK)) for a in range(0, n, CHUNK)]
    live, nxt, bad, done, rep, differ, counts, hashes = [], 0, [], 0, 0, 0, {}, set()
    samples = []

    def collect(j, p):
        nonlocal done, rep, differ
        base = os.path.join(work, "j%d" % j)
        v = verdict(base + ".bad")
        r = int(open(base + ".run").read() or -1) if os.path.exists(base + ".run") else -1
        if v is not None:
            v["run"] = r
            bad.append(v)
        elif not os.path.exists(base + ".done"):
            tail = open(base + ".log", errors="replace").read()[-300:]
            bad.append({"bad": 1, "oracle": "crash", "hash": "-", "message": "the interpreter ended with status %s: %s" % (p.returncode, tail), "choices": [], "run": r})
        if os.path.exists(base + ".done"):
            f = open(base + ".done").read().split()
            if len(f) >= 3:
                done, rep, differ = done + int(f[0]), rep + int(f[1]), differ + int(f[2])
        if os.path.exists(base + ".hash"):
            b = open(base + ".hash", "rb").read()
            h = struct.unpack("<%dQ" % (len(b)//8), b[:len(b)//8*8])
            hashes.update(h)
            if len(samples) < 8 and h:
                samples.append({"run": jobs[j][0], "seed": str(seed*1000003 + jobs[j][0]*2 + 1), "trace_hash": "%016x" % h[0]})
            if not os.path.exists(base + ".done"):
                done += len(h)
        if os.path.exists(base + ".counts"):
            for l in open(base + ".counts"):
                k, c, name = l.rstrip("\n").split(" ", 2)
                counts[(k, name)] = counts.get((k, name), 0) + int(c)

    while (nxt < len(jobs) and not bad) or live:
        while nxt < len(jobs) and len(live) < 8 and not bad and time.time() - ts < tmax:
            a, b = jobs[nxt]
            base = os.path.join(work, "j%d" % nxt)
            p = start(d, work, "j%d" % nxt, 'ysim_main, "%s", %d, %d, 1, %d, %.1f, "%s";' % (prop, seed, a, b, max(1.0, tmax - (time.time() - ts)), base))
            live.append([nxt, p, None, time.time()])
            nxt += 1
        if not live:
            break
        time.sleep(0.02)
        for w in list(live):
            j, p = w[0], w[1]
            if p.poll() is not None:
                live.remove(w)
                collect(j, p)
                continue
            try:
                r = open(os.path.join(work, "j%d.run" % j)).read()
            except OSError:
                r = ""
            if r != w[2]:
                w[2], w[3] = r, time.time()
            elif time.time() - w[3] > HANG:
                p.kill()
                p.wait()
                live.remove(w)
                collect(j, p)
                bad[-1]["oracle"], bad[-1]["message"] = "hang", "the run does not end"
        if bad:
            for w in live:
                w[1].kill()
                w[1].wait()
                try:
                    collect(w[0], None) if verdict(os.path.join(work, "j%d.bad" % w[0])) else None
                except (OSError, ValueError, IndexError, struct.error):
                    pass
            live = []
    violation = ""
    search = time.time() - ts
    if bad:
        bad.sort(key=lambda v: v["run"])
        v = bad[0]
        sd = "%d" % (seed*1000003 + v["run"]*2 + 1)
        if not v["choices"] and v["run"] >= 0:
            # the choices of a run which crashed or did not end
            lf = os.path.join(work, "draws")
            p = start(d, work, "again", 'ysim_main, "%s", %d, %d, 1, %d, 60.0, "%s";' % (prop, seed, v["run"], v["run"] + 1, os.path.join(work, "again")), {"YSIM_DRAWLOG": lf})
            finish(p, os.path.join(work, "again.bad"))
            if os.path.exists(lf):
                v["choices"] = [int(t) for t in open(lf).read().split()]
        ch, w = shrink(d, work, prop, v, 15 if tier == "quick" else 60)
        tr = os.path.join(work, "trace")
        p, out = attempt(d, work, "traced", prop, ch, {"YSIM_TRACE": tr})
        finish(p, out)
        path = os.path.join(outdir, "%s-seed%d-run%d.replay" % (prop, seed, v["run"]))
        with open(path, "w") as f:
            f.write("prop %s\nseed %s\nrun %d\noracle %s\nhash %s\nmessage %s\nchoices %d %s\n" % (prop, sd, v["run"], w["oracle"], w["hash"], w["message"], len(ch), " ".join(map(str, ch))))
            if os.path.exists(tr):
                f.write("--- trace of the minimised run\n" + open(tr, errors="replace").read()[:200000])
        known = [k for k in ck.known_findings(prop) if k[0] == v["oracle"]]
        print("seed %s run %d: oracle %s: %s" % (sd, v["run"], w["oracle"], w["message"]))
        print("minimised from %d to %d choices" % (len(v["choices"]), len(ch)))
        if os.path.exists(tr):
            print("\n".join(l[:400] for l in open(tr, errors="replace").read().split("\n")[-15:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        violation = "%s: %s" % (w["oracle"], w["message"])
    hours = max(search, 1e-3)/3600
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": len(hashes), "rule": RULES[prop], "samples": samples,
            "requested_runs": n, "runs_per_hour": round(done/hours), "seeds_per_hour": round(done/hours), "simulated_seconds": 0,
            "faults_injected": {k[1]: c for k, c in sorted(counts.items()) if k[0] == "f"},
            "runs_reaching_probe": {k[1]: c for k, c in sorted(counts.items()) if k[0] == "p"},
            "repeated_runs": rep, "repeated_runs_that_differed": differ, "workers": 8,
            "components_real": REAL, "components_stub": STUB, "build_s": round(tb, 2),
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": ["one simulated run is fully determined by its seed (checked by re-executing 1 run in 61)",
                        "floating point exceptions, which Yorick traps, are not trapped during the runs, so that values which are not numbers reach the plug-in",
                        "nothing of the interface depends on the time but one column of the printed lines, which is not looked at: no simulated clock"],
        "violations": 1 if bad else 0, "violation": violation,
    }
    os.makedirs(os.path.join(ck.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(ck.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        return 1
    if not done:
        print("no run was made")
        return 3
    print("OK property=%s runs=%d distinct=%d faults=%d wall=%.1fs" % (prop, done, len(hashes), sum(c for k, c in counts.items() if k[0] == "f"), time.time() - t0))
    return 0


def replay(ck, fn):
    r = {}
    for l in open(fn, errors="replace"):
        if l.startswith("---"):
            break
        k, _, v = l.rstrip("\n").partition(" ")
        r[k] = v
    with ck.locked():
        d = ybuild(ck)
    work = os.path.join(ck.VERIF, "replays", "work-replay-%d" % os.getpid())
    os.makedirs(work, exist_ok=True)
    try:
        tr = os.path.join(work, "trace")
        p, out = attempt(d, work, "r", r["prop"], [int(t) for t in r["choices"].split()[1:]], {"YSIM_TRACE": tr})
        v = finish(p, out)
        if os.path.exists(tr):
            print(open(tr, errors="replace").read()[-6000:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if not v["bad"]:
        print("no violation")
        return 0
    print("oracle %s: %s" % (v["oracle"], v["message"]))
    if v["oracle"] == r["oracle"] and v["hash"] == r["hash"]:
        print("reproduced identically: hash %s" % v["hash"])
        return 1
    print("ANOTHER execution: recorded oracle %s hash %s" % (r["oracle"], r["hash"]))
    return 4
