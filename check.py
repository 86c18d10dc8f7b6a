#!/usr/bin/env python3
"""Decide one property by seeded simulation.

  check.py <property> [quick|thorough]     exit 0: held on everything explored
                                           exit 1: VIOLATION line with a replay file
  check.py --replay <file>                 reproduce a replay file exactly (exit 1 when it does)
  check.py --determinism <property> [n]    run n seeds twice, at two worker counts, and diff the histories
"""
import collections, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
CACHE = os.path.join(HERE, ".build")
# property: (quick runs, quick seconds, thorough seconds)
BUDGET = json.load(open(os.path.join(HERE, "budget.json")))


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ build
def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "include"), os.path.join(HERE, "sim")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def build():
    """compile the simulator against the working tree; returns the binary"""
    key = tree_hash()
    out = os.path.join(CACHE, key)
    exe = os.path.join(out, "gwsim")
    if os.path.exists(exe):
        return exe
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b", dir=CACHE)
    r = subprocess.run([os.path.join(HERE, "sim", "build.sh"), tmp], capture_output=True, text=True, env=dict(os.environ, REPO=REPO))
    if r.returncode or not os.path.exists(os.path.join(tmp, "gwsim")):
        shutil.rmtree(tmp, ignore_errors=True)
        log("build failed\n" + r.stdout[-3000:] + r.stderr[-3000:])
        sys.exit(3)
    shutil.rmtree(os.path.join(tmp, "obj"), ignore_errors=True)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep the few most recent builds only
    old = sorted((os.path.join(CACHE, d) for d in os.listdir(CACHE)), key=os.path.getmtime)[:-4]
    for d in old:
        if d != out and time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)
    return exe


# ------------------------------------------------------------------ running
CPUS = sorted(os.sched_getaffinity(0))
_cpu = threading.local()
_next = [0]
_lock = threading.Lock()
_live = set()


def pin():
    # the threads of one run hand a baton around: on one core that is a cheap switch
    if not hasattr(_cpu, "c"):
        with _lock:
            _cpu.c = CPUS[_next[0] % len(CPUS)]
            _next[0] += 1
    c = _cpu.c
    return lambda: os.sched_setaffinity(0, {c})


def parse(text):
    out = []
    for l in text.splitlines():
        if l.startswith("{"):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
    return out


def batch(exe, prop, first, count, tier, until, stop):
    if stop.is_set() or time.time() >= until:
        return []
    env = dict(os.environ, GWSIM_UNTIL=str(int(until)), GWSIM_ALARM="200")
    p = subprocess.Popen([exe, "batch", prop, str(first), str(count), str(tier)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, preexec_fn=pin(), start_new_session=True)
    with _lock:
        _live.add(p)
    data = p.communicate()[0].decode("utf-8", "replace")
    with _lock:
        _live.discard(p)
    return parse(data)


def one(exe, prop, seed, tier, params=None, trace=None, alarm=200):
    args = [exe, "run", prop, str(seed), str(tier), params or "-"]
    f = None
    if trace is not None:
        f = tempfile.NamedTemporaryFile("w", suffix=".trace", delete=False)
        f.write(trace)
        f.close()
        args.append(f.name)
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, GWSIM_ALARM=str(alarm)), preexec_fn=pin())
        o = parse(r.stdout.decode("utf-8", "replace"))
        return o[0] if o else None
    finally:
        if f:
            os.unlink(f.name)


def cls(r):
    return r["viol"][0][0] if r and r["viol"] else None


# ------------------------------------------------------------------ known findings
def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def is_known(r, prop):
    ps = dict(kv.split("=", 1) for kv in r["params"].split(",") if "=" in kv)
    for k in known():
        if k["property"] != prop or k.get("status") == "fixed":
            continue
        if any(ps.get(a) != str(b) for a, b in k.get("params_match", {}).items()):
            continue
        if all(v[0] == k["class"] and re.search(k["message"], v[1]) for v in r["viol"]):
            return k
    return None


# ------------------------------------------------------------------ minimising
# simplest value of a named parameter (anything else is left as drawn)
SIMPLE = {"part": 0, "fault": 0, "shape": 0, "same": 0, "persistent": 0, "assign": 0, "early": 0, "tiny": 0, "failPredict": 0, "badn": 1, "stall": 0, "limited": 0, "hot": 0, "pseam": 0, "style": 0, "threads": 2, "ranks": 2, "autobw": 0, "autovar": 0, "k": 1, "n": 24, "nloc": 1, "again": 0, "bwbig": 0, "dist": 0,
          "adaptive": 0, "kern": 0, "net.delay": 0, "net.rdv": 0, "net.limit": 0, "net.wait": 0, "net.order": 0, "mp": 0, "fine": 0, "blank": 0, "quant": 0, "hat": 1, "intercept": 1,
          "miter": 1, "mretry": 1, "rot": 0, "autolambda": 0, "oblique": 0, "lam": 0, "ladj": 0, "repeat": 0, "fitfirst": 0, "gap": 4, "storeS": 0, "storeC": 0, "ops": 1, "inst": 2,
          "omp": 0, "predict": 0, "criterion": 0, "reset": 1, "swap": 0, "cancelled": 0, "early": 1, "byWork": 0, "nbig": 0, "nlarge": 60, "poly": 0, "aic": 0, "autolambda": 0, "mgold": 0, "minit": 0,
          "op": 0, "hth": 2}


def minimise(exe, prop, r, tier, limit):
    end = time.time() + limit
    c = cls(r)
    seed, params = r["seed"], r["params"]
    best = r
    # 1. simpler configuration, fresh schedule from the same seed
    changed = True
    while changed and time.time() < end:
        changed = False
        cur = collections.OrderedDict(kv.split("=", 1) for kv in params.split(",") if "=" in kv)
        for k in list(cur):
            base = re.sub(r"^[a-z]+\.", "", k) if not k.startswith("net.") else k
            if base not in SIMPLE:
                base = base.rstrip("0123456789")
            if k not in cur or base not in SIMPLE or float(cur[k]) == SIMPLE[base] or time.time() > end:
                continue
            q = collections.OrderedDict(cur)
            q[k] = str(SIMPLE[base])
            t = one(exe, prop, seed, tier, ",".join("%s=%s" % i for i in q.items()))
            if t and cls(t) == c and not is_known(t, prop):
                params, best, changed = t["params"], t, True
                cur = collections.OrderedDict(kv.split("=", 1) for kv in params.split(",") if "=" in kv)
    # 2. fewer schedule and fault decisions (delta debugging on the recorded trace)
    trace = [e for e in best.get("trace", "").split(";") if e]
    t = one(exe, prop, seed, tier, params, ";".join(trace))
    if not t or cls(t) != c:
        return best, None, params          # replay of the full trace differs: caller rejects
    best, full = t, len(trace)

    def ok(tr):
        t = one(exe, prop, seed, tier, params, ";".join(tr))
        return t if t and cls(t) == c and not is_known(t, prop) else None
    t = ok([])
    if t:
        best, trace = t, []
    n = 2
    while len(trace) >= 2 and time.time() < end:
        size = max(1, len(trace) // n)
        cand = [trace[:i] + trace[i + size:] for i in range(0, len(trace), size)]
        hit = None
        with cf.ThreadPoolExecutor(len(CPUS)) as ex:
            for tr, t in zip(cand[:64], ex.map(ok, cand[:64])):
                if t and hit is None:
                    hit = (tr, t)
        if hit:
            trace, best = hit
            n = max(n - 1, 2)
        elif size == 1:
            break
        else:
            n = min(len(trace), n * 2)
    return best, trace, params


# ------------------------------------------------------------------ replay
def write_replay(prop, tier, r, params, trace):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, r["seed"]))
    json.dump({"property": prop, "seed": r["seed"], "tier": tier, "params": params, "trace": ";".join(trace), "class": cls(r), "message": r["viol"][0][1], "hash": r["hash"],
               "tree": tree_hash(), "decisions": len(trace), "how": "python3 check.py --replay " + p}, open(p, "w"), indent=1)
    return p


def replay(path):
    d = json.load(open(path))
    exe = build()
    r = one(exe, d["property"], d["seed"], d["tier"], d["params"], d["trace"])
    log(json.dumps({k: r[k] for k in ("viol", "hash")}, indent=1) if r else "no result")
    if r and cls(r) == d["class"] and r["hash"] == d["hash"]:
        log("reproduced exactly (hash %s)" % r["hash"])
        log("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    log("not reproduced" + ("" if tree_hash() == d["tree"] else " (the tree differs from the one the file was written for)"))
    return 0


# ------------------------------------------------------------------ the check
REAL = ["every source file of src/gwmodelpp (compiled from the working tree)", "armadillo", "OpenBLAS/LAPACK (one thread)", "GSL"]
STUB = ["OpenMP runtime (libgomp ABI) replaced by the simulator's teams and scheduler", "MPI library replaced by the simulator's ranks, messages and collectives",
        "heap replaced by a deterministic arena with canaries and injectable failures", "mutexes and C++ threads replaced by simulated ones", "telegram (logger/cancellation) implemented by the harness"]


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    b = BUDGET[prop]
    exe = build()
    built = time.time() - t0
    lvl = 0 if tier == "quick" else 1
    first = seed * 10_000_000 + 1
    runs = b["quick_runs"] if tier == "quick" else 10 ** 9
    until = time.time() + (b["quick_seconds"] if tier == "quick" else b["thorough_seconds"])
    # known findings are shown to be still there
    stale = []
    for k in known():
        if k["property"] == prop and k.get("status") != "fixed":
            r = one(exe, prop, k["seed"], 0, k.get("params"), k.get("trace"))
            if r and r["viol"] and is_known(r, prop):
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            else:
                stale.append(k["what"])
    for s in stale:
        log("note: listed finding no longer fails: " + s)
    chunk = b.get("chunk", 10)
    stop = threading.Event()
    viol, n = [], 0
    agg = {"st": collections.Counter(), "fault": collections.Counter(), "probe": collections.Counter(), "skip": collections.Counter(), "model": collections.Counter()}
    hist, sigs, nontriv, samples, knownHits = set(), set(), set(), [], 0
    tsim = time.time()
    pend = set()
    nextc = 0
    with cf.ThreadPoolExecutor(len(CPUS)) as ex:
        def more():
            nonlocal nextc
            while len(pend) < 2 * len(CPUS) and nextc * chunk < runs and time.time() < until and not stop.is_set():
                c = min(chunk, runs - nextc * chunk)
                pend.add(ex.submit(batch, exe, prop, first + nextc * chunk, c, lvl, until, stop))
                nextc += 1
        more()
        while pend:
            done, _ = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
            for d in done:
                pend.discard(d)
                for r in d.result():
                    n += 1
                    for k in ("st", "fault", "probe"):
                        agg[k].update(r[k])
                    m = re.search(r"(?:^|,)model=(\d+)", r["params"])
                    if m:
                        agg["model"][m.group(1)] += 1
                    hist.add(r["hash"])
                    sigs.add(r["sig"])
                    if r["skip"]:
                        agg["skip"][r["skip"][:80]] += 1
                    else:
                        s = r["st"]
                        if s.get("switches", 0) + s.get("allocFails", 0) + s.get("cancels", 0) + sum(r["fault"].values()) > 0:
                            nontriv.add(r["hash"])
                            if len(samples) < 3:
                                samples.append({"seed": r["seed"], "params": r["params"], "switches": s.get("switches"), "decision_points": s.get("points"), "faults": r["fault"], "history": r["hash"]})
                    if r["viol"]:
                        if is_known(r, prop):
                            knownHits += 1
                        else:
                            viol.append(r)
            if len(viol) >= 3:
                stop.set()
                with _lock:
                    for p in list(_live):
                        try:
                            os.killpg(p.pid, 9)
                        except OSError:
                            pass
            more()
    simwall = time.time() - tsim

    rc, note, rejected = 0, None, []
    if viol:
        # gate: the same seed twice, in fresh processes, must give the same history
        viol.sort(key=lambda r: (r["viol"][0][0] in ("hang", "stepcap"), len(r.get("trace", ""))))
        for r in viol[:6]:
            a, c = one(exe, prop, r["seed"], lvl), one(exe, prop, r["seed"], lvl)
            if not (cls(a) == cls(r) == cls(c) and (a["hash"] == c["hash"] == r["hash"] or cls(r) == "hang")):
                rejected.append(r)
                continue
            if cls(r) == "hang":
                m, tr, ps = r, [], r["params"]
            else:
                m, tr, ps = minimise(exe, prop, r, lvl, 90 if tier == "quick" else 300)
                if tr is None:
                    rejected.append(r)
                    continue
            f = write_replay(prop, lvl, m, ps, tr)
            z = one(exe, prop, m["seed"], lvl, ps, ";".join(tr))
            if cls(z) != cls(m) or (z["hash"] != m["hash"] and cls(m) != "hang"):
                rejected.append(r)
                continue
            log("%s: %s" % (cls(m), m["viol"][0][1]))
            log("seed %d, %d schedule/fault decisions after minimising (%d recorded), configuration %s" % (m["seed"], len(tr), len([e for e in r.get("trace", "").split(";") if e]), ps))
            log("VIOLATION property=%s replay=%s" % (prop, f))
            rc = 1
            break
        if rc == 0:
            log("a violation did not reproduce: " + json.dumps(rejected[0]["viol"]) + " seed %d" % rejected[0]["seed"])
            rc = 2
    st = agg["st"]
    faults = collections.Counter(agg["fault"])
    for k, nm in (("preempts", "preemption"), ("rendezvous", "send-without-buffering"), ("delayed", "delayed-message"), ("reordered", "reordered-message"), ("waitsForced", "straggler-in-collective"),
                  ("wildcardChoices", "wildcard-receive-choice"), ("allocFails", "failed-allocation"), ("cancels", "cancellation")):
        if st[k]:
            faults[nm] = st[k]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": n, "distinct_nontrivial": len(nontriv),
                       "rule": "one evaluation is one simulated run of one seed: the seed draws model, data, configuration, schedule and faults. Non-trivial: the run decided the property (was not skipped) and the simulator made at least one scheduling switch or injected at least one fault; distinct: by hash of the complete event history.",
                       "samples": samples, "runs_per_hour": round(n / max(simwall, 1e-3) * 3600), "seed_range": [first, first + nextc * chunk - 1],
                       "simulated_ticks": st["ticks"], "decision_points": st["points"], "context_switches": st["switches"], "conflicting_accesses_seen": st["conflicts"],
                       "distinct_interleavings": len(sigs), "interleaving_measure": "FNV hash of the sequence of thread switches of a run", "distinct_histories": len(hist),
                       "faults_injected": dict(faults), "rare_conditions_reached": dict(agg["probe"]), "runs_skipped": dict(agg["skip"]), "runs_per_model": dict(agg["model"]),
                       "parallel_regions": st["teams"], "messages_sent": st["sends"], "collectives": st["collectives"], "stop_polls": st["polls"], "allocations_in_scope": st["allocs"],
                       "known_finding_hits": knownHits, "real_code": REAL, "stubs": STUB, "build_s": round(built, 1)},
          "assumptions": ["sequentially consistent memory (no weak-memory reordering)", "preemption only at instrumented memory accesses, allocations, BLAS/LAPACK calls, OpenMP/MPI calls and telegram calls of the library",
                          "a clean batch is evidence over the explored seeds, not a proof"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    log("%s %s: %d runs, %d distinct non-trivial, %d interleavings, %d skipped, %.0f s, exit %d" % (prop, tier, n, len(nontriv), len(sigs), sum(agg["skip"].values()), time.time() - t0, rc))
    return rc


def determinism(prop, n):
    exe = build()
    stop = threading.Event()
    res = []
    for workers in (len(CPUS), 3):
        out = {}
        with cf.ThreadPoolExecutor(workers) as ex:
            for rs in ex.map(lambda i: batch(exe, prop, 777_000_000 + i * 5, 5, 0, time.time() + 3600, stop), range(n // 5)):
                for r in rs:
                    out[r["seed"]] = json.dumps(r, sort_keys=True)
        res.append(out)
    d = [s for s in res[0] if res[0][s] != res[1].get(s)]
    log("%s: %d seeds twice (8 and 3 workers), %d differ %s" % (prop, len(res[0]), len(d), d[:5]))
    return 1 if d else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if a and a[0] == "--build":
        log(build())
        sys.exit(0)
    if a and a[0] == "--determinism":
        sys.exit(determinism(a[1], int(a[2]) if len(a) > 2 else 400))
    sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
