#!/usr/bin/env python3
"""Deterministic-simulation checks.

  check.py run <property> [quick|thorough]   build from /repo's working tree, explore, write evidence
  check.py replay <file> [-v|-vv]            rebuild the harness and replay a violation (exit 1 when it reproduces exactly)
  check.py build <binary> [dir]              build one harness (development)
  check.py determinism [n]                   every scenario, n seeds, twice in different processes

exit codes of run: 0 held on everything explored, 1 violation (VIOLATION line), 3 the check could not decide (build
failure, nondeterminism, replay that does not reproduce) -- never reported as a violation.
"""
import glob, json, os, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import BINS, PROPS, ASSUME  # noqa: E402

CXX = "g++-14"
BASE = ["-std=c++23", "-g1", "-w", "-DOPENCMW_SIM"]
INC = ["-I" + VERIF + "/shims"] + ["-I%s/src/%s/include" % (REPO, d) for d in
       ("core", "disruptor", "serialiser", "zmq", "majordomo", "client", "services", "rest")] + ["-I" + REPO + "/3rd_party"]
INSTR = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
LINK = ["-no-pie", "-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-ldl", "-lpthread"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(name, out):
    spec = BINS[name]
    jobs = [([CXX] + BASE + ["-O2", "-fno-builtin-malloc", "-c", VERIF + "/sim/rt.cpp"], out + "/rt.o")]
    for i, src in enumerate(spec["src"]):
        f, defs = (src, []) if isinstance(src, str) else (src[0], [d.replace("REPO", REPO) for d in src[1:]])
        path = f.replace("REPO", REPO) if f.startswith("REPO") else VERIF + "/scen/" + f
        jobs.append(([CXX] + BASE + INSTR + [x.replace("REPO", REPO).replace("VERIF", VERIF) for x in spec.get("flags", [])] + ["-D" + d for d in defs] + (["-I" + VERIF + "/shims_net"] if spec.get("net") else []) + INC + ["-c", path], "%s/o%d.o" % (out, i)))

    def one(j):
        return j, sh(j[0] + ["-o", j[1]])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                sys.stderr.write("BUILD FAILED: %s\n%s\n" % (" ".join(j[0]), r.stdout[-6000:]))
                return None
    exe = "%s/%s" % (out, name)
    r = sh([CXX] + [j[1] for j in jobs] + LINK[:3] + spec.get("link", []) + LINK[3:] + ["-o", exe])
    if r.returncode:
        sys.stderr.write("LINK FAILED:\n%s\n" % r.stdout[-6000:])
        return None
    return exe


def known_patterns(prop):
    pats = []
    with open(VERIF + "/known_findings.jsonl") as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            e = json.loads(line)
            if e["property"] == prop:
                pats.append(e)
    return pats


def cpus():
    try:
        return sorted(os.sched_getaffinity(0))
    except AttributeError:
        return list(range(os.cpu_count() or 1))


def run(prop, tier):
    t0 = time.time()
    p = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    base = (seed & 0xffffffff) * 1000000007 + 12345
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    os.makedirs(VERIF + "/build", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=prop + ".", dir=VERIF + "/build")
    try:
        return _run(prop, tier, p, seed, base, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, tier, p, seed, base, tmp, t0):
    exes = {}
    for b in sorted({s[0] for s in p["scenarios"]}):
        os.makedirs(tmp + "/" + b)
        exes[b] = build(b, tmp + "/" + b)
        if not exes[b]:
            print("ERROR property=%s: harness %s does not build against the working tree" % (prop, b))
            return 3
    tb = time.time() - t0
    pats = known_patterns(prop)
    kf = tmp + "/known.txt"
    with open(kf, "w") as f:
        f.write("".join(e["match"] + "\n" for e in pats))
    total = float(os.environ.get("VERIF_TIME", 0)) or (p.get("quick_s", 50) if tier == "quick" else p.get("thorough_s", 600))
    wsum = sum(s[2] for s in p["scenarios"])
    cpu = cpus()
    nw = len(cpu)
    res, problems = [], []
    # determinism: the first seeds of every scenario, in two further processes, must give the same event-log hashes
    det = 0
    for b, sc, w in p["scenarios"]:
        n = 24 if tier == "quick" else 200
        procs = [subprocess.Popen([exes[b], "hashes", "--scenario", sc, "--seed", str(base + 77777), "--n", str(n), "--cpu", str(cpu[k % nw])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for k in (0, 1)]
        o, end = ["", ""], time.time() + (45 if tier == "quick" else 150)

        def rd(i):
            for x in procs[i].stdout:
                o[i] += x
        rds = [threading.Thread(target=rd, args=(i,)) for i in (0, 1)]
        for x in rds:
            x.start()
        for q in procs:
            try:
                q.wait(max(0.1, end - time.time()))
            except subprocess.TimeoutExpired:  # very slow runs: what is there has to do
                q.kill()
        for x in rds:
            x.join()
        lines = [x.splitlines() for x in o]
        slow = any(q.returncode == -9 for q in procs)
        det += min(len(x) for x in lines)
        if slow:
            m = max(0, min(len(x) for x in lines) - 1)
            lines = [x[:m] for x in lines]
        if lines[0] != lines[1]:
            bad = [x for x, y in zip(*lines) if x != y][:3]
            problems.append("nondeterministic: scenario %s differs between two processes: %s" % (sc, bad))
    violation = None
    for b, sc, w in p["scenarios"]:
        secs = total * w / wsum
        procs = []
        for k in range(nw):
            pre = "%s/%s.%d" % (tmp, sc, k)
            cmd = [exes[b], "explore", "--scenario", sc, "--property", prop, "--seed", str(base), "--worker", str(k), "--workers", str(nw),
                   "--time", "%.2f" % secs, "--out", pre + ".json", "--replay", pre + ".replay", "--known", kf, "--hashfile", pre + ".hash", "--cpu", str(cpu[k]), "--mintime", "12"]
            procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), pre))
        for q, pre in procs:
            err = q.communicate()[1]
            try:
                r = json.load(open(pre + ".json"))
            except Exception as e:
                problems.append("worker of %s gave no result (rc %s) %s %s" % (sc, q.returncode, e, err[-400:]))
                continue
            r["replay"] = pre + ".replay"
            r["hashfile"] = pre + ".hash"
            r["bin"] = b
            res.append(r)
        vs = [r for r in res if r["violation"] and r["scenario"] == sc]
        for r in sorted(vs, key=lambda r: r["vseed"]):
            # gate: a fresh process must reproduce the replay file exactly, twice
            if violation and time.time() - t0 > 120:
                break
            gate = [subprocess.Popen([exes[b], "replay", r["replay"]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for _ in (0, 1)]
            ok = all([g.wait() == 1 for g in gate])
            if not ok:
                problems.append("replay of seed %d (%s) did not reproduce exactly" % (r["vseed"], r["vsig"]))
                continue
            if not violation:
                safe = "".join(c if c.isalnum() or c in "-_" else "_" for c in r["vsig"])[:60]
                dst = "%s/replays/%s-%s-%s.replay" % (VERIF, prop, sc, safe)
                shutil.copy(r["replay"], dst)
                violation = (r, dst)
        if violation:
            break
    nondet = sum(r["nondeterministic"] for r in res)
    if nondet:
        problems.append("%d runs were not reproduced by their own seed" % nondet)
    runs = sum(r["runs"] for r in res)
    cpu_s = sum(r["seconds"] for r in res)
    faults, probes, known = {}, {}, {}
    for r in res:
        for k, v in r["faults"].items():
            f = faults.setdefault(k, [0, 0])
            f[0] += v[0]
            f[1] += v[1]
        for k, v in r["probes"].items():
            f = probes.setdefault(k, [0, 0])
            f[0] += v[0]
            f[1] += v[1]
        for k in r["known"]:
            kk = known.setdefault(k["pattern"], dict(hits=0, seed=k["seed"], scenario=r["scenario"]))
            kk["hits"] += k["hits"]
    distinct = set()
    for r in res:
        try:
            data = open(r["hashfile"], "rb").read()
            sc = r["scenario"]
            distinct.update((sc, data[i:i + 8]) for i in range(0, len(data), 8))
        except OSError:
            pass
    wall = time.time() - t0
    missing = [x for x in p.get("must_probe", []) if probes.get(x, [0])[0] == 0]
    ev = dict(
        property=prop, tier=tier, seed=seed, level=p.get("level", "exploration"), violations=1 if violation else 0, wall_s=round(wall, 2),
        coverage=dict(
            evaluations=runs, distinct_nontrivial=len(distinct),
            rule="one evaluation = one complete simulated run (own process, own seed) in which every check of the property was evaluated; "
                 "distinct = different sequences of (thread, scheduling-point kind, code location) at the context switches of the run plus injected faults (64-bit hash), counted per scenario; "
                 "runs abandoned at the step cap are counted in skipped_runs and not here",
            samples=[dict(scenario=r["scenario"], seed=r["first_seed"], replay="check.py one") for r in res[:4]],
            scenarios={sc: dict(runs=sum(r["runs"] for r in res if r["scenario"] == sc), runs_per_hour=int(3600 * sum(r["runs"] for r in res if r["scenario"] == sc) / max(1e-9, max([r["seconds"] for r in res if r["scenario"] == sc] or [1]))),
                                behaviour_classes_max_per_worker=max([r["distinct_classes"] for r in res if r["scenario"] == sc] or [0])) for _, sc, _ in p["scenarios"]},
            seeds="base %d, consecutive; worker k of %d takes base+k, base+k+%d, ..." % (base, nw, nw),
            runs_per_hour=int(3600 * runs / max(1e-9, cpu_s / nw)), scheduling_points=sum(r["points"] for r in res), context_switches=sum(r["switches"] for r in res), preemptions=sum(r["preemptions"] for r in res),
            simulated_seconds=round(sum(r["sim_ns"] for r in res) / 1e9, 3), fault_free_runs=sum(r["faultfree_runs"] for r in res), runs_with_liveness_phase=sum(r["calm_runs"] for r in res),
            skipped_runs=sum(r["skipped"] for r in res),
            faults_injected={k: dict(fired=v[0], opportunities=v[1]) for k, v in sorted(faults.items())},
            states_reached={k: dict(times=v[0], runs=v[1]) for k, v in sorted(probes.items())},
            expected_states_not_reached=missing,
            determinism=dict(cross_process_seeds=det, in_run_rechecks=sum(r["rechecked"] for r in res), mismatches=nondet),
            real_code=p["real"], stubs=p["stub"], build_s=round(tb, 1), workers=nw,
            known_findings_hit=[dict(pattern=k, **v) for k, v in known.items()], problems=problems,
        ),
        assumptions=ASSUME + p.get("assume", []))
    if violation:
        ev["coverage"]["violation"] = dict(scenario=violation[0]["scenario"], seed=violation[0]["vseed"], signature=violation[0]["vsig"], message=violation[0]["vmsg"], replay=violation[1])
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d/h), %d distinct schedules, %.1f simulated s, %d faults, build %.0f s, total %.0f s" % (
        prop, tier, runs, ev["coverage"]["runs_per_hour"], len(distinct), ev["coverage"]["simulated_seconds"], sum(v[0] for v in faults.values()), tb, wall))
    for e in pats:  # a listed finding is reported whether or not this run happened to meet it
        h = known.get(e["match"])
        print("KNOWN-FINDING: property=%s %s%s" % (prop, e["what"], " (met %d times, first seed %d)" % (h["hits"], h["seed"]) if h else " (not met in this run)"))
    for x in problems:
        print("PROBLEM:", x)
    if violation:
        r = violation[0]
        print("scenario %s seed %d: [%s] %s" % (r["scenario"], r["vseed"], r["vsig"], r["vmsg"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation[1]))
        return 1
    if problems:
        print("ERROR property=%s: the check could not decide" % prop)
        return 3
    return 0


def find_bin(scn):
    for p in PROPS.values():
        for b, s, _ in p["scenarios"]:
            if s == scn:
                return b


def main():
    a = sys.argv[1:]
    if a and a[0] == "run":
        return run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
    if a and a[0] == "setup":  # nothing is kept between runs; shows that the harnesses build here
        for d in ("build", "evidence", "replays"):
            os.makedirs(VERIF + "/" + d, exist_ok=True)
        return 0 if shutil.which(CXX) else 3
    if a and a[0] == "build":
        d = a[2] if len(a) > 2 else VERIF + "/build/dev"
        os.makedirs(d + "/" + a[1], exist_ok=True)
        e = build(a[1], d + "/" + a[1])
        print(e)
        return 0 if e else 3
    if a and a[0] == "replay":
        scn = [x.split()[1] for x in open(a[1]) if x.startswith("scenario ")][0]
        os.makedirs(VERIF + "/build", exist_ok=True)
        tmp = tempfile.mkdtemp(dir=VERIF + "/build")
        try:
            e = build(find_bin(scn), tmp)
            return subprocess.run([e, "replay"] + a[1:]).returncode if e else 3
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if a and a[0] == "determinism":
        n = a[1] if len(a) > 1 else "300"
        bad = 0
        tmp = tempfile.mkdtemp(dir=VERIF + "/build")
        done = {}
        for p in PROPS.values():
            for b, s, _ in p["scenarios"]:
                if (b, s) in done:
                    continue
                if b not in done:
                    os.makedirs(tmp + "/" + b)
                    done[b] = build(b, tmp + "/" + b)
                q = [subprocess.Popen([done[b], "hashes", "--scenario", s, "--seed", "555", "--n", n, "--cpu", str(k)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for k in range(4)]
                o = [x.communicate()[0] for x in q]
                done[(b, s)] = 1
                print(s, "identical in 4 processes" if len(set(o)) == 1 else "DIFFERENT", flush=True)
                bad += len(set(o)) != 1
        shutil.rmtree(tmp, ignore_errors=True)
        return 3 if bad else 0
    print(__doc__)
    return 2


sys.exit(main())
