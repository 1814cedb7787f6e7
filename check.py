#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property by seeded simulation.

Builds the simulator from /repo's working tree, runs many seeds on all cores, and on a failure records the
schedule, minimises it, replays it in fresh processes and prints the VIOLATION line.
Exit: 0 held on everything explored, 1 violation, 2 no answer (build error, failure that does not replay).
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, os.path.join(HERE, "tools"))
import plan  # per-property parameters

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------------------------------------ build
def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = []
        if os.path.isfile(root): files = [root]
        else:
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in (".git", "build", "_build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try: h.update(open(f, "rb").read())
            except OSError: pass
    return h.hexdigest()[:24]

def build(kind):
    k = plan.KINDS[kind]
    key = tree_hash([os.path.join(REPO, p) for p in k["repo"]] + [os.path.join(HERE, p) for p in k["own"]])
    out = os.path.join(BUILD, kind + "-" + key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, kind + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, "ok")):
            for d in os.listdir(BUILD):           # keep one build per kind
                if d.startswith(kind + "-") and d != kind + "-" + key:
                    shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            t = time.time()
            r = subprocess.run(["bash", os.path.join(HERE, k["script"]), REPO, out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                log(r.stdout[-4000:])
                log("check: the simulator does not build from this tree")
                sys.exit(2)
            open(os.path.join(out, "ok"), "w").close()
            log("check: built %s in %.1f s" % (kind, time.time() - t))
    return os.path.join(out, k["exe"])

# ------------------------------------------------------------------------------------------------ run
def sh(cmd, timeout=None, env=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode(errors="replace"), "timeout"

def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = plan.PROPS[prop]
    num = int(prop[1:])
    t0 = time.time()
    exe = build(P["kind"])
    t_build = time.time() - t0
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8
    runs, secs = P[tier]
    count = (runs + jobs - 1) // jobs
    base = seed * 10000000
    work = os.path.join(BUILD, "work-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    tn = "1" if tier == "thorough" else "0"
    cpu = str(P.get("cpu", 60))
    env = dict(os.environ, SIM_SCRATCH=work)
    def cmd(i):
        return [exe, "run", "--prop", str(num), "--first", str(base + i), "--stride", str(jobs), "--count", str(count), "--secs", str(secs),
                "--tier", tn, "--cpu", cpu, "--status", "%s/st%d" % (work, i), "--states", "%s/s%d" % (work, i), "--logs", "%s/l%d" % (work, i)]
    log("check: %s tier=%s VERIF_SEED=%d: seeds %d..%d" % (prop, tier, seed, base, base + count * jobs - 1))
    procs = []
    for i in range(jobs):
        d = "%s/w%d" % (work, i); os.makedirs(d)
        procs.append(subprocess.Popen(cmd(i), stdout=open("%s/o%d" % (work, i), "wb"), stderr=open("%s/e%d" % (work, i), "wb"), env=dict(env, SIM_SCRATCH=d), start_new_session=True))
    bad = None
    hard = time.time() + secs + 200
    live = set(range(jobs))
    res = {}
    while live:
        time.sleep(0.05)
        for i in list(live):
            rc = procs[i].poll()
            if rc is None:
                if time.time() > hard:
                    os.killpg(procs[i].pid, signal.SIGKILL); rc = -9; procs[i].wait(); res[i] = ("hang", rc)
                else: continue
            live.discard(i)
            res.setdefault(i, ("exit", rc))
            if rc != 0 and bad is None:
                bad = i
                for j in live:                     # the others have nothing to add
                    procs[j].send_signal(signal.SIGKILL)
    wall_run = time.time() - t0 - t_build
    tot = {"runs": 0, "ops": 0, "sim_ns": 0, "replayed": 0, "nondeterministic": 0, "n": {}}
    states, logs = set(), set()
    for i in range(jobs):
        try: o = json.loads(open("%s/o%d" % (work, i)).read())
        except ValueError: continue
        for k in ("runs", "ops", "sim_ns", "replayed", "nondeterministic"): tot[k] += o[k]
        for k, v in o["n"].items(): tot["n"][k] = tot["n"].get(k, 0) + v
        for name, s in (("s", states), ("l", logs)):
            try: b = open("%s/%s%d" % (work, name, i), "rb").read()
            except OSError: continue
            s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    code, viol = 0, 0
    if bad is not None:
        rc = procs[bad].returncode
        st = open("%s/st%d" % (work, bad), "rb").read(64) if os.path.exists("%s/st%d" % (work, bad)) else b""
        fseed = struct.unpack("<Q", st[8:16])[0] if len(st) >= 16 else base + bad
        err = open("%s/e%d" % (work, bad), errors="replace").read()
        m = re.search(r"(SIM-FATAL[^\n]*|ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*)", err)
        try: first = json.loads(open("%s/o%d" % (work, bad)).read()).get("violation", {})
        except ValueError: first = {}
        log("check: seed %d failed (exit %s): %s" % (fseed, rc, first.get("cls", "") + ": " + first.get("detail", "") if first else m.group(1) if m else err[-300:]))
        code, viol = report(prop, num, exe, P, fseed, tn, cpu, work, env, first, m.group(1) if m else "", base + bad, jobs)
    samples = []
    if not viol:
        rec = "%s/sample" % work
        sh([exe, "record", "--seed", str(base), "--prop", str(num), "--tier", tn, "--cpu", cpu, "--out", rec], 60, env)
        try:
            L = open(rec).read().splitlines()
            samples.append({"seed": base, "operations": len(L), "schedule_head": L[:40]})
        except OSError: pass
        if not samples: samples.append({"seed": base})
    else:
        samples.append({"seed": fseed})
    evidence(prop, P, tier, seed, tot, states, logs, samples, t_build, wall_run, time.time() - t0, viol, jobs, base)
    shutil.rmtree(work, ignore_errors=True)
    if code == 0:
        log("check: %s held on %d runs (%d distinct non-trivial, %d states) in %.1f s" % (prop, tot["runs"], len(logs), len(states), time.time() - t0))
    sys.exit(code)

def known(prop):
    out = []
    try: lines = open(os.path.join(HERE, "KNOWN_FINDINGS.txt")).read().splitlines()
    except OSError: return out
    for l in lines:
        m = re.match(r"finding: property=(\S+) class=(\S+) detail=/(.*)/ (.*)$", l)
        if m and m.group(1) == prop: out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out

def report(prop, num, exe, P, fseed, tn, cpu, work, env, first, fatal, wfirst, stride):
    """Records, minimises and replays the failure of one seed."""
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    raw = "%s/raw" % work
    mini = os.path.join(rdir, "%s-seed%d.trace" % (prop, fseed))
    sh([exe, "record", "--seed", str(fseed), "--prop", str(num), "--tier", tn, "--cpu", cpu, "--out", raw], 200, env)
    rc, out, err = sh([exe, "shrink", "--in", raw, "--out", mini, "--prop", str(num), "--cpu", cpu, "--budget", str(P.get("shrink", 25))], 400, env)
    if rc == 0:
        log("check: minimised: " + out.strip())
        a = sh([exe, "replay", "--in", mini, "--cpu", cpu], 200, env)
        b = sh([exe, "replay", "--in", mini, "--cpu", cpu], 200, env)
        if a[0] == 1 and b[0] == 1 and a[1] == b[1]:
            return verdict(prop, mini, a[1].split("|")[0], a[1].split("|")[-1].strip(), fatal)
        log("check: replay differs: %s / %s" % (a, b))
    # The failure may depend on what earlier simulations of the same process left behind: replay that sequence.
    n = (fseed - wfirst) // stride + 1
    def seq(k):
        f = fseed - (k - 1) * stride
        r = sh([exe, "run", "--prop", str(num), "--first", str(f), "--stride", str(stride), "--count", str(k), "--tier", tn, "--cpu", cpu], 300, env)
        try: v = json.loads(r[1]).get("violation", {})
        except ValueError: v = {"seed": fseed, "cls": "crash", "detail": "exit status %d" % r[0]} if r[0] not in (0, 2, -99) else {}
        return v if v.get("seed") == fseed else {}
    k = 1
    end = time.time() + 150
    while k <= n and time.time() < end:
        v = seq(k)
        if v:
            w = seq(k)
            if w == v:
                with open(mini, "w") as f:
                    f.write("# class=%s\n# detail=%s\n# property=%s\n# replay: %s run --prop %d --first %d --stride %d --count %d --tier %s\n" %
                            (v["cls"], v["detail"], prop, exe, num, fseed - (k - 1) * stride, stride, k, tn))
                log("check: reproduced by a sequence of %d simulations in one process: state is shared between sessions" % k)
                return verdict(prop, mini, v["cls"], v["detail"], fatal)
        if k == n: break
        k = min(n, k * 2)
    log("check: the failure of seed %d does not replay; no verdict" % fseed)
    return 2, 0

def verdict(prop, path, cls, detail, fatal):
    for c, rx, what in known(prop):
        if c == cls and rx.search(detail):
            print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
            return 0, 0
    log("check: %s: %s %s" % (cls, detail, fatal))
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1, 1

def evidence(prop, P, tier, seed, tot, states, logs, samples, t_build, t_run, wall, viol, jobs, base):
    n = tot["n"]
    faults = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in sorted(n.items()) if k.startswith("probe.")}
    other = {k: v for k, v in sorted(n.items()) if not k.startswith(("fault.", "probe."))}
    k = plan.KINDS[P["kind"]]
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(logs),
            "rule": k["rule"],
            "samples": samples,
            "seed_range": "%d + i, i = 0..%d" % (base, max(0, tot["runs"] - 1)),
            "operations": tot["ops"], "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "runs_per_hour": int(tot["runs"] / max(t_run, 0.01) * 3600), "workers": jobs,
            "distinct_states": len(states), "state_measure": k["states"],
            "faults_injected": faults, "rare_conditions_reached": probes, "events": other,
            "determinism": {"runs_replayed_from_their_schedule": tot["replayed"], "that_differed": tot["nondeterministic"]},
            "real_components": k["real"], "stubbed_components": k["stub"],
            "build_s": round(t_build, 1),
        },
        "assumptions": k["assume"] + P.get("assume", []),
        "wall_s": round(wall, 2), "violations": viol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(e, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))

if __name__ == "__main__":
    main()
