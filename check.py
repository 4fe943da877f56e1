#!/usr/bin/env python3
"""Driver of the deterministic simulation checks.

  check.py PROP [--tier quick|thorough]     decide one property on /repo's working tree
  check.py --replay FILE                    run one replay file again (prints its outcome)
  check.py --build [DOMAIN...]              build simulator binaries
  check.py --hashes PROP N                  print "seed hash" of the first N runs (determinism comparisons)

exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>": broken;
exit 2: the check itself failed (build error, result that does not reproduce, ...).
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
REPLAYS = os.environ.get("SIM_REPLAYS", os.path.join(HERE, "replays"))
EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(HERE, "evidence"))
JOBS = int(os.environ.get("SIM_JOBS", "8"))
sys.path.insert(0, SIM)
from domains import DOMAINS, PROPS  # noqa: E402

WRAP = """malloc free calloc realloc _Znwm _Znam _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm
_ZdlPvSt11align_val_t _ZdlPvmSt11align_val_t _ZdaPvSt11align_val_t _ZdaPvmSt11align_val_t pthread_mutex_lock
__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort _ZNSt6chrono3_V212steady_clock3nowEv
_ZNSt6chrono3_V212system_clock3nowEv clock_gettime gettimeofday time clock""".split()
BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=trace-pc"]


class CheckError(Exception):
    pass


# ---------------------------------------------------------------- build
def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        files = []
        if os.path.isdir(p):
            for d, dn, fs in os.walk(p):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(".pyc")]
        else:
            files = [p]
        for f in files:
            h.update(os.path.relpath(f, p).encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(name):
    d = DOMAINS[name]
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    stamp = tree_hash([os.path.join(REPO, "include"), SIM] + [os.path.join(HERE, x) for x in d.get("deps", [])]) + REPO
    exe = os.path.join(out, "sim")
    sf = os.path.join(out, "stamp")
    if os.path.exists(exe) and os.path.exists(sf) and open(sf).read() == stamp:
        return exe
    inc = ["-I" + os.path.join(REPO, "include")] + [x.replace("@", HERE) for x in d.get("cflags", [])] + ["-isystem", "/usr/include/eigen3", "-I" + SIM]
    san = SAN if d.get("san", True) else []
    jobs = []
    for s in d["sources"] + ["rt.cpp"]:
        o = os.path.join(out, s.replace("/", "_") + ".o")
        cmd = ["g++"] + BASE + san + (COV if s != "rt.cpp" else []) + inc + ["-c", os.path.join(SIM, s), "-o", o]
        jobs.append((cmd, o))
    t0 = time.time()

    def one(j):
        r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            raise CheckError("build failed: %s\n%s" % (" ".join(j[0]), r.stdout[-4000:]))
        return j[1]

    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, jobs))
    tmp = exe + ".tmp"
    one((["g++"] + BASE + san + objs + ["-Wl,--wrap=" + w for w in WRAP] + ["-pthread"] + d.get("libs", []) + ["-o", tmp], tmp))
    os.replace(tmp, exe)
    with open(sf, "w") as f:
        f.write(stamp)
    print("built %s in %.1f s" % (name, time.time() - t0))
    return exe


# ---------------------------------------------------------------- plans / replays
class Op:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args

    def line(self):
        return " ".join([self.kind] + ["%s=%s" % kv for kv in self.args])


def parse_plan(txt):
    head, ops = [], []
    for ln in txt.splitlines():
        if not ln.strip() or ln.startswith("#"):
            continue
        w = ln.split()
        if w[0] in ("prop", "seed"):
            head.append(ln)
        else:
            ops.append(Op(w[0], [tuple(x.split("=", 1)) for x in w[1:]]))
    return head, ops


def plan_text(head, ops):
    return "\n".join(head + [o.line() for o in ops]) + "\n"


class Runner:
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.n = exe, tmp, 0

    def replay_file(self, path, extra=()):
        try:
            r = subprocess.run([self.exe, "replay", path, *extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=500)
        except subprocess.TimeoutExpired:
            return (1, "stuck", "0", "timeout"), ""
        for ln in r.stdout.splitlines():
            m = re.match(r"RESULT (\d+) (\S+) hash=(\d+) ?(.*)", ln)
            if m and r.returncode == 0:
                return (int(m.group(1)), m.group(2), m.group(3), m.group(4)), r.stderr
        sig = -r.returncode
        cls = "stuck" if sig in (24, 14, 9) else "crash"
        lines = [x for x in r.stderr.splitlines() if "SUMMARY" in x or "runtime error" in x or "Assertion" in x or "terminate called" in x]
        txt = re.sub(r"==\d+==|0x[0-9a-f]+|\(pid \d+\)", "", " | ".join(lines))
        return (1, cls, "0", ("signal %d: " % sig if r.returncode < 0 else "exit status %d: " % r.returncode) + txt[:400]), r.stderr

    def replay(self, txt, extra=()):
        self.n += 1
        p = os.path.join(self.tmp, "cand%d.plan" % self.n)
        with open(p, "w") as f:
            f.write(txt)
        try:
            return self.replay_file(p, extra)
        finally:
            os.unlink(p)


def minimise(run, txt, cls, limit_s):
    """Smallest plan found that still shows a violation of the same class."""
    t_end = time.time() + limit_s
    head, ops = parse_plan(txt)

    def bad(cand):
        (st, c, _, _), _ = run.replay(plan_text(head, cand))
        return st == 1 and c == cls

    # turn a seeded schedule into the explicit list of context switches
    if any(o.kind == "sched" for o in ops):
        outp = os.path.join(run.tmp, "explicit.plan")
        (st, c, _, _), _ = run.replay(plan_text(head, ops), ("trace", outp))
        if st == 1 and c == cls and os.path.exists(outp):
            h2, o2 = parse_plan(open(outp).read())
            if bad(o2):
                ops = o2
    with cf.ThreadPoolExecutor(JOBS) as ex:

        def first(cands):
            """index of the first failing candidate"""
            for i in range(0, len(cands), JOBS):
                if time.time() > t_end:
                    return None
                for k, r in enumerate(ex.map(bad, cands[i:i + JOBS])):
                    if r:
                        return i + k
            return None

        # drop operations (ddmin)
        n = 2
        while len(ops) > 1 and time.time() < t_end:
            sz = max(1, len(ops) // n)
            chunks = [(i, min(len(ops), i + sz)) for i in range(0, len(ops), sz)]
            k = first([ops[:a] + ops[b:] for a, b in chunks])
            if k is not None:
                a, b = chunks[k]
                ops = ops[:a] + ops[b:]
                n = max(2, n - 1)
            elif sz == 1:
                break
            else:
                n = min(len(ops), n * 2)
        # drop arguments
        again = True
        while again and time.time() < t_end:
            again = False
            cands, where = [], []
            for i, o in enumerate(ops):
                for j in range(len(o.args)):
                    c = list(ops)
                    c[i] = Op(o.kind, o.args[:j] + o.args[j + 1:])
                    cands.append(c)
                    where.append((i, j))
            k = first(cands)
            if k is not None:
                ops = cands[k]
                again = True
        # simplify numbers
        for _ in range(3):
            cands = []
            for i, o in enumerate(ops):
                for j, (a, v) in enumerate(o.args):
                    try:
                        x = float(v)
                    except ValueError:
                        continue
                    for y in dict.fromkeys([1.0, float(int(x / 2)), float(round(x))]):
                        if y != x and abs(y) < abs(x):
                            c = list(ops)
                            c[i] = Op(o.kind, o.args[:j] + [(a, "%g" % y)] + o.args[j + 1:])
                            cands.append(c)
            k = first(cands)
            if k is None:
                break
            ops = cands[k]
    return plan_text(head, ops)


# ---------------------------------------------------------------- known findings
def load_known():
    known = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) replay=(\S+) match=/(.*)/ what=(.*)", ln.strip())
            if m:
                known.append(dict(prop=m.group(1), cls=m.group(2), replay=m.group(3), match=m.group(4), what=m.group(5)))
    return known


# ---------------------------------------------------------------- one property
def workers(exe, prop, base, count, thorough, limit, tmp, jobs):
    per = [count // jobs + (1 if k < count % jobs else 0) for k in range(jobs)]
    procs = []
    for k in range(jobs):
        out = os.path.join(tmp, "w%d" % k)
        procs.append((out, subprocess.Popen([exe, "run", prop, str(base), str(k), str(per[k]), str(int(thorough)), out, str(jobs), out + ".hash", str(limit)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    res = dict(runs=0, discarded=0, sim_ns=0, probe={}, fault={}, viol=[], states=set(), hashes={}, nt=set())
    for out, p in procs:
        _, err = p.communicate()
        if not os.path.exists(out):
            raise CheckError("worker died: " + err.decode(errors="replace")[-2000:])
        for ln in open(out, errors="replace"):
            w = ln.rstrip("\n").split(" ", 3)
            if w[0] in ("runs", "discarded", "sim_ns"):
                res[w[0]] += int(w[1])
            elif w[0] in ("probe", "fault"):
                res[w[0]][w[1]] = res[w[0]].get(w[1], 0) + int(w[2])
            elif w[0] == "viol":
                res["viol"].append((int(w[1]), w[2], w[3] if len(w) > 3 else ""))
        b = open(out + ".states", "rb").read()
        res["states"].update(b[i:i + 8] for i in range(0, len(b), 8))
        for ln in open(out + ".hash"):
            s, h, nt = ln.split()
            res["hashes"][int(s)] = h
            if nt == "1":
                res["nt"].add(h)
    res["viol"].sort()
    return res


def check(prop, tier):
    t0 = time.time()
    cfg = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    exe = build(cfg["domain"])
    t_build = time.time() - t0
    count, limit = cfg["thorough"] if thorough else cfg["quick"]
    tmp = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        return decide(prop, tier, cfg, seed, thorough, exe, count, limit, tmp, t0, t_build)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, cfg, seed, thorough, exe, count, limit, tmp, t0, t_build):
    run = Runner(exe, tmp)
    known = [k for k in load_known() if k["prop"] == prop]
    for k in known:
        (st, c, _, msg), _ = run.replay_file(os.path.join(HERE, k["replay"]))
        if st == 1 and c == k["cls"] and re.search(k["match"], msg):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    ts = time.time()
    res = workers(exe, prop, seed, count, thorough, limit, tmp, JOBS)
    t_sim = time.time() - ts
    # the same seeds again, in one process, other order of processes: every event log must be identical
    ndet = min(cfg.get("recheck", 48), count)
    det_bad = 0
    if not res["viol"]:
        tmp2 = os.path.join(tmp, "again")
        os.makedirs(tmp2)
        res2 = workers(exe, prop, seed, ndet, thorough, 120, tmp2, 3 if ndet >= 3 else 1)
        same = 0
        for s, h in res2["hashes"].items():
            if s in res["hashes"]:
                same += 1
                det_bad += h != res["hashes"][s]
        ndet = same
    fresh, suppressed = [], 0
    for s, c, m in res["viol"]:
        if any(k["cls"] == c and re.search(k["match"], m) for k in known):
            suppressed += 1
        else:
            fresh.append((s, c, m))
    reported = None
    problems = []
    for s, c, m in fresh[:4]:
        g = subprocess.run([exe, "gen", prop, str(s), str(int(thorough))], stdout=subprocess.PIPE, text=True)
        a, _ = run.replay(g.stdout)
        b, _ = run.replay(g.stdout)
        if a != b or a[0] != 1 or a[1] != c:
            problems.append("seed %d: %s '%s' does not reproduce: %s / %s" % (s, c, m, a, b))
            continue
        txt = minimise(run, g.stdout, c, 90 if thorough else 45)
        a, _ = run.replay(txt)
        b, _ = run.replay(txt)
        if a != b or a[0] != 1 or a[1] != c:
            txt = g.stdout
            a, _ = run.replay(txt)
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s_%d.plan" % (prop, s))
        with open(path, "w") as f:
            f.write("# property %s, seed %d (VERIF_SEED=%d, tier %s)\n# %s: %s\n# outcome hash %s\n# replay: python3 check.py --replay %s\n" % (prop, s, seed, tier, a[1], a[3], a[2], path))
            f.write(txt)
        reported = (s, a[1], a[3], path)
        break
    wall = time.time() - t0
    rate = res["runs"] / max(t_sim, 1e-9) * 3600
    g = subprocess.run([exe, "gen", prop, str(sorted(res["hashes"])[0]), str(int(thorough))], stdout=subprocess.PIPE, text=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["runs"],
            "distinct_nontrivial": len(res["nt"]),
            "rule": cfg["rule"] + " A run counts as distinct and non-trivial when its event-log hash (results of every call, basic blocks executed, schedule) is new and it made at least two calls into the library or had a fault or a context switch injected.",
            "samples": [{"seed": sorted(res["hashes"])[0], "plan": g.stdout.splitlines()[:40]}],
            "runs_per_hour": round(rate), "seeds_per_hour": round(rate),
            "simulated_seconds": round(res["sim_ns"] / 1e9, 6),
            "faults_injected": dict(sorted(res["fault"].items())),
            "probes": dict(sorted(res["probe"].items())),
            "distinct_states": len(res["states"]), "state_measure": cfg["states"],
            "discarded_runs": res["discarded"],
            "determinism_recheck": {"seeds_run_again_in_other_processes": ndet, "differing_event_logs": det_bad},
            "real_components": cfg["real"], "stub_components": cfg["stub"],
            "workers": JOBS, "build_s": round(t_build, 1), "search_s": round(t_sim, 1),
            "known_findings_suppressed": suppressed,
        },
        "assumptions": cfg.get("assume", []),
        "wall_s": round(wall, 1),
        "violations": 1 if reported else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d distinct non-trivial, %d states) in %.1f s (%.1f s build), faults %s" % (prop, res["runs"], len(res["nt"]), len(res["states"]), wall, t_build, json.dumps(ev["coverage"]["faults_injected"])))
    if reported:
        s, c, m, path = reported
        print("%s: seed %d: %s: %s" % (prop, s, c, m))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if problems:
        raise CheckError("; ".join(problems))
    if det_bad:
        raise CheckError("%d of %d runs are not reproducible from their seed" % (det_bad, ndet))
    if res["runs"] == 0 or res["discarded"] * 2 > res["runs"]:
        raise CheckError("nothing explored")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a and a[0] == "--build":
            for d in a[1:] or DOMAINS:
                build(d)
            return 0
        if a and a[0] == "--hashes":
            exe = build(PROPS[a[1]]["domain"])
            tmp = os.path.join(BUILD, "h%d" % os.getpid())
            os.makedirs(tmp)
            res = workers(exe, a[1], int(os.environ.get("VERIF_SEED", "1")), int(a[2]), False, 1e9, tmp, JOBS)
            shutil.rmtree(tmp)
            for s in sorted(res["hashes"]):
                print(s, res["hashes"][s])
            return 0
        if a and a[0] == "--replay":
            head, _ = parse_plan(open(a[1]).read())
            prop = [h.split()[1] for h in head if h.startswith("prop")][0]
            exe = build(PROPS[prop]["domain"])
            (st, c, h, m), err = Runner(exe, BUILD).replay_file(a[1], ("trace",))
            print(err[-6000:])
            print("outcome: %s %s hash=%s %s" % (["held", "violation", "discarded"][st], c, h, m))
            if st == 1:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a[1])))
            return 1 if st == 1 else 0
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[0], tier)
    except CheckError as e:
        print("CHECK-ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
