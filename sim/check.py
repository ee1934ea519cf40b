"""Driver of the checks.

  check.py C01                 run the check (VERIF_SEED, VERIF_TIER)
  check.py replay FILE         run a replay file again
"""
import hashlib
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")


def spawn(so, libdir):
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/"}
    if "SIM_TRACE" in os.environ:
        env["SIM_TRACE"] = "1"
    env.update(LD_PRELOAD=so, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.arena_max=1")
    cmd = [sys.executable, "-s", os.path.join(HERE, "zygote.py"), so, libdir]
    if NOASLR:
        cmd = ["setarch", "-R"] + cmd
    return subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, bufsize=1)


def setarch_works():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


NOASLR = setarch_works() and not os.environ.get("SIM_ASLR")


class Pool:
    """workers that take jobs from a list"""

    def __init__(self, n, so, libdir, jobs, stop_on_found=True, deadline=None):
        self.jobs = queue.Queue()
        for j in jobs:
            self.jobs.put(j)
        self.results, self.lock, self.stop = [], threading.Lock(), threading.Event()
        self.stop_on_found, self.deadline = stop_on_found, deadline
        self.procs, self.dead = [], []
        self.skipped = 0
        self.threads = [threading.Thread(target=self.worker, args=(so, libdir)) for _ in range(n)]
        for t in self.threads:
            t.start()

    def worker(self, so, libdir):
        p = spawn(so, libdir)
        with self.lock:
            self.procs.append(p)
        while not self.stop.is_set():
            try:
                j = self.jobs.get_nowait()
            except queue.Empty:
                break
            if self.deadline and time.monotonic() > self.deadline:
                with self.lock:
                    self.skipped += 1
                continue
            try:
                p.stdin.write(json.dumps(j) + "\n")
                p.stdin.flush()
                line = p.stdout.readline()
            except OSError:
                line = ""
            if not line:
                if not self.stop.is_set():
                    with self.lock:
                        self.dead.append(j["index"])
                    p = spawn(so, libdir)
                    with self.lock:
                        self.procs.append(p)
                continue
            a = json.loads(line)
            with self.lock:
                self.results.append(a)
            if "found" in a and a["found"]["stable"] and self.stop_on_found:
                self.stop.set()
                time.sleep(0)
                with self.lock:
                    for q in self.procs:
                        if q is not p:
                            q.kill()
        try:
            p.stdin.close()
            p.wait(10)
        except Exception:
            p.kill()

    def wait(self):
        for t in self.threads:
            t.join()
        for p in self.procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        return self.results


def known_findings(pid):
    """signatures of listed findings: lines 'finding: property=<id> signature=<s> <text>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=%s signature=" % pid):
                rest = l.split("signature=", 1)[1].strip()
                s, _, t = rest.partition(" ")
                out[s] = t
    return out


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    os.rename(path + ".tmp", path)


def run_replay(rec, so, libdir):
    """run a recorded violation in a fresh worker process"""
    p = Pool(1, so, libdir, [{"kind": "replay", "property": rec["property"], "tier": "quick", "seed": rec["seed"], "index": rec["job"],
                              "record": rec}], False)
    r = p.wait()
    return r[0] if r else {"harness": "worker died"}


def replay_cmd(path):
    rec = json.load(open(path))
    so, libdir = build.build()
    a = run_replay(rec, so, libdir)
    if "harness" in a:
        print("harness error:", a["harness"])
        return 2
    for k, t in a["violations"]:
        print("%s: %s" % (k, t))
    if os.environ.get("SIM_VERBOSE"):
        print("%s steps, %s switches" % (a.get("steps"), a.get("switches")))
    same = a["hash"] == rec["hash"]
    print("execution %s, recorded %s: %s" % (a["hash"], rec["hash"], "identical" if same else "different"))
    return 1 if set(a["kinds"]) & set(rec["kinds"]) else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay_cmd(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    try:
        so, libdir = build.build()
    except build.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    t1 = time.monotonic()
    import importlib
    prop = importlib.import_module("props." + pid.lower())
    njobs = prop.JOBS[tier]
    if os.environ.get("SIM_JOBS"):
        njobs = int(os.environ["SIM_JOBS"])
    limit = {"quick": 300, "thorough": int(os.environ.get("SIM_SECONDS", "3000"))}[tier]
    jobs = [{"kind": "job", "property": pid, "tier": tier, "seed": seed, "index": k, "limit": limit} for k in range(njobs)]
    nworkers = int(os.environ.get("SIM_WORKERS", str(min(8, os.cpu_count() or 8))))
    pool = Pool(nworkers, so, libdir, jobs, deadline=t1 + limit)
    results = pool.wait()
    wall = time.monotonic() - t0
    search = time.monotonic() - t1
    return report(pid, prop, tier, seed, results, pool, wall, search, so, libdir, njobs)


def merge(results):
    tot = {"runs": 0, "oracle_runs": 0, "sim_ns": 0, "steps": 0, "switches": 0, "threads": 0, "faults": {}, "policies": {}, "counts": {}}
    states, samples, maximum = set(), [], {}
    for a in results:
        s = a.get("stats")
        if not s:
            continue
        for k, v in s.items():
            if isinstance(v, dict):
                d = tot.setdefault(k, {})
                for x, y in v.items():
                    d[x] = d.get(x, 0) + y
            else:
                tot[k] = tot.get(k, 0) + v
        states.update(a["states"])
        if len(samples) < 4:
            samples += a["samples"]
        for k, v in a["maximum"].items():
            maximum[k] = max(maximum.get(k, 0), v)
    return tot, states, samples, maximum


def report(pid, prop, tier, seed, results, pool, wall, search, so, libdir, njobs):
    results.sort(key=lambda a: a["index"])
    harness = [a for a in results if "harness" in a]
    found = [a["found"] for a in results if "found" in a]
    tot, states, samples, maximum = merge(results)
    known = known_findings(pid)
    sig = getattr(prop, "signature", lambda rec: None)
    confirmed, unstable, listed = [], [], {}
    for rec in found:
        s = sig(rec)
        if s is not None and s in known:
            listed[s] = known[s]
            continue
        if not rec["stable"]:
            unstable.append(rec)
            continue
        a = run_replay(rec, so, libdir)  # a fresh process must do exactly the same
        if "harness" not in a and set(a["kinds"]) & set(rec["kinds"]) and a["hash"] != rec["hash"]:
            rec["note"] += " (the same violation on a slightly different execution in a fresh process)"
        elif "harness" in a or not set(a["kinds"]) & set(rec["kinds"]):
            rec["note"] += " fresh-process replay differed: %s" % json.dumps({k: a.get(k) for k in ("harness", "hash", "kinds")})
            unstable.append(rec)
            continue
        confirmed.append(rec)
    hours = search / 3600.0
    if os.environ.get("SIM_TRACE"):  # the hash of every run, to compare two executions of a check
        write_json(os.environ["SIM_TRACE"], {str(a["index"]): a.get("trace") for a in results})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": prop.LEVEL,
          "coverage": {
              "evaluations": tot["runs"], "distinct_nontrivial": len(states), "rule": prop.RULE,
              "samples": samples, "jobs": len(results), "jobs_planned": njobs, "jobs_skipped_by_deadline": pool.skipped,
              "reference_runs": tot["oracle_runs"], "simulated_runs_per_hour": round(tot["runs"] / hours) if hours else 0,
              "seeds_per_hour": round(len(results) / hours) if hours else 0,
              "simulated_seconds": round(tot["sim_ns"] / 1e9, 6), "steps": tot["steps"], "context_switches": tot["switches"],
              "worker_threads_simulated": tot["threads"], "faults_injected": tot["faults"], "schedulers": tot["policies"],
              "largest": maximum, "case_counts": tot["counts"],
              "distinct_measure": "distinct hashes over every scheduling decision, synchronisation event, allocation, clock read and fault of a run",
              "real_code": getattr(prop, "REAL", REAL), "simulated": getattr(prop, "STUB", STUB)},
          "assumptions": getattr(prop, "ASSUMPTIONS", []) + ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    write_json(os.path.join(VERIF, "evidence", pid + ".json"), ev)
    for s, t in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for a in harness[:3]:
        print("harness error in job %d: %s" % (a["index"], a["harness"]))
    for i in pool.dead[:3]:
        print("worker died in job %d" % i)
    for rec in unstable[:3]:
        print("unconfirmed (not reproducible) in job %d: %s %s" % (rec["job"], rec["violations"][:2], rec["note"]))
    print("%s %s seed %d: %d runs in %d jobs, %d distinct, %.1f s" % (pid, tier, seed, tot["runs"], len(results), len(states), wall))
    if os.environ.get("SIM_VERBOSE"):
        print("slowest jobs:", sorted(((round(a["wall"], 1), a["index"], a.get("stats", {}).get("runs"), a.get("stats", {}).get("steps", 0) // 1000) for a in results), reverse=True)[:6])
    if confirmed:
        rec = min(confirmed, key=lambda r: (r["steps"], r["job"]))
        h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
        write_json(path, rec)
        for k, t in rec["violations"][:5]:
            print("  %s: %s" % (k, str(t)[:1500]))
        print("  case %s" % json.dumps(rec["case"])[:1500])
        print("  schedule and faults %s" % json.dumps(rec["plan"])[:800])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if harness or pool.dead or unstable:
        return 2
    return 0


REAL = ["the whole C++ core of wicked and its Python bindings, compiled from /repo with access instrumentation", "wicked's Python modules",
        "std::async, futures, mutexes and condition variables of libstdc++", "CPython"]
STUB = ["thread scheduler (one thread at a time, chosen by the seed)", "operator new/delete", "clocks", "processor count", "standard output"]
ASSUMPTIONS = ["memory accesses are interleaved sequentially consistently; weak-memory reorderings are seen only as data races",
               "accesses inside libstdc++.so and CPython are not preemption points"]

if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
