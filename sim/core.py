"""Shared machinery of the property checks, used inside a worker process."""
import importlib
import json
import os
import random
import resource
import subprocess
import sys
import time

import simapi
from simapi import SEQ, GAP, PCT, SYNC, CONFLICT, REPLAY, RR

MB = 1 << 20
HERE = os.path.dirname(os.path.abspath(__file__))


class TooLarge(Exception):
    """a run needs more than the simulator's tables hold"""


class HarnessError(Exception):
    """the check itself failed; never reported as a violation"""


class Found(Exception):
    def __init__(self, record):
        self.record = record


def load_property(pid):
    return importlib.import_module("props." + pid.lower())


# -------------------------------------------------------------------- schedules
def cfg_for(rng, policy=None, scale=20000):
    """simulator settings for one run: policy, parameters, seed, processors"""
    if policy is None:
        policy = rng.choice([GAP, GAP, GAP, PCT, PCT, SYNC, CONFLICT, RR])
    c = {"policy": policy, "seed": rng.getrandbits(32), "nproc": rng.choice([1, 2, 3, 4, 8, 8, 64])}
    if policy in (GAP, RR):
        c["gap"] = max(rng.choice([3, 20, 100, 500, 2500, 10000]), scale // 40000)
    elif policy == PCT:
        c["pct_depth"] = rng.randint(1, 6)
        c["pct_range"] = max(10, int(scale * rng.choice([0.1, 0.5, 1, 2])))
    elif policy in (SYNC, CONFLICT):
        c["prob"] = rng.choice([1, 2, 4, 10])
        if policy == CONFLICT and rng.random() < 0.5:
            c["prob"] = rng.choice([20, 100])
        if scale > 1000000:
            c["prob"] = max(c["prob"], rng.choice([10, 100]))
    c.update(memory(rng))
    return c


def memory(rng, p=0.3):
    """now and then another placement, reuse and content of fresh memory"""
    c = {}
    if rng.random() < p:
        if rng.random() < 0.6:
            c["reuse"] = 1
        if rng.random() < 0.5:
            c["fill"] = rng.randint(1, 1 << 20)
        if rng.random() < 0.5:
            c["layout"] = rng.randint(1, 1 << 20)
    return c


SEQCFG = {"policy": SEQ, "seed": 1, "nproc": 8}


def pick(rng, na, sites):
    """one of na allocations: mostly any of the places that ask for memory, so that
    the many requests of one place do not hide those of the others"""
    if sites and rng.random() < 0.7:
        return min(na - 1, rng.choice(rng.choice(sites)))
    return rng.randrange(na)


def schedule(cfg):
    return simapi.POLICY_NAMES[cfg.get("policy", 0)]


# ---------------------------------------------------------------------- context
class Ctx:
    def __init__(self, prop, pid, tier, seed, index, deadline):
        self.prop, self.pid, self.tier, self.seed, self.index = prop, pid, tier, seed, index
        self.rng = random.Random("%s/%d/%d" % (pid, seed, index))
        self.deadline = deadline
        self.cache = {}
        self.stats = {"runs": 0, "oracle_runs": 0, "sim_ns": 0, "steps": 0, "switches": 0, "faults": {}, "policies": {}, "threads": 0,
                      "cases": 0, "counts": {}}
        self.states = set()   # distinct non-trivial executions
        self.trace = []
        self.samples = []
        self.maximum = {}

    quick = property(lambda self: self.tier == "quick")

    def late(self):
        return time.monotonic() > self.deadline

    def count(self, name, n=1):
        self.stats["counts"][name] = self.stats["counts"].get(name, 0) + n

    def oracle(self, fn, key):
        """value of fn() in an unsimulated fork of the pristine process, cached"""
        k = json.dumps(key, sort_keys=True)
        if k not in self.cache:
            self.stats["oracle_runs"] += 1
            self.cache[k] = simapi.twin(fn)
        return self.cache[k]

    def elsewhere(self, case, env):
        """what the calls of a case return in a process started anew in another environment:
        hash seed, switches of the interpreter, variables, directory"""
        k = "elsewhere:" + json.dumps([case, env], sort_keys=True)
        if k not in self.cache:
            e = dict(os.environ, PYTHONHASHSEED=str(env["hashseed"]), **env.get("vars", {}))
            job = {"index": 0, "property": self.pid, "tier": self.tier, "seed": self.seed, "kind": "plain", "case": case}
            cmd = [sys.executable] + env.get("flags", []) + ["-s", os.path.join(HERE, "zygote.py")] + sys.argv[1:3]
            x = subprocess.run(cmd, input=json.dumps(job) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e,
                               cwd=env.get("cwd"), timeout=300)
            a = json.loads(x.stdout or "{}")
            if "value" not in a:
                raise HarnessError("no values from a process in another environment: %s %s" % (a, x.stderr[-600:]))
            self.stats["oracle_runs"] += 1
            self.cache[k] = a["value"]
        return self.cache[k]

    def raw(self, case, plan):
        """one simulated run of a case"""
        prop = self.prop
        case, plan = json.loads(json.dumps([case, plan]))  # the same objects as in a replay
        r = simapi.run(lambda s: prop.execute(s, case, plan), plan, cpu=getattr(prop, "CPU", 60), wall=getattr(prop, "WALL", 240))
        st = self.stats
        st["runs"] += 1
        self.trace.append(r.hash)
        st["sim_ns"] += r.stats["now_ns"]
        st["steps"] += r.stats["steps"]
        st["switches"] += r.stats["switches"]
        st["threads"] += r.stats["threads"]
        p = schedule(plan.get("cfg", {}))
        st["policies"][p] = st["policies"].get(p, 0) + 1
        f = st["faults"]
        for name, c in (("allocation failure", "afail"), ("thread launch failure", "tfail"), ("wall clock jump", "jump"),
                        ("output failure", "outfail"), ("stalled thread", "stall")):
            if r.stats[c]:
                f[name] = f.get(name, 0) + r.stats[c]
        m = self.maximum
        m["threads"] = max(m.get("threads", 0), r.stats["maxthreads"])
        m["steps"] = max(m.get("steps", 0), r.stats["steps"])
        return r

    def problems(self, case, plan, r):
        """[(kind, text)]: what the run did wrong"""
        k = simapi.end_kind(r)
        if k == "internal" and ("exhausted" in r.msg or "full" in r.msg or "too many" in r.msg):
            if not getattr(self.prop, "RUNAWAY", False) or not self.runaway(case):
                raise TooLarge(r.msg)
            return [("hang", "the calls take all memory there is: neither the simulated run (%s) nor a run without simulation ends" % r.msg)]
        if k in ("internal", "error"):
            raise HarnessError("%s: exit %s signal %s %s %s" % (k, r.exit, r.signal, r.msg, r.error))
        out = []
        prop = self.prop
        if k in ("hang", "no-progress") and self.heavy(case, plan):
            raise TooLarge("the case is too long to be simulated")
        if k is not None:
            out.append((k, "the run ended with %s (exit %s, signal %s)%s" % (k, r.exit, r.signal, r.msg)))
        for x in r.reports:
            out.append((x["kind"], report_text(x)))
        if getattr(prop, "IGNORE", None):
            out = [x for x in out if x[0] not in prop.IGNORE]
        if k is None:
            try:
                out += prop.judge(self, case, plan, r)
            except simapi.ReferenceCrash as e:
                out.append(("reference crash", str(e)))
        return out

    def heavy(self, case, plan):
        """whether a case that did not end within its bounds is only long: decided by a run without preemptions and faults, and if
        that does not end either, by a run without simulation"""
        prop = self.prop
        k = "heavy:" + json.dumps(case, sort_keys=True)
        if k not in self.cache:
            r = simapi.run(lambda s: prop.execute(s, case, {"cfg": SEQCFG}), {"cfg": SEQCFG}, cpu=60, wall=400)
            if simapi.end_kind(r) in ("hang", "no-progress"):
                r = simapi.run(lambda s: prop.execute(simapi.Plain(), case, {"cfg": SEQCFG}), simulate=False, cpu=60, wall=400)
                if r.error:
                    raise HarnessError("a run without simulation: " + r.error)
                self.cache[k] = not (r.timeout or r.signal is not None)
            else:
                self.cache[k] = r.stats["steps"] > 10000000
        return self.cache[k]

    def runaway(self, case):
        """whether a case that needs more memory than a simulated run has does not end within its bounds without simulation either"""
        k = "runaway:" + json.dumps(case, sort_keys=True)
        if k not in self.cache:
            def plain(s):
                limit = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize() + (3 << 30)
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
                return self.prop.execute(simapi.Plain(), case, {"cfg": SEQCFG})
            r = simapi.run(plain, simulate=False, cpu=60, wall=200)
            self.cache[k] = bool(r.timeout or r.signal is not None or r.error or "MemoryError" in json.dumps(r.value))
        return self.cache[k]

    def check(self, case, plan, nontrivial=None):
        """one run and its verdict; raises Found after confirming and minimising"""
        r = self.raw(case, plan)
        self.last = r
        bad = self.problems(case, plan, r)
        nt = (r.stats["switches"] > 0 or r.stats["afail"] + r.stats["tfail"] + r.stats["outfail"] + r.stats["jump"] > 0) if nontrivial is None else nontrivial
        if nt:
            c = plan.get("cfg", {})
            env = [c.get(k) for k in ("fill", "layout", "reuse", "env")] + [plan.get("locale")]
            self.states.add(r.hash + (repr(env) if any(env) else ""))
        if len(self.samples) < 1 and nt:
            self.samples.append({"case": case, "plan": {k: v for k, v in plan.items() if v}, "hash": r.hash, "steps": r.stats["steps"],
                                 "context_switches": r.stats["switches"]})
        if bad:
            raise Found(minimise(self, case, plan, r, bad))
        return r


def report_text(x):
    if x["kind"] == "race":
        return "unsynchronized accesses by threads %d (%s at +0x%x) and %d (%s at +0x%x)" % (
            x["t1"], "write" if x["w1"] & 1 else "read", x["pc1"], x["t2"], "write" if x["w2"] & 1 else "read", x["pc2"])
    return "%s by thread %d at +0x%x" % (x["kind"], x["t1"], x["pc1"])


# ------------------------------------------------------------------ minimisation
def kinds(bad):
    return sorted({b[0] for b in bad})


def attempt(ctx, case, plan, want):
    """the problems of one more run if they include one of the wanted kinds"""
    try:
        r = ctx.raw(case, plan)
        bad = ctx.problems(case, plan, r)
    except (HarnessError, TooLarge, RuntimeError):
        return None, None
    if bad and set(kinds(bad)) & set(want):
        return r, bad
    return None, None


def ddmin(items, test, budget):
    """smaller list for which test still holds"""
    n = 2
    while items and time.monotonic() < budget:
        size = max(1, len(items) // n)
        cut = False
        for a in range(0, len(items), size):
            rest = items[:a] + items[a + size:]
            if time.monotonic() > budget:
                break
            if test(rest):
                items, cut = rest, True
                n = max(n - 1, 2)
                break
        if not cut:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(ctx, case, plan, r, bad):
    want = kinds(bad)
    t0 = time.monotonic()
    budget = t0 + getattr(ctx.prop, "MINIMISE_S", 25)
    # 1. the same plan must give the same run
    stable = True
    for _ in range(2):
        r2, b2 = attempt(ctx, case, plan, want)
        if r2 is None:
            stable = False
            ctx.unstable = "hashes %s, %s; second run: %s" % (r.hash, r2 and r2.hash, b2)
            break
    best = (case, plan, r, bad)
    if not stable:
        return record(ctx, best, stable=False, note=ctx.unstable[:600])
    # 2. smaller case
    shrink = getattr(ctx.prop, "shrink", None)
    tries = 0
    if shrink:
        progress = True
        while progress and time.monotonic() < budget:
            progress = False
            for c2, p2 in shrink(best[0], best[1]):
                if time.monotonic() > budget or tries > 400:
                    break
                tries += 1
                r2, b2 = attempt(ctx, c2, p2, want)
                if r2 is not None:
                    best = (c2, p2, r2, b2)
                    progress = True
                    break
    # 3. explicit schedule, then fewer deviations and faults
    case, plan, r, bad = best
    if r.devs is not None and plan.get("cfg", {}).get("policy") != REPLAY:
        cfg = dict(plan.get("cfg", {}), policy=REPLAY)
        p2 = dict(plan, cfg=cfg, devs=r.devs)
        r2, b2 = attempt(ctx, case, p2, want)
        if r2 is not None:
            best = (case, p2, r2, b2)
            best = shrink_list(ctx, best, "devs", want, budget)
    for key in ("faults", "opfaults"):
        if best[1].get(key):
            best = shrink_list(ctx, best, key, want, budget)
    # 4. the result must repeat
    r2, b2 = attempt(ctx, best[0], best[1], want)
    if r2 is None or (r2.hash != best[2].hash and "hang" not in want):
        best = (case, plan, r, bad)
        return record(ctx, best, stable=True, note="minimised run did not repeat; the original run is kept")
    return record(ctx, best, stable=True)


def shrink_list(ctx, best, key, want, budget):
    state = {"best": best}

    def test(items):
        p = dict(best[1])
        p[key] = items
        r2, b2 = attempt(ctx, best[0], p, want)
        if r2 is None:
            return False
        state["best"] = (best[0], p, r2, b2)
        return True
    if test([]):
        return state["best"]
    ddmin(list(best[1][key]), test, budget)
    return state["best"]


def record(ctx, best, stable, note=""):
    case, plan, r, bad = best
    return {"property": ctx.pid, "case": case, "plan": plan, "violations": [list(b) for b in bad], "kinds": kinds(bad), "hash": r.hash,
            "steps": r.stats["steps"], "switches": r.stats["switches"], "stable": stable, "note": note, "job": ctx.index, "seed": ctx.seed}
