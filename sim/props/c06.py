"""C06: timers stay non-negative, monotone and bounded by elapsed time."""
import core
import gen
import interp
import model
from props import common

LEVEL = "exploration"
JOBS = {"quick": 96, "thorough": 4000}
RULE = ("sequences of contractions on one engine with wall-clock steps (forward and backward, seconds to years) at seeded clock reads, "
        "stalled workers and seeded schedules; timers and the simulated clock are read around every call; a second kind of run freezes "
        "the clock between clock reads so that a lost timer update shows as a smaller total than in single-threaded mode; non-trivial: a "
        "context switch or a clock step happened")
PER_CALL = "step"
SLACK = 1e-9


def execute(sim, case, plan):
    interp.define(case["tab"])
    e = interp.engine(case["settings"])
    ops = [common.build_query(q) for q in case["queries"]]
    out = []
    sim.begin()
    for q, o, on in zip(case["queries"], ops, case["single"]):
        e.set_single_threaded(on)
        t0, n0, c0 = sim.now_ns, sim.nthreads, sim.creates
        try:
            x = repr(common.contract(e, q, o))
        except Exception as ex:
            x = "!" + type(ex).__name__
        t1 = sim.now_ns
        out.append([x, t1 - t0, sim.creates - c0, dict(e.timers())])
    return out


def judge(ctx, case, plan, r):
    bad = []
    prev = {}
    tick = plan["cfg"].get("step_ns", 1) == 0
    for k, (q, v) in enumerate(zip(case["queries"], r.value)):
        x, ns, threads, tm = v
        want = ctx.oracle(lambda: common.fresh(case["tab"], case["settings"] + [["single", True]], q), [case["tab"], case["settings"], q])
        want = want[2:] if isinstance(want, str) else "!" + want[1]
        if x != want:
            bad.append(("wrong result", "contraction %d returned %s instead of %s" % (k, x, want)))
        sec = ns * 1e-9
        workers = max(1, threads)
        for name, t in sorted(tm.items()):
            d = t - prev.get(name, 0.0)
            eps = SLACK + 1e-12 * abs(t) * 1e3
            if t < 0:
                bad.append(("negative timer", "timer %s is %r after contraction %d" % (name, t, k)))
            if d < -eps:
                bad.append(("timer decreased", "timer %s went from %r to %r in contraction %d" % (name, prev.get(name), t, k)))
            bound = sec if name.startswith(PER_CALL) else sec * workers
            if d > bound + eps:
                bad.append(("timer too large", "timer %s grew by %r s in contraction %d that took %r s with %d workers" % (name, d, k, sec, workers)))
        for name in prev:
            if name not in tm:
                bad.append(("timer lost", "timer %s disappeared in contraction %d" % (name, k)))
        if tick:  # every timed section lasts at least as long as when it runs alone
            alone = serial(ctx, case, plan)[k]
            for name, s in sorted(alone.items()):
                d = tm.get(name, 0.0) - prev.get(name, 0.0)
                if d < s - SLACK:
                    bad.append(("lost time", "timer %s grew by %r s in contraction %d; the same contraction alone accounts for %r s" % (name, d, k, s)))
        prev = tm
    return bad


def serial(ctx, case, plan):
    """growth of each timer per contraction in single-threaded mode on the same frozen clock"""
    key = "serial" + repr(case) + repr(plan["cfg"].get("tick_ns"))
    if key not in ctx.cache:
        c2 = dict(case, single=[True] * len(case["single"]))
        r = ctx.raw(c2, {"cfg": {"policy": 0, "seed": 1, "step_ns": 0, "tick_ns": plan["cfg"].get("tick_ns", 1000)}})
        prev, out = {}, []
        for v in r.value or []:
            out.append({n: t - prev.get(n, 0.0) for n, t in v[3].items()})
            prev = v[3]
        ctx.cache[key] = out
    return ctx.cache[key]


def shrink(case, plan):
    n = len(case["queries"])
    if n > 1:
        for i in range(n):
            yield dict(case, queries=case["queries"][:i] + case["queries"][i + 1:], single=case["single"][:i] + case["single"][i + 1:]), plan
    for c in common.shrink_case(case):
        if len(c["queries"]) == len(case["queries"]):
            yield c, plan


def job(ctx):
    rng = ctx.rng
    for _ in range(3):
        if ctx.late():
            return
        for attempt in range(60):
            tab = gen.gen_table(rng)
            n = rng.randint(1, 4)
            qs = [common.contraction_query(rng, tab, rng.choice([4, 6, 6, 8]), rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])) for _ in range(n)]
            try:
                size = max(len(common.model_result(tab, [], q, 40)) for q in qs)
            except model.TooBig:
                continue
            if size >= 2:
                break
        ss = [x for x in common.settings(rng, True) if x[0] == "canon"]
        case = {"tab": tab, "queries": qs, "settings": ss, "single": [rng.random() < 0.2 for _ in qs]}
        ctx.stats["cases"] += 1
        r = ctx.check(case, {"cfg": dict(core.SEQCFG, step_ns=100)})
        scale, reads = max(100, r.stats["steps"]), r.stats["clock"]
        for k in range(2 if scale > 4000000 else 7):
            cfg = core.cfg_for(rng, scale=scale)
            plan = {"cfg": cfg}
            if k % 3 == 0:  # frozen clock
                cfg.update(step_ns=0, tick_ns=rng.choice([1000, 1000000, 1000000000]))
                if rng.random() < 0.6:
                    cfg.update(policy=core.CONFLICT if rng.random() < 0.5 else core.GAP, prob=rng.choice([1, 2]), gap=rng.choice([1, 3, 10]))
            else:
                cfg.update(step_ns=rng.choice([1, 100, 10000]), tick_ns=rng.choice([0, 20, 1000]))
            fs = []
            if reads and (k % 3 or rng.random() < 0.5):
                for _ in range(rng.randint(1, 4)):
                    fs.append([3, 0, rng.randrange(reads), 1, rng.choice([-1, 1]) * rng.choice([10 ** 6, 10 ** 9, 3600 * 10 ** 9, 10 ** 9 * 86400 * 300])])
            if r.stats["threads"] and rng.random() < 0.5 and k % 3:
                for _ in range(rng.randint(1, 2)):
                    fs.append([5, rng.randrange(r.stats["threads"] + 1), rng.randrange(max(1, scale // (r.stats["threads"] + 1))), 1,
                               rng.choice([1000, 100000, 2000000])])
            plan["faults"] = fs
            ctx.check(case, plan)
