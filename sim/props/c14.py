"""C14: every contraction completes: no deadlock, lost wakeup or stranded worker."""
import core
import gen
import interp
import model
from props import common

LEVEL = "exploration"
JOBS = {"quick": 120, "thorough": 5000}
RULE = ("contractions repeated on one engine under seeded schedules with threads stalled at seeded points for up to the whole length of "
        "the run, 1 to 64 processors, failed thread launches and allocations; a run must end without deadlock within a number of steps "
        "proportional to the sequential run; at each return the engine and the operators are destroyed and whatever still runs is let "
        "go on: it may not do any work nor touch them; non-trivial: at least one context switch or fault")
ALL = 1 << 40


def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    interp.define(case["tab"])
    qs = case["queries"]
    sim.begin()
    out = []
    # everything the calls need is built up front: an armed fault only meets contractions
    built = [common.build_query(qs[qi]) for qi, _ in case["calls"]]
    engines = []
    for k, (_, destroy) in enumerate(case["calls"]):
        engines.append(interp.engine(case["settings"]) if k == 0 or case["calls"][k - 1][1] else engines[-1])
    for k, (qi, destroy) in enumerate(case["calls"]):
        q = qs[qi]
        e, ops = engines[k], built[k]
        engines[k] = built[k] = None
        a0, c0, n0 = sim.allocs, sim.creates, sim.ctr("afail") + sim.ctr("tfail")
        for kind, nth, count in faults.get(k, []):
            sim.fault(kind, 0xFFFFFFFF, (a0 if kind == 6 else c0) + nth, count)
        s0 = sim.steps
        try:
            x = common.contract(e, q, ops)
        except Exception as ex:
            x = "!" + type(ex).__name__
        s1 = sim.steps
        if case["keepfaults"] is False:
            sim.clear_faults()
        a1, c1 = sim.allocs, sim.creates
        fired = sim.ctr("afail") + sim.ctr("tfail") - n0
        e = ops = None  # the operators, and the engine if no later call uses it, go at once
        s2 = sim.steps
        idle = sim.drain()
        s3 = sim.steps
        v = x if isinstance(x, str) else repr(x)
        x = None
        out.append([v, s1 - s0, s3 - s2, fired, a1 - a0, c1 - c0, idle])
    sim.clear_faults()
    return out


def judge(ctx, case, plan, r):
    bad = []
    base = ctx.cache.get("base" + repr(case))
    stall = sum(f[4] for f in plan.get("faults", []) if f[0] == 5)
    for k, ((qi, destroy), v) in enumerate(zip(case["calls"], r.value)):
        q = case["queries"][qi]
        want = ctx.oracle(lambda: common.fresh(case["tab"], case["settings"], q)[2:], [case["tab"], case["settings"], q])
        if v[0] != want and not (v[3] and v[0].startswith("!")):
            bad.append(("wrong result", "call %d returned %s instead of %s" % (k, v[0], want)))
        if v[2] > 300:
            bad.append(("stranded worker", "%d steps of work were done for call %d after it returned" % (v[2], k)))
        if base and v[1] > 8 * base[k] + 12 * stall + 200000:
            bad.append(("too many steps", "call %d took %d steps, the sequential run %d" % (k, v[1], base[k])))
    return bad


def shrink(case, plan):
    cs = case["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            fs = [f if f[0] < i else [f[0] - 1] + f[1:] for f in plan.get("opfaults", []) if f[0] != i]
            yield dict(case, calls=cs[:i] + cs[i + 1:]), dict(plan, opfaults=fs)
    for i, q in enumerate(case["queries"]):
        for q2 in common.shrink_query(q):
            yield dict(case, queries=case["queries"][:i] + [q2] + case["queries"][i + 1:]), plan


def stalls(rng, nthreads, steps):
    """threads that stop somewhere for a while"""
    fs = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        t = rng.randint(0, max(1, nthreads))
        at = rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, max(1, steps // max(1, nthreads)))])
        fs.append([5, t, at, 1, rng.choice([100, steps // 4 + 1, steps + 1000, 4 * steps + 1000])])
    return fs


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        for _ in range(60):
            tab = gen.gen_table(rng, 3)
            qs = [common.contraction_query(rng, tab, rng.choice([4, 4, 6, 6, 8]), rng.choice([1, 2, 2]), rng.choice([1, 1, 2, 3])) for _ in range(rng.choice([1, 2]))]
            try:
                sizes = [len(common.model_result(tab, [], q, 60)) for q in qs]
            except model.TooBig:
                continue
            if max(sizes) < 1 and rng.random() < 0.8:
                continue
            break
        ss = common.settings(rng, True if rng.random() < 0.95 else False)
        if rng.random() < 0.1:
            ss.append(["print", rng.choice(["basic", "summary", "all"])])
        case = {"tab": tab, "queries": qs, "settings": ss, "keepfaults": rng.random() < 0.2,
                "calls": [[rng.randrange(len(qs)), rng.random() < 0.6] for _ in range(rng.choice([1, 1, 2, 3]))]}
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        ctx.cache["base" + repr(case)] = [v[1] for v in base.value]
        scale = max(100, base.stats["steps"])
        nt = base.stats["threads"]
        for i in range((3 if scale > 3000000 else 8) if ctx.quick else 40):
            if ctx.late():
                return
            plan = {"cfg": core.cfg_for(rng, scale=scale)}
            if rng.random() < 0.75:
                plan["faults"] = stalls(rng, nt, scale)
            if i % 3 == 2:
                fs = []
                for k, v in enumerate(base.value):
                    if v[5] and rng.random() < 0.7:
                        fs.append([k, 7, rng.randrange(v[5]), rng.choice([1, 1, 2, ALL])])
                    elif v[4] and rng.random() < 0.5:
                        fs.append([k, 6, rng.randrange(v[4]), rng.choice([1, 1, 3, ALL])])
                plan["opfaults"] = fs
            r = ctx.check(case, plan)
            if r.stats["stall"]:
                ctx.count("runs in which a thread was stalled")
