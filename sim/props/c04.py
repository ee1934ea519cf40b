"""C04: a failed thread launch or allocation in contract() never yields a partial result."""
import core
import gen
import interp
import model
from props import common

LEVEL = "fault_enumeration"
JOBS = {"quick": 80, "thorough": 2400}
RULE = ("per case one fault-free run counts the allocations and thread launches of the contraction; then single faults, bursts and "
        "permanent failures are placed at every one of them (thorough) or at a stratified sample (quick), under seeded schedules; "
        "each faulted call is repeated three times and then made without the fault; non-trivial: the fault fired")
ALL = 1 << 40


def execute(sim, case, plan):
    interp.define(case["tab"])
    e = interp.engine(case["settings"])
    q = case["queries"][0]
    ops = common.build_query(q)
    sim.begin()

    def call(fault):
        a0, c0, n0 = sim.allocs, sim.creates, sim.ctr("afail") + sim.ctr("tfail")
        if fault:
            for _, kind, nth, count in plan.get("opfaults", []):
                sim.fault(kind, 0xFFFFFFFF, (a0 if kind == 6 else c0) + nth, count)
        try:
            x = common.contract(e, q, ops)
            v = repr(x) if not fault else x
        except Exception as ex:
            v = "!" + type(ex).__name__
        sim.clear_faults()
        a1, c1 = sim.allocs, sim.creates
        if not isinstance(v, str):
            v = repr(v)
        x = None
        where = [] if plan.get("opfaults") or out else sim.sites(a0, a1)
        s0 = sim.steps
        sim.drain()
        return [v, a1 - a0, c1 - c0, sim.steps - s0, sim.live, sim.ctr("afail") + sim.ctr("tfail") - n0, where]
    out = []
    out.append(call(False))
    for _ in range(case.get("reps", 3)):
        out.append(call(True))
    out.append(call(False))
    e = None
    ops = None
    sim.drain()
    return out + [sim.live]


def judge(ctx, case, plan, r):
    bad = []
    v = r.value
    exact = reference(ctx, case)
    faulted = v[1:-2]
    for k, x in enumerate(v[:-1]):
        what = "fault-free call" if k in (0, len(v) - 2) else "call with the fault"
        if x[0] != exact and not (x[0].startswith("!") and x[5]):
            bad.append(("wrong result", "%s %d returned %s instead of %s" % (what, k, x[0], exact)))
        if x[3] > 300:
            bad.append(("stranded worker", "%s %d: workers ran %d steps after it returned" % (what, k, x[3])))
    lives = [v[0][4]] + [x[4] for x in faulted]
    base = residual(ctx, case)
    if len(faulted) >= 3 and all(b > a for a, b in zip(lives[1:], lives[2:])) and v[-1] >= base + len(faulted) - 1 and all(x[5] for x in faulted):
        bad.append(("leak", "blocks in use after each call with the fault: %s; left at the end %d, without faults %d" % (lives, v[-1], base)))
    return bad


def reference(ctx, case):
    return ctx.oracle(lambda: (common.fresh(case["tab"], case["settings"], case["queries"][0]))[2:], [case["tab"], case["settings"], case["queries"]])


def residual(ctx, case):
    k = "residual" + repr(case)
    if k not in ctx.cache:
        r = ctx.raw(case, {"cfg": dict(core.SEQCFG)})
        ctx.cache[k] = r.value[-1] if r.value else 1 << 30
    return ctx.cache[k]


def shrink(case, plan):
    for c in common.shrink_case(case):
        yield c, plan


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        for attempt in range(80):
            tab = gen.gen_table(rng, 3)
            q = common.contraction_query(rng, tab, rng.choice([4, 4, 6, 6, 8]), rng.choice([1, 2, 2]), rng.choice([1, 1, 2]))
            try:
                size = len(common.model_result(tab, [], q, 30))
            except model.TooBig:
                continue
            if size < 1:
                continue
            break
        ss = common.settings(rng, None if rng.random() < 0.5 else True)
        if rng.random() < 0.15:
            ss.append(["print", rng.choice(["basic", "summary", "all"])])
        case = {"tab": tab, "queries": [q], "settings": ss, "reps": 3}
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        na, nc, where = base.value[0][1], base.value[0][2], base.value[0][6]
        scale = max(100, base.stats["steps"])
        ctx.count("allocation sites in the cases", na)
        ctx.count("thread launches in the cases", nc)
        heavy = scale > 3000000
        todo = []
        if nc:
            for n in (range(nc) if not ctx.quick else sorted({0, nc - 1, *[rng.randrange(nc) for _ in range(2 if heavy else 4)]})):
                todo.append([[0, 7, n, rng.choice([1, 1, 2, ALL])]])
        if na:
            k = (8 if heavy else 28) if ctx.quick else (150 if heavy else 600)
            if na <= k:
                ns = range(na)
            else:  # one in every stratum, and other places that ask for memory
                ns = sorted({core.pick(rng, na, where) if i & 1 and where else min(na - 1, int((i + rng.random()) * na / k)) for i in range(k)})
            for n in ns:
                todo.append([[0, 6, n, rng.choice([1, 1, 1, 2, 7, ALL])]])
        for _ in range(2 if ctx.quick else 10):
            if na and nc:
                todo.append([[0, 6, core.pick(rng, na, where), 1], [0, 7, rng.randrange(nc), 1]])
        for f in todo:
            if ctx.late():
                return
            threaded = nc > 0
            cfg = core.cfg_for(rng, scale=scale) if threaded and rng.random() < 0.8 else dict(core.SEQCFG)
            ctx.check(case, {"cfg": cfg, "opfaults": f})
