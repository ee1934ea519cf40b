"""C03: workers of a contraction never race on shared state or touch freed memory."""
import core
import gen
import interp
import model
from props import common

LEVEL = "exploration"
JOBS = {"quick": 128, "thorough": 5000}
RULE = ("threaded contractions at every print level, with and without failing allocations and thread launches, repeated on one engine "
        "and followed by the destruction of engine and operands, under seeded schedules; every memory access of the library is checked "
        "against vector clocks and freed memory is poisoned; non-trivial: at least one context switch")
LEVELS = ["none", "none", "none", "basic", "summary", "detailed", "all"]
ASSUMPTIONS = ["accesses made by libstdc++.so and CPython on behalf of the library are not tracked"]


def execute(sim, case, plan):
    interp.define(case["tab"])
    e = interp.engine(case["settings"])
    ops = [common.build_query(q) for q in case["queries"]]
    n = 0
    sim.begin()
    for q, o in zip(case["queries"], ops):
        try:
            x = common.contract(e, q, o)
            n += len(x)
            str(x)
            e.timers()
        except Exception:
            n += 1000
        x = None
    e = None
    ops = o = None
    sim.drain()
    return n


def judge(ctx, case, plan, r):
    return []


def shrink(case, plan):
    for c in common.shrink_case(case):
        yield c, plan


def job(ctx):
    rng = ctx.rng
    large = ctx.index % 16 == 0
    for _ in range(1 if large else 3):
        if ctx.late():
            return
        for attempt in range(60):
            tab = gen.gen_table(rng)
            qs = [common.contraction_query(rng, tab, rng.choice([8, 10]) if large else rng.choice([4, 6, 6, 8]), rng.choice([1, 2, 2, 3]),
                                           rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 1, 2]))]
            try:
                size = max(len(common.model_result(tab, [], q, 250 if large else 40)) for q in qs)
            except model.TooBig:
                continue
            if size < (60 if large else 2):
                continue
            break
        ss = [x for x in common.settings(rng, True) if x[0] != "cumulant"]
        lv = rng.choice(LEVELS)
        if lv != "none":
            ss.append(["print", lv])
            ctx.count("print level " + lv)
        case = {"tab": tab, "queries": qs, "settings": ss}
        ctx.stats["cases"] += 1
        r = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        scale, na, nc = max(100, r.stats["steps"]), r.stats["alloc"], r.stats["create_attempt"]
        for k in range(1 if scale > 8000000 else 2 if scale > 2000000 else 6):
            plan = {"cfg": core.cfg_for(rng, scale=scale)}
            if k % 3 == 2 and na:
                plan["faults"] = [[6, 0xFFFFFFFF, rng.randrange(na), 1, 0]]
                if nc and rng.random() < 0.4:
                    plan["faults"] = [[7, 0xFFFFFFFF, rng.randrange(nc), 1, 0]]
            ctx.check(case, plan)
