"""C01: contract() equals the generalized Wick expansion under every schedule."""
import json

import core
import gen
import interp
import model
import simapi
from props import common

LEVEL = "exploration"
JOBS = {"quick": 160, "thorough": 6000}
RULE = ("seeded operator products (1-4 spaces, 2-4 operators, sums of products, odd ranks, repeated operators), rank windows and "
        "cumulant limits, with some of up to 24 legs, 20 of them contracted, and some of up to 1600 terms, each contracted under several seeded schedules and compared with the brute-force reference expansion; a run "
        "is non-trivial if at least one context switch happened")
ASSUMPTIONS = ["the reference expansion enumerates at most 3000 contraction patterns per product"]


def make_case(rng, large):
    for _ in range(200):
        tab = gen.gen_table(rng)
        ss = common.settings(rng)
        if large:
            ncomp = rng.choice([1, 2, 3])
            q = [common.contraction_query(rng, tab, rng.choice([8, 10, 10]), 3 if rng.random() < 0.4 else 2, ncomp, sums=False)]
            q[0]["min"], q[0]["max"] = rng.choice([(0, 12), (0, 0), (0, 4), (2, 6)])
        elif rng.random() < 0.25:  # many small operators, or few large ones
            if rng.random() < 0.5:
                q = [common.contraction_query(rng, tab, rng.choice([10, 12]), rng.choice([1, 1, 2]), 1, nops=rng.choice([4, 5, 6]), odd=0.4, sums=False)]
            else:
                q = [common.contraction_query(rng, tab, rng.choice([12, 14]), 3, 1, nops=rng.choice([2, 2, 3]), odd=0.1, sums=False)]
        else:
            q = [common.contraction_query(rng, tab, rng.choice([4, 6, 8, 8, 10]), rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2]))
                 for _ in range(rng.choice([1, 1, 2]))]
        try:
            sizes = [len(common.model_result(tab, ss, x, 450 if large else 120)) for x in q]
        except model.TooBig:
            continue
        if large and max(sizes) < 70:
            continue
        if max(sizes) == 0 and rng.random() < 0.8:
            continue
        return {"tab": tab, "settings": ss, "queries": q}
    return {"tab": gen.STANDARD[0], "settings": [], "queries": [common.contraction_query(rng, gen.STANDARD[0])]}


def deep_case(rng):
    """few terms, but many legs contracted in every one of them"""
    while True:
        tab = gen.gen_table(rng)
        ss = common.settings(rng)
        q = common.contraction_query(rng, tab, rng.choice([14, 16, 18, 20, 24]), rng.choice([4, 5, 6]), 1, nops=rng.choice([2, 2, 3]), odd=0.1, sums=False)
        if rng.random() < 0.7:
            q["min"], q["max"] = rng.choice([(0, 0), (0, 2), (0, 4), (1, 1), (2, 2)])
        try:
            n = len(common.model_result(tab, ss, q, 250))
        except model.TooBig:
            continue
        legs = sum(max(gen.nlegs(c) for c in o[1]) for o in q["parts"][0][1])
        if n and legs - q["max"] >= rng.choice([8, 12, 14, 16]):
            return {"tab": tab, "settings": ss, "queries": [q]}


def wide_case(rng):
    """many terms"""
    while True:
        tab = gen.gen_table(rng)
        ss = common.settings(rng)
        q = common.contraction_query(rng, tab, rng.choice([10, 12, 12]), 2, rng.choice([1, 2, 3]), nops=rng.choice([3, 4, 4]), odd=0.1, sums=False)
        q["min"], q["max"] = rng.choice([(0, 100), (0, 100), (0, 8), (0, 4), (2, 6)])
        try:
            n = len(common.model_result(tab, ss, q, 1600))
        except model.TooBig:
            continue
        if n >= 300:
            return {"tab": tab, "settings": ss, "queries": [q]}


def execute(sim, case, plan):
    interp.define(case["tab"])
    e = interp.engine(case["settings"])
    ops = [common.build_query(q) for q in case["queries"]]
    res = []
    sim.begin()
    for q, o in zip(case["queries"], ops):
        try:
            res.append(common.contract(e, q, o))
        except Exception as x:
            res.append(["!", type(x).__name__, str(x)])
    sim.end()
    return [r if isinstance(r, list) else {"nf": model.expr_obs(r), "s": repr(r)} for r in res]


def judge(ctx, case, plan, r):
    out = []
    for k, (q, v) in enumerate(zip(case["queries"], r.value)):
        want = common.model_result(case["tab"], case["settings"], q, 3000)
        if isinstance(v, list):
            out.append(("exception", "contraction %d raised %s: %s" % (k, v[1], v[2])))
            continue
        key = json.dumps([case, k, v["nf"]], sort_keys=True)
        if key == ctx.cache.get(("ok", k)):  # the previous run of this case returned the same
            continue
        try:
            got = model.obs_normal_form(v["nf"])
        except ValueError as e:
            out.append(("wrong result", "contraction %d returned the malformed expression %s (%s)" % (k, v["s"], e)))
            continue
        if got != want:
            out.append(("wrong result", "contraction %d returned %s; differences (returned, expected): %s" % (k, v["s"], common.diff_nf(got, want))))
        else:
            ctx.cache[("ok", k)] = key
    return out


def shrink(case, plan):
    for c in common.shrink_case(case):
        try:
            for q in c["queries"]:
                common.model_result(c["tab"], c["settings"], q, 3000)
        except model.TooBig:
            continue
        yield c, plan


def job(ctx):
    rng = ctx.rng
    if ctx.index % 16 in (4, 8, 12):
        for _ in range(2 if ctx.index % 16 == 8 else 3):
            if ctx.late():
                return
            wide = ctx.index % 16 == 8
            case = wide_case(rng) if wide else deep_case(rng)
            if not common.fits(execute, case, 110000000 if wide else 8000000):
                continue
            ctx.stats["cases"] += 1
            ctx.count("cases of many terms" if wide else "cases of deep contractions")
            plan = {"cfg": dict(core.SEQCFG)}
            if wide:  # too long to watch every access of
                plan["cfg"]["race"] = 0
            r = ctx.check(case, plan)
            ctx.maximum["terms of a result"] = max(ctx.maximum.get("terms of a result", 0), len(r.value[0]["nf"]) if isinstance(r.value[0], dict) else 0)
            if r.stats["steps"] < 4000000:
                ctx.check(case, {"cfg": core.cfg_for(rng, scale=max(100, r.stats["steps"]))})
        return
    ncases = 1 if ctx.index % 8 == 0 else 4
    for _ in range(ncases):
        if ctx.late():
            return
        case = make_case(rng, ctx.index % 8 == 0)
        ctx.stats["cases"] += 1
        r = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        scale = max(100, r.stats["steps"])
        for _ in range(1 if scale > 8000000 else 3 if scale > 1000000 else 5):
            ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale)})
