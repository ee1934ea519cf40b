"""C02: execution mode, graph canonicalization and printing never change the result."""
import json

import core
import gen
import interp
import model
from props import common

LEVEL = "exploration"
JOBS = {"quick": 112, "thorough": 4000}
RULE = ("one engine whose settings are changed in seeded order between contractions; every result is compared with the one of a fresh "
        "process in single-threaded mode without printing, and with the value (normal form) of the run without graph canonicalization; "
        "non-trivial: at least one context switch")
LEVELS = ["none", "basic", "summary", "detailed", "all"]


def gen_steps(rng, n):
    steps = []
    for k in range(n):
        ch = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if k else rng.choice([0, 1, 2, 4])):
            ch.append(rng.choice([["single", rng.random() < 0.5], ["print", rng.choice(LEVELS)], ["canon", rng.random() < 0.5],
                                  ["cumulant", rng.choice([1, 2, 3, 100])]]))
        steps.append(ch)
    return steps


def reference(ss):
    """settings of the reference run: single-threaded, silent"""
    return [["cumulant", common.setting(ss, "cumulant", 100)], ["canon", common.setting(ss, "canon", True)], ["single", True]]


def fresh(ctx, tab, ss, q):
    def f():
        interp.define(tab)
        e = interp.engine(ss)
        x = common.contract(e, q, common.build_query(q))
        return [repr(x), model.expr_obs(x)]
    return ctx.oracle(f, [tab, ss, q])


def execute(sim, case, plan):
    interp.define(case["tab"])
    e = interp.w.WickTheorem()
    ops = [common.build_query(q) for q in case["queries"]]
    out = []
    sim.begin()
    for k, ch in enumerate(case["steps"]):
        i = k % len(ops)
        interp.configure(e, ch)
        c0, w0 = sim.creates, sim.out_writes
        try:
            x = common.contract(e, case["queries"][i], ops[i])
            v = [repr(x), len(x)]
        except Exception as ex:
            v = ["!" + type(ex).__name__, 0]
        x = None
        out.append(v + [sim.creates - c0, sim.out_writes - w0])
    return out


def judge(ctx, case, plan, r):
    bad = []
    ss = []
    for k, (ch, v) in enumerate(zip(case["steps"], r.value)):
        ss = ss + ch
        q = case["queries"][k % len(case["queries"])]
        want = fresh(ctx, case["tab"], reference(ss), q)
        other = fresh(ctx, case["tab"], [["cumulant", common.setting(ss, "cumulant", 100)], ["canon", not common.setting(ss, "canon", True)],
                                         ["single", True]], q)
        if v[0] != want[0]:
            bad.append(("different result", "contraction %d with settings %s returned %s, single-threaded and silent %s" % (k, effective(ss), v[0], want[0])))
        elif want[0] != other[0]:
            ck = json.dumps([case["tab"], ss[-8:], q])
            if ctx.cache.get(ck) is None:
                try:
                    a, b = model.obs_normal_form(want[1]), model.obs_normal_form(other[1])
                    ctx.cache[ck] = [] if a == b else [json.dumps(common.diff_nf(a, b))]
                except ValueError as e:
                    ctx.cache[ck] = ["malformed: %s" % e]
            if ctx.cache[ck]:
                bad.append(("value depends on canonicalization", "contraction %d, graph canonicalization %s/%s: %s vs %s, differing terms %s" % (
                    k, common.setting(ss, "canon", True), not common.setting(ss, "canon", True), want[0], other[0], ctx.cache[ck][0])))
        if common.setting(ss, "single", False) and v[2]:
            bad.append(("setting ignored", "contraction %d in single-threaded mode started %d threads" % (k, v[2])))
        if common.setting(ss, "print", "none") in ("summary", "detailed", "all") and not v[3] and not v[0].startswith("!"):
            bad.append(("setting ignored", "contraction %d at print level %s printed nothing" % (k, common.setting(ss, "print", "none"))))
        if common.setting(ss, "print", "none") == "none" and v[3]:
            bad.append(("setting ignored", "contraction %d at print level none printed %d times" % (k, v[3])))
    return bad


def effective(ss):
    return {k: common.setting(ss, k, None) for k in ("single", "print", "canon", "cumulant")}


def shrink(case, plan):
    st = case["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            nxt = st[:i] + st[i + 1:]
            if i < len(st) - 1:
                nxt[i] = st[i] + nxt[i]
            yield dict(case, steps=nxt), plan
            yield dict(case, steps=st[:i]) if i else dict(case, steps=st[:1]), plan
        for j in range(len(st[i])):
            yield dict(case, steps=st[:i] + [st[i][:j] + st[i][j + 1:]] + st[i + 1:]), plan
    for c in common.shrink_case(case):
        yield c, plan


def big_case(ctx):
    """deep contractions or many terms; alternating modes. No model is needed: the reference is the library in single-threaded mode"""
    rng = ctx.rng
    for _ in range(200):
        tab = gen.gen_table(rng)
        if rng.random() < 0.5:
            q = common.contraction_query(rng, tab, rng.choice([14, 16, 18, 20]), rng.choice([4, 5, 6]), 1, nops=rng.choice([2, 2, 3]), odd=0.1, sums=False)
            q["min"], q["max"] = rng.choice([(0, 0), (0, 2), (0, 4), (1, 1), (2, 2)])
        else:
            q = common.contraction_query(rng, tab, rng.choice([10, 12, 12]), 2, rng.choice([1, 2, 3]), nops=rng.choice([3, 4, 4]), odd=0.1, sums=False)
        ch = [["single", rng.random() < 0.5], ["canon", rng.random() < 0.5]]
        try:
            n = len(common.model_result(tab, [], q, 900))
        except model.TooBig:
            continue
        case = {"tab": tab, "queries": [q], "steps": [ch, [["single", not ch[0][1]]], [["canon", not ch[1][1]]]][:2 if n > 200 else 3]}
        legs = sum(max(gen.nlegs(c) for c in o[1]) for o in q["parts"][0][1])
        if not n or (n < 100 and legs - q["max"] < 10):
            continue
        if common.fits(execute, case, 40000000 if n > 200 else 8000000):
            return case
    return None


def job(ctx):
    rng = ctx.rng
    if ctx.index % 4 == 3:
        for _ in range(2):
            case = big_case(ctx)
            if ctx.late() or not case:
                return
            ctx.stats["cases"] += 1
            ctx.count("cases of deep contractions or many terms")
            r = ctx.check(case, {"cfg": dict(core.SEQCFG, race=0)})
            if r.stats["steps"] < 3000000:
                ctx.check(case, {"cfg": core.cfg_for(rng, scale=max(100, r.stats["steps"]))})
        return
    for _ in range(4):
        if ctx.late():
            return
        for attempt in range(60):
            tab = gen.gen_table(rng)
            qs = [common.contraction_query(rng, tab, rng.choice([4, 6, 8, 8]), rng.choice([1, 2, 2, 3]), rng.choice([1, 1, 2])) for _ in range(rng.choice([1, 2]))]
            try:
                size = max(len(common.model_result(tab, [], q, 60)) for q in qs)
            except model.TooBig:
                continue
            if size < 2 and rng.random() < 0.9:
                continue
            # prefer products whose canonicalized and plain expansions are written differently
            a, b = fresh(ctx, tab, reference([]), qs[0]), fresh(ctx, tab, reference([["canon", False]]), qs[0])
            if a[0] == b[0] and rng.random() < 0.7:
                continue
            if a[0] != b[0]:
                ctx.count("canonicalization changes the printed form")
            break
        case = {"tab": tab, "queries": qs, "steps": gen_steps(rng, rng.randint(3, 8))}
        ctx.stats["cases"] += 1
        r = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        scale = max(100, r.stats["steps"])
        for _ in range(3 if scale < 3000000 else 1):
            ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale)})
