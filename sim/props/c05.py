"""C05: a Wick engine reused after any history behaves like a fresh one."""
import json

import core
import gen
import interp
import model
from props import common

LEVEL = "exploration"
JOBS = {"quick": 96, "thorough": 4000}
RULE = ("histories of 5-16 contractions, setting changes, orbital-space redefinitions and injected failures on one to three engines; every "
        "contraction made without a fault is compared with the same contraction in a fresh process with a fresh engine; non-trivial: at "
        "least one context switch or fault")


def gen_history(rng, ntab, nq, length, limited):
    cur = rng.randrange(ntab)
    h = [["table", cur]]
    ne = rng.choice([1, 1, 2, 3])
    for _ in range(length):
        x = rng.random()
        if x < 0.12:
            cur = rng.randrange(ntab)
            h.append(["table", cur])
        elif limited[cur] and x < 0.24:  # other limits between contractions whose result they change
            e, q = rng.randrange(ne), rng.choice(limited[cur])
            for n in rng.sample([0, 1, 1, 2, 3, 100], rng.randint(2, 3)):
                h += [["configure", e, ["cumulant", n]], ["contract", e, q]]
        elif x < 0.36:
            h.append(["configure", rng.randrange(ne), rng.choice([["cumulant", rng.choice([1, 2, 3, 100])], ["single", rng.random() < 0.5],
                                                                  ["canon", rng.random() < 0.5], ["print", rng.choice(["none", "none", "basic", "summary", "all"])]])])
        elif x < 0.43:
            h.append(["drop", rng.choice(["ops", "ops", "engine"]), rng.randrange(ne)])
        elif x < 0.46:
            h.append(["bad", rng.randrange(ne), rng.randrange(3)])
        else:
            h.append(["contract", rng.randrange(ne), rng.randrange(nq)])
            while rng.random() < 0.35:
                h.append(list(h[-1]) if rng.random() < 0.6 else ["contract", h[-1][1], rng.randrange(nq)])
    return h


def execute(sim, case, plan):
    w = interp.w
    engines = {}
    ops = {}
    cur = None
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    out = []
    sim.begin()
    for k, h in enumerate(case["history"]):
        v = None
        if h[0] == "table":
            cur = h[1]
            interp.define(case["tables"][cur])
        elif h[0] == "configure":
            e = engines.setdefault(h[1], None) or engines.update({h[1]: w.WickTheorem()}) or engines[h[1]]
            interp.configure(e, [h[2]])
        elif h[0] == "drop":  # objects made later can take their place in memory
            if h[1] == "ops":
                ops.clear()
            else:
                engines.pop(h[2], None)
        elif h[0] == "bad":  # calls that raise
            e = engines.setdefault(h[1], None) or engines.update({h[1]: w.WickTheorem()}) or engines[h[1]]
            try:
                if h[2] == 0:
                    e.contract(w.op("X", ["?+ ?"]), 0, 4)
                elif h[2] == 1:
                    e.contract(w.rational(1, 2), None, 0, 4)
                else:
                    e.contract(w.OperatorExpression(), 0, 4)
            except Exception as ex:
                v = "!" + type(ex).__name__
        else:
            e = engines.setdefault(h[1], None) or engines.update({h[1]: w.WickTheorem()}) or engines[h[1]]
            q = case["queries"][cur][h[2]]
            if (cur, h[2]) not in ops:
                ops[(cur, h[2])] = common.build_query(q)
            a0, c0, n0 = sim.allocs, sim.creates, sim.ctr("afail") + sim.ctr("tfail")
            for kind, nth, count in faults.get(k, []):
                sim.fault(kind, 0xFFFFFFFF, (a0 if kind == 6 else c0) + nth, count)
            try:
                x = common.contract(e, q, ops[(cur, h[2])])
            except Exception as ex:
                x = "!" + type(ex).__name__
            sim.clear_faults()
            a1, c1 = sim.allocs, sim.creates
            v = [x if isinstance(x, str) else repr(x), a1 - a0, c1 - c0, sim.ctr("afail") + sim.ctr("tfail") - n0, [] if faults else sim.sites(a0, a1, 500)]
            x = None
        out.append(v)
    return out


def judge(ctx, case, plan, r):
    bad = []
    ss = {}
    cur = None
    for k, (h, v) in enumerate(zip(case["history"], r.value)):
        if h[0] == "table":
            cur = h[1]
        elif h[0] == "configure":
            ss.setdefault(h[1], []).append(h[2])
        elif h[0] == "drop" and h[1] == "engine":
            ss.pop(h[2], None)
        elif h[0] == "contract":
            q = case["queries"][cur][h[2]]
            s = final(ss.get(h[1], []))
            want = ctx.oracle(lambda: common.fresh(case["tables"][cur], s, q), [case["tables"][cur], s, q])
            want = want[2:] if isinstance(want, str) else "!" + want[1]
            if v[0] != want and not (v[3] and v[0].startswith("!")):
                bad.append(("history dependent", "step %d, contraction of query %d on engine %d returned %s, on a fresh engine %s" % (k, h[2], h[1], v[0], want)))
    return bad


def final(ss):
    """the settings in force; silent, as printing is judged elsewhere"""
    d = {}
    for k, v in ss:
        d[k] = v
    d.pop("print", None)
    return [[k, d[k]] for k in sorted(d)]


def shrink(case, plan):
    h = case["history"]
    n = len(h)
    for size in (n // 2, n // 4, 2, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            h2 = h[:i] + h[i + size:]
            if not h2 or h2[0][0] != "table":
                continue
            f2 = []
            for f in plan.get("opfaults", []):
                if f[0] < i:
                    f2.append(f)
                elif f[0] >= i + size:
                    f2.append([f[0] - size] + f[1:])
            yield dict(case, history=h2), dict(plan, opfaults=f2)
    used = {}
    for t, qs in enumerate(case["queries"]):
        for i, q in enumerate(qs):
            for q2 in common.shrink_query(q):
                yield dict(case, queries=case["queries"][:t] + [qs[:i] + [q2] + qs[i + 1:]] + case["queries"][t + 1:]), plan


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        tables, queries = [], []
        for _ in range(rng.choice([1, 2, 2, 3])):
            tab = gen.gen_table(rng, 3)
            if tables and rng.random() < 0.5:  # the same labels with other types
                tab = [[t[0], t[1], rng.choice(gen.KINDS), t[3]] for t in tables[-1]]
            qs = []
            while len(qs) < 3:
                q = common.contraction_query(rng, tab, rng.choice([4, 4, 6, 8]), rng.choice([1, 2, 2]), rng.choice([1, 1, 2]))
                if tables and rng.random() < 0.4 and [t[0] for t in tab] == [t[0] for t in tables[-1]]:
                    q = queries[-1][len(qs)]
                try:
                    n = len(common.model_result(tab, [], q, 25))
                except model.TooBig:
                    continue
                if n or rng.random() < 0.2:
                    qs.append(q)
                    if len(qs) < 3 and rng.random() < 0.4:  # same operators, other window or factor
                        lo, hi = gen.rank_window(rng, 6)
                        qs.append(dict(q, min=lo, max=hi, factor=rng.choice(gen.FACTORS)))
            tables.append(tab)
            queries.append(qs)
        limited = [[i for i, q in enumerate(qs[:3]) if common.limit_matters(tab, q)] for tab, qs in zip(tables, queries)]
        case = {"tables": tables, "queries": queries, "history": gen_history(rng, len(tables), 3, rng.randint(4, 12), limited)}
        ctx.stats["cases"] += 1
        ctx.count("steps", len(case["history"]))
        r = ctx.check(case, {"cfg": dict(core.SEQCFG, reuse=int(rng.random() < 0.5))})
        scale = max(100, r.stats["steps"])
        sites = [(k, v[1], v[2], v[4]) for k, v in enumerate(r.value) if isinstance(v, list)]
        for k in range(2 if scale > 4000000 else 6):
            plan = {"cfg": core.cfg_for(rng, scale=scale)}
            if k % 2 and sites:
                fs = []
                for i, na, nc, where in rng.sample(sites, min(len(sites), rng.randint(1, 3))):
                    if nc and rng.random() < 0.35:
                        fs.append([i, 7, rng.randrange(nc), rng.choice([1, 1, 1000])])
                    elif na:
                        fs.append([i, 6, core.pick(rng, na, where), rng.choice([1, 1, 3, 1 << 30])])
                plan["opfaults"] = fs
            ctx.check(case, plan)
