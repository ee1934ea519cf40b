"""Contraction cases shared by C01-C06, C11 and C14."""
import json
from fractions import Fraction

import core
import gen
import interp
import model
import simapi


def contraction_query(rng, tab, maxlegs=8, size=2, ncomp=1, odd=0.12, nops=None, sums=True):
    """one contraction: {"parts": sum of products, "factor", "min", "max"}"""
    n = rng.choice([1, 1, 1, 2]) if sums else 1
    parts = [[[1, 1] if n == 1 else rng.choice(gen.FACTORS), gen.gen_product(rng, tab, nops, maxlegs, size, odd, ncomp)] for _ in range(n)]
    total = max(sum(max(gen.nlegs(c) for c in o[1]) for o in p[1]) for p in parts)
    lo, hi = gen.rank_window(rng, total)
    return {"parts": parts, "factor": rng.choice(gen.FACTORS), "min": lo, "max": hi}


def settings(rng, threaded=None, printing=False):
    s = []
    if rng.random() < 0.3:
        s.append(["cumulant", rng.choice([0, 1, 1, 2, 2, 3, 5])])
    if rng.random() < 0.3:
        s.append(["canon", rng.random() < 0.3])
    if threaded is None:
        threaded = rng.random() < 0.85
    if not threaded:
        s.append(["single", True])
    if printing and rng.random() < 0.5:
        s.append(["print", rng.choice(["none", "basic", "summary", "detailed", "all"])])
    return s


def setting(ss, key, default):
    v = default
    for k, x in ss:
        if k == key:
            v = x
    return v


MODEL_CACHE = {}


def model_result(tab, ss, q, limit=1500):
    """the generalized Wick expansion of a query by the reference model"""
    key = json.dumps([tab, setting(ss, "cumulant", 100), q], sort_keys=True)
    if key in MODEL_CACHE:
        return MODEL_CACHE[key]
    spaces = [(t[0], t[2]) for t in tab]
    parts = []
    left = limit
    for f, ops in gen.products_of(q["parts"], tab):
        d = model.contract(ops, spaces, q["min"], q["max"], setting(ss, "cumulant", 100), left)
        parts.append((f * Fraction(*q["factor"]), d))
        left -= len(d)
        if left <= 0:
            raise model.TooBig
    r = model.combine(parts)
    MODEL_CACHE[key] = r
    return r


def limit_matters(tab, q):
    """whether the limit on cumulants changes the result of a query"""
    try:
        return model_result(tab, [["cumulant", 1]], q, 200) != model_result(tab, [], q, 200)
    except model.TooBig:
        return False


def fits(execute, case, cap):
    """whether a run of the case without preemptions ends within so many steps (the graph canonicalization of deep
    contractions tries all their orders)"""
    plan = {"cfg": dict(core.SEQCFG, race=0, step_cap=cap)}
    r = simapi.run(lambda s: execute(s, case, plan), plan, cpu=30, wall=120)
    return simapi.end_kind(r) not in ("no-progress", "hang", "internal")


def build_query(q):
    return interp.opsum(q["parts"])


def contract(e, q, ops):
    return e.contract(interp.frac(q["factor"]), ops, q["min"], q["max"])


def fresh(tab, ss, q):
    """what a fresh process returns for a query, as a string (run inside a fork)"""
    interp.define(tab)
    e = interp.engine(ss)
    try:
        return "E:" + repr(contract(e, q, build_query(q)))
    except Exception as x:
        return ["!", type(x).__name__]


def describe_nf(d, limit=4):
    return "; ".join("%s * %s" % (c, k) for k, c in list(d.items())[:limit])


def diff_nf(a, b):
    """terms on which two normal forms differ"""
    out = {}
    for k in set(a) | set(b):
        if a.get(k, 0) != b.get(k, 0):
            out[repr(k)] = [str(a.get(k, 0)), str(b.get(k, 0))]
    return out


def shrink_query(q):
    """smaller queries"""
    if len(q["parts"]) > 1:
        for i in range(len(q["parts"])):
            yield dict(q, parts=q["parts"][:i] + q["parts"][i + 1:])
    for i, (f, ops) in enumerate(q["parts"]):
        for j, (l, comps) in enumerate(ops):
            def put(new):
                p = [list(x) for x in q["parts"]]
                p[i] = [f, new]
                return dict(q, parts=p)
            if len(ops) > 1:
                yield put(ops[:j] + ops[j + 1:])
            if len(comps) > 1:
                for k in range(len(comps)):
                    yield put(ops[:j] + [[l, comps[:k] + comps[k + 1:]]] + ops[j + 1:])
            for k, c in enumerate(comps):
                x = c.split()
                cre = [y for y in x if y.endswith("+")]
                ann = [y for y in x if not y.endswith("+")]
                if len(cre) > 1 and len(ann) > 1:
                    for m in range(len(cre)):
                        y = cre[:m] + cre[m + 1:] + ann[1:]
                        yield put(ops[:j] + [[l, comps[:k] + [" ".join(y)] + comps[k + 1:]]] + ops[j + 1:])
        if f != [1, 1]:
            p = [list(x) for x in q["parts"]]
            p[i] = [[1, 1], ops]
            yield dict(q, parts=p)
    if q["factor"] != [1, 1]:
        yield dict(q, factor=[1, 1])


def shrink_table(tab, queries):
    """the table without spaces no query uses"""
    used = set()
    for q in queries:
        for _, ops in q["parts"]:
            for _, comps in ops:
                for c in comps:
                    used |= {x[0] for x in c.split()}
    for i, t in enumerate(tab):
        if t[0] not in used and len(tab) > 1:
            yield tab[:i] + tab[i + 1:]


def shrink_case(case):
    """generic shrinking of {"tab", "settings", "queries"}"""
    qs = case["queries"]
    if len(qs) > 1:
        for i in range(len(qs)):
            yield dict(case, queries=qs[:i] + qs[i + 1:])
    for i, q in enumerate(qs):
        for q2 in shrink_query(q):
            yield dict(case, queries=qs[:i] + [q2] + qs[i + 1:])
    for t in shrink_table(case["tab"], qs):
        yield dict(case, tab=t)
    for i in range(len(case.get("settings", []))):
        yield dict(case, settings=case["settings"][:i] + case["settings"][i + 1:])
