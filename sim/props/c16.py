"""C16: repeated work does not accumulate memory, threads or descriptors."""
import array
import gc
import os
import sys
import types

import core
import interp
import progs
from props import c13

LEVEL = "exploration"
JOBS = {"quick": 100, "thorough": 4000}
RULE = ("programs of calls over the whole API, some on objects kept for the whole run (engines, expressions, iterators), repeated with the "
        "same calls, the same failures (rejected calls, failed allocations and thread launches and signals at the same places) and other schedules; "
        "after every repetition blocks, bytes, threads and descriptors in use are read; non-trivial: a repetition ran")
REPS = 7
NAMES = ["memory blocks of the library", "memory blocks of library and bindings", "bytes", "threads", "descriptors", "references kept by the library's Python modules"]


def module_state():
    """how much is reachable from the variables of the library's Python modules"""
    mods = [m for n, m in sorted(sys.modules.items()) if n == "wicked" or n.startswith("wicked.")]
    todo = [vars(m) for m in mods]
    seen = {id(vars(m)) for m in sys.modules.values() if isinstance(m, types.ModuleType)}
    n = 0
    while todo:
        x = todo.pop()
        refs = gc.get_referents(x)
        n += len(refs)
        for y in refs:
            if id(y) in seen or isinstance(y, (types.ModuleType, types.CodeType, types.BuiltinFunctionType, str, int)):
                continue
            if isinstance(y, type) and not (y.__module__ or "").startswith("wicked."):
                continue
            seen.add(id(y))
            todo.append(y)
    return n


def execute(sim, case, plan):
    faults = plan.get("opfaults", [])
    interp.define(case["tab"])
    sim.interrupts()
    sim.begin()
    keep = interp.Machine(sim)
    keep.run(case["setup"])
    out = array.array("q", [0] * (6 * case["reps"]))  # the reading itself must not use memory
    sites = []
    for rep in range(case["reps"]):
        if case["redefine"]:
            interp.define(case["tab"])
        m = interp.Machine(sim, faults)
        m.env.update(keep.env)
        n = 0
        for s in case["prog"]:
            x = m.step(s)
            if rep == 0:
                sites.append([x[1], x[2], m.where[-1], x[3]])
            n += 1
            x = None
        m = None
        alive = sim.drain()
        sim.pause()
        gc.collect()
        held = module_state()
        sim.resume()
        for k, v in enumerate((sim.live, sim.live_all, sim.live_all_bytes, alive, len(os.listdir("/proc/self/fd")), held)):
            out[rep * 6 + k] = v
    return [[list(out[i * 6:i * 6 + 6]) for i in range(case["reps"])], sites]


def judge(ctx, case, plan, r):
    bad = []
    out = r.value[0]
    n = len(out)
    for i, name in enumerate(NAMES):
        v = [x[i] for x in out]
        ups = sum(1 for a, b in zip(v[1:], v[2:]) if b > a)
        # one-time initialisations are over after the first repetitions; what grows with every repetition is not a cache
        if (i == 2 and n >= 20 and v[-1] > v[n // 2] and ups >= 3) or (i != 2 and v[-1] > v[1] and all(b > a for a, b in zip(v[1:], v[2:]))):
            bad.append(("accumulation", "%s in use after each of %d repetitions of the same calls: %s" % (name, n, v)))
    return bad


def shrink(case, plan):
    p = case["prog"]
    fs = plan.get("opfaults", [])
    for i in range(len(fs)):
        yield case, dict(plan, opfaults=fs[:i] + fs[i + 1:])
    for i in range(len(p) - 1, -1, -1):
        if not (p[i][0] and ("$" + p[i][0]) in repr(p[i + 1:])) and len(p) > 1:
            f2 = [f if f[0] < i else [f[0] - 1] + f[1:] for f in fs if f[0] != i]
            yield dict(case, prog=p[:i] + p[i + 1:]), dict(plan, opfaults=f2)
    s = case["setup"]
    for i in range(len(s) - 1, -1, -1):
        if not (s[i][0] and ("$" + s[i][0]) in repr(s[i + 1:] + p)):
            yield dict(case, setup=s[:i] + s[i + 1:]), plan


def job(ctx):
    rng = ctx.rng
    tab = progs.table_for(rng)
    g = progs.Gen(rng, tab)
    for typ in rng.sample(["W", "OE", "E", "EV", "T", "ST", "Q", "P"], rng.randint(2, 5)):
        g.make(typ) if typ != "P" else g.prod()
    setup, g.steps = g.steps, []
    names = progs.focus(rng)
    for _ in range(rng.randint(3, 8)):
        g.steps.append(g.call(names))
        if rng.random() < 0.15:
            g.steps.append(rng.choice(c13.BAD))
    long = ctx.index % 8 == 7
    case = {"tab": tab, "setup": setup, "prog": g.steps, "reps": REPS, "redefine": rng.random() < 0.5}
    ctx.stats["cases"] += 1
    base = ctx.check(case, {"cfg": dict(core.SEQCFG)}, nontrivial=True)
    ctx.count("repetitions", REPS)
    scale = max(100, base.stats["steps"])
    if long and scale < 1000000:
        c2 = dict(case, reps=40)
        ctx.check(c2, {"cfg": dict(core.SEQCFG, **core.memory(rng))}, nontrivial=True)
        ctx.count("repetitions", 40)
    sites = [(i, a, c, p, n) for i, (a, c, p, n) in enumerate(base.value[1]) if a or c or n]
    for k in range(3 if scale > 3000000 else 8 if ctx.quick else 30):
        if ctx.late():
            return
        fs = []
        if k and sites:
            for i, a, c, places, lines in rng.sample(sites, rng.randint(1, len(sites))):
                if lines and rng.random() < 0.3:
                    fs.append([i, 20, rng.randrange(lines), 1])
                elif c and rng.random() < 0.35:
                    fs.append([i, 7, rng.randrange(c), rng.choice([1, 1, 1 << 40])])
                elif a:
                    fs.append([i, 6, core.pick(rng, a, places), rng.choice([1, 1, 2, 1 << 40])])
        ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale), "opfaults": fs}, nontrivial=True)
        ctx.count("repetitions", REPS)
