"""C15: values are the same in every process environment."""
import locale
import os

import core
import gen
import interp
import progs
import simapi

LEVEL = "exploration"
JOBS = {"quick": 120, "thorough": 5000}
RULE = ("programs of calls over the whole API, with contractions in both modes, run with seeded contents of fresh memory (heap and stacks), "
        "placement of blocks (upwards, downwards, mixed, gaps), immediate reuse or none, processors, clocks, random sources, contents of the environment variables the library asks for, thread schedules "
        "and C locale, and in processes started with another hash seed of the interpreter, flags, variables and directory; every value is compared with a plain process; non-trivial: at least one of them differs from the plain process")
HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LOCALES = ["de_DE", "tr_TR", "ps_AF"]


def execute(sim, case, plan):
    if plan.get("locale"):
        os.environ["LOCPATH"] = os.path.join(HERE, "build", "locale")
        try:
            locale.setlocale(locale.LC_ALL, plan["locale"])
        except locale.Error:
            pass
    if plan["cfg"].get("env"):
        simapi.variables(plan["cfg"]["env"])
    m = interp.Machine(sim)
    sim.begin()
    out = []
    for t, steps in case["parts"]:
        interp.define(case["tables"][t])
        out.append([x[0] for x in (m.step(s) for s in steps)])
        if case["drop"]:
            m.env.clear()
    return out


def want(ctx, case):
    def f():
        m = interp.Machine()
        out = []
        for t, steps in case["parts"]:
            interp.define(case["tables"][t])
            out.append([x[0] for x in m.run(steps)])
            if case["drop"]:
                m.env.clear()
        return out
    return ctx.oracle(f, case)


def judge(ctx, case, plan, r):
    w = want(ctx, case)
    bad = differences(case, r.value, w, "in a plain process")
    if not bad and plan.get("elsewhere"):
        bad = differences(case, ctx.elsewhere(case, plan["elsewhere"]), w, "in a process with other variables")
    return bad


def differences(case, v, w, where):
    for k, (x, y) in enumerate(zip(v, w)):
        for i, (a, b) in enumerate(zip(x, y)):
            if a != b:
                s = case["parts"][k][1][i]
                return [("environment dependent", "part %d, call %d (%s %s) returned %s, %s %s" % (k, i, s[1], s[2:], a, where, b))]
    return []


def process(rng):
    """another process: hash seed, interpreter flags, variables, directory"""
    v = {}
    if rng.random() < 0.5:
        v = {"TZ": rng.choice(["Asia/Kolkata", "America/Lima", "UTC"]), "LANG": rng.choice(["C", "de_DE.UTF-8"]), "HOME": "/nonexistent",
             "COLUMNS": str(rng.randint(1, 200)), "USER": "u%d" % rng.randint(0, 99), "OMP_NUM_THREADS": str(rng.randint(1, 64))}
    if rng.random() < 0.7:
        v["SIM_BOOTENV"] = str(rng.randint(1, 1 << 20))
    return {"hashseed": rng.randint(1, 1 << 30), "flags": rng.choice([[], ["-O"], ["-OO"], ["-X", "dev"]]), "vars": v, "cwd": rng.choice(["/", "/usr", HERE])}


def shrink(case, plan):
    for k in ("locale", "faults", "elsewhere"):
        if plan.get(k):
            yield case, {x: v for x, v in plan.items() if x != k}
    for k in ("fill", "layout", "reuse", "env"):
        if plan["cfg"].get(k):
            yield case, dict(plan, cfg={x: v for x, v in plan["cfg"].items() if x != k})
    ps = case["parts"]
    for i in range(len(ps)):
        if len(ps) > 1:
            yield dict(case, parts=ps[:i] + ps[i + 1:]), plan
    for j, (t, prog) in enumerate(ps):
        for i in range(len(prog) - 1, -1, -1):
            if not (prog[i][0] and ("$" + prog[i][0]) in repr(prog[i + 1:])) and len(prog) > 1:
                yield dict(case, parts=ps[:j] + [[t, prog[:i] + prog[i + 1:]]] + ps[j + 1:]), plan


def environment(rng, scale):
    cfg = core.cfg_for(rng, scale=scale) if rng.random() < 0.6 else dict(core.SEQCFG, seed=rng.getrandbits(32), nproc=rng.choice([1, 2, 16]))
    for k in ("fill", "layout", "reuse"):
        cfg.pop(k, None)
    if rng.random() < 0.7:
        cfg["fill"] = rng.randint(1, 1 << 20)
    if rng.random() < 0.6:
        cfg["layout"] = rng.randint(1, 1 << 20)
    if rng.random() < 0.5:
        cfg["reuse"] = 1
    if rng.random() < 0.5:
        cfg["env"] = rng.randint(1, 1 << 20)
    plan = {"cfg": cfg}
    if rng.random() < 0.35:
        plan["locale"] = rng.choice(LOCALES)
    if rng.random() < 0.3:
        plan["faults"] = [[3, 0xFFFFFFFF, rng.randrange(6), 1, rng.choice([-1, 1]) * rng.choice([10 ** 9, 10 ** 13, 10 ** 17])]]
    return plan


def job(ctx):
    rng = ctx.rng
    tables = [progs.table_for(rng) for _ in range(rng.choice([1, 1, 2]))]
    parts = []
    for _ in range(rng.choice([1, 2, 3])):
        t = rng.randrange(len(tables))
        g = progs.Gen(rng, tables[t])
        few = progs.focus(rng, p=0.3)
        for _ in range(rng.randint(4, 14)):
            g.steps.append(g.call(few))
        parts.append([t, g.steps])
    if rng.random() < 0.6:  # what the package does in Python depends on more of a process
        t = rng.randrange(len(tables))
        g = progs.Gen(rng, tables[t])
        for _ in range(rng.randint(4, 10)):
            g.steps.append(g.call(["gen_op", "exprs", "e_einsum", "e_einsum", "q_einsum"]))
        parts.append([t, g.steps])
    if rng.random() < 0.3:  # more contractions than a few processors have room for
        t = rng.randrange(len(tables))
        g = progs.Gen(rng, tables[t])
        g.prod = lambda: g.bind("P", "opsum", [[[1, 1], gen.gen_product(rng, tables[t], None, rng.choice([8, 10]), 2, 0.1, 1)]])
        for _ in range(3):
            g.steps.append(g.call(["contract"]))
            g.steps[-1][-1] = rng.choice([2, 4, 12])
        parts.append([t, g.steps])
    case = {"tables": tables, "parts": parts, "drop": rng.random() < 0.7}
    ctx.stats["cases"] += 1
    ctx.count("calls", sum(len(p[1]) for p in parts))
    base = ctx.check(case, {"cfg": dict(core.SEQCFG)}, nontrivial=False)
    scale = max(100, base.stats["steps"])
    ctx.check(case, {"cfg": dict(core.SEQCFG), "elsewhere": process(rng)}, nontrivial=True)
    ctx.count("runs compared with a process started with another hash seed, flags, variables and directory")
    n = 9 if ctx.quick else 30
    if scale > 3000000:
        n = 3
    for _ in range(n):
        if ctx.late():
            return
        plan = environment(rng, scale)
        for k in ("locale", "faults"):
            if plan.get(k):
                ctx.count("runs with " + {"locale": "another locale", "faults": "a clock step"}[k])
        for k in ("fill", "layout", "reuse", "env"):
            if plan["cfg"].get(k):
                ctx.count("runs with another " + {"env": "content of every variable the library asks for", "fill": "content of fresh memory", "layout": "placement of blocks", "reuse": "reuse of blocks"}[k])
        ctx.check(case, plan, nontrivial=True)
