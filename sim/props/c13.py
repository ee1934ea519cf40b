"""C13: library functions are history-independent."""
import core
import gen
import interp
import progs

LEVEL = "exploration"
JOBS = {"quick": 120, "thorough": 5000}
RULE = ("histories of blocks of calls over the whole API, with orbital spaces redefined between blocks (often the same labels with other "
        "types, orders or indices), blocks repeated later, calls that raise, allocation and thread-launch failures and signals in Python code in between; every "
        "block without a fault is compared call by call with the same block in a fresh process; non-trivial: a fault fired or a block "
        "ran after another one")


def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    out = []
    keep = []
    cur = None
    sim.interrupts()
    sim.begin()
    for k, b in enumerate(case["history"]):
        t, prog = case["blocks"][b]
        if t != cur or case["always"]:
            interp.define(case["tables"][t])
            cur = t
        m = interp.Machine(sim, faults.get(k, []))
        n0 = sim.fired
        v = [m.step(s) for s in prog]
        out.append([[x[0] for x in v], sim.fired - n0, [x[1] for x in v], [x[2] for x in v], m.where, [x[3] for x in v]])
        if case["hold"]:
            keep.append(m)
        m = None
    return out


def fresh(ctx, tab, prog):
    def f():
        interp.define(tab)
        return [x[0] for x in interp.Machine().run(prog)]
    return ctx.oracle(f, [tab, prog])


def judge(ctx, case, plan, r):
    bad = []
    for k, (b, v) in enumerate(zip(case["history"], r.value)):
        if v[1]:
            continue
        t, prog = case["blocks"][b]
        want = fresh(ctx, case["tables"][t], prog)
        for i, (x, y) in enumerate(zip(v[0], want)):
            if x != y:
                bad.append(("history dependent", "block %d, call %d (%s %s) returned %s, in a fresh process %s" % (k, i, prog[i][1], prog[i][2:], x, y)))
                break
    return bad


def shrink(case, plan):
    h = case["history"]
    n = len(h)
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            h2 = h[:i] + h[i + size:]
            fs = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if h2:
                yield dict(case, history=h2), dict(plan, opfaults=fs)
    for b in sorted(set(h)):
        t, prog = case["blocks"][b]
        if any(f for f in plan.get("opfaults", []) if h[f[0]] == b):
            continue
        for i in range(len(prog) - 1, -1, -1):
            if not any(prog[i][0] and ("$" + prog[i][0]) in repr(s) for s in prog[i + 1:]) and len(prog) > 1:
                yield dict(case, blocks=case["blocks"][:b] + [[t, prog[:i] + prog[i + 1:]]] + case["blocks"][b + 1:]), plan


def variant(rng, tab):
    """another table with the same labels"""
    t = [list(x) for x in tab]
    x = rng.random()
    if x < 0.35:
        for s in t:
            s[2] = rng.choice(gen.KINDS)
    elif x < 0.6:
        rng.shuffle(t)
    elif x < 0.8:
        pools = [s[3] for s in t]
        rng.shuffle(pools)
        for s, p in zip(t, pools):
            s[3] = p
    elif x < 0.9:
        for s in t:
            s[3] = s[3][:max(1, len(s[3]) - 2)][::-1]
    else:
        rng.choice(t)[1] = "boson"
    return t


CHEAP = [x for x in progs.VALUE_OPS if x not in ("contract", "bch", "commutator", "commutator3", "gen_op", "e_mul", "oe_mul")]


def block(rng, tab, n, names=None):
    g = progs.Gen(rng, tab)
    for _ in range(n):
        if rng.random() < 0.15:
            g.steps.append([None, "table"])
        g.steps.append(g.call(names))
        while rng.random() < 0.3:
            s = g.again(g.steps[-1])
            if s is None:
                break
            g.steps.append(s)
        if rng.random() < 0.12:
            g.steps.append(rng.choice(BAD))
    return g.steps


BAD = [[None, "op", "T", ["?+ ?"]], [None, "expr", "t^{zz}_{"], [None, "index", "9"], [None, "tensor", "t", "anti"], [None, "rat_str", "1/x"],
       [None, "cre", "+"], [None, "add_space", "oo", "fermion", "occupied", ["i"], []], [None, "add_space", "k", "fermion", "odd", ["z"], []],
       [None, "osi_label", 99], [None, "operator_expr", "T", ["? ?"], True], [None, "gen_op", "T", 1, "?", "?", True], [None, "indices", "o"]]


def job(ctx):
    rng = ctx.rng
    tables = [progs.table_for(rng)]
    for _ in range(rng.choice([0, 1, 1, 2])):
        tables.append(variant(rng, tables[-1]) if rng.random() < 0.75 else progs.table_for(rng))
    blocks = []
    long = ctx.index % 6 == 5
    names = progs.focus(rng, CHEAP, 0.35)
    few = names is not CHEAP
    if not (few or long):
        names = None
    for _ in range(rng.randint(2, 4)):
        t = rng.randrange(len(tables))
        prog = block(rng, tables[t], rng.randint(4, 14) if few else rng.randint(2, 7), names)
        blocks.append([t, prog])
        for t2 in range(len(tables)):  # the same calls under another table with these labels
            if t2 != t and rng.random() < 0.6 and sorted(x[0] for x in tables[t]) == sorted(x[0] for x in tables[t2]):
                blocks.append([t2, prog])
    case = {"tables": tables, "blocks": blocks, "history": [rng.randrange(len(blocks)) for _ in range(rng.randint(40, 80) if long else rng.randint(4, 10))],
            "hold": rng.random() < 0.5, "always": rng.random() < 0.5}
    ctx.stats["cases"] += 1
    ctx.count("calls", sum(len(blocks[b][1]) for b in case["history"]))
    base = ctx.check(case, {"cfg": dict(core.SEQCFG, **core.memory(rng, 0.6))}, nontrivial=True)
    scale = max(100, base.stats["steps"])
    sites = [(k, i, a, c, p, l) for k, v in enumerate(base.value) for i, (a, c, p, l) in enumerate(zip(*v[2:])) if a or c or l]
    if not sites:
        return
    for _ in range(1 if long else 5 if ctx.quick else 25):
        if ctx.late():
            return
        fs = []
        hit = set(rng.sample(range(len(case["history"])), rng.randint(1, max(1, len(case["history"]) // 2))))
        for k, i, a, c, places, lines in sites:
            if k in hit and rng.random() < 0.5:
                if lines and rng.random() < 0.3:
                    fs.append([k, i, 20, rng.randrange(lines), 1])
                    ctx.count("signals in Python code")
                elif c and rng.random() < 0.3:
                    fs.append([k, i, 7, rng.randrange(c), rng.choice([1, 1 << 40])])
                elif a:
                    fs.append([k, i, 6, core.pick(rng, a, places), rng.choice([1, 1, 2, 1 << 40])])
        ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale), "opfaults": fs}, nontrivial=True)
