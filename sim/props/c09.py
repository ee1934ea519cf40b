"""C09: value-returning operations never disturb their operands, even when they fail."""
import core
import interp
import progs

LEVEL = "fault_enumeration"
JOBS = {"quick": 160, "thorough": 6000}
RULE = ("programs of value-returning calls over operators, expressions, tensors, equations, parsing, printing and code generation; the "
        "allocations of every call are counted in a fault-free run, then failed one by one (thorough: every one; quick: a stratified "
        "sample), a signal arrives before one of the lines of Python code; each failing call made three times (up to sixteen while every failure leaves more in use) and then once without the fault; after every call its operands are compared with "
        "their values before; at the end all objects are; non-trivial: a fault fired")
REPS = 3
MORE = 16  # attempts while every one of them leaves more in use than the one before: what fills a cache comes to an end


def operands(step):
    out = []
    for a in step[2:]:
        for x in (a if isinstance(a, list) else [a]):
            if isinstance(x, str) and x.startswith("$"):
                out.append(x[1:])
    return out


def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    m = interp.Machine()
    sim.interrupts()
    if case["cold"]:
        sim.begin()
    interp.define(case["tab"])
    setup = m.run(case["setup"])
    if case["cold"]:
        sim.pause()
    snap = {k: interp.obs(v) for k, v in m.env.items()}
    if case["cold"]:
        sim.resume()
    else:
        sim.begin()
    out = []
    for k, s in enumerate(case["ops"]):
        fs = faults.get(k, [])
        calls = []
        rep = 0
        last = not fs
        while True:
            a0, c0, n0, l0 = sim.allocs, sim.creates, sim.fired, sim.lines.n
            if not last:
                for kind, nth, count in fs:
                    sim.fault(kind, 0xFFFFFFFF, sim.base(kind) + nth, count)
            ok, v = m.call(s)
            sim.clear_faults()
            a1, c1 = sim.allocs, sim.creates
            fired = sim.fired - n0
            l1 = sim.lines.n
            sim.pause()
            o = interp.obs(v) if ok else ["!", v]
            changed = [[x, interp.obs(m.env[x])] for x in operands(s) if x in m.env]
            changed = [[x, snap[x], y] for x, y in changed if y != snap[x]]
            sim.resume()
            v = None
            if sim.nthreads > 1:
                sim.drain()
            calls.append([o, fired, sim.live, changed])
            if last:
                break
            rep += 1
            grows = all(c[1] for c in calls) and all(a[2] < b[2] for a, b in zip(calls, calls[1:])) and s[1] != "contract"
            last = rep >= (MORE if grows else REPS)
        out.append([calls, a1 - a0, c1 - c0, [] if fs else sim.sites(a0, a1), l1 - l0])
    sim.pause()
    end = [[k, snap[k], interp.obs(v)] for k, v in m.env.items()]
    sim.resume()
    return [setup, out, [e for e in end if e[1] != e[2]]]


def expected(ctx, case):
    def f():
        interp.define(case["tab"])
        m = interp.Machine()
        m.run(case["setup"])
        return m.run(case["ops"])
    return [x[0] for x in ctx.oracle(f, [case["tab"], case["setup"], case["ops"]])]


def judge(ctx, case, plan, r):
    bad = []
    want = expected(ctx, case)
    for k, (calls, na, nc, _, _) in enumerate(r.value[1]):
        for rep, (o, fired, live, changed) in enumerate(calls):
            failed = isinstance(o, list) and len(o) == 2 and o[0] == "!"
            if o != want[k] and not (failed and fired):
                bad.append(("wrong result", "call %d (%s), attempt %d%s returned %s instead of %s" % (
                    k, case["ops"][k][1], rep, ", in which memory ran out," if fired else "", o, want[k])))
            for x, a, b in changed:
                bad.append(("operand changed", "call %d (%s), attempt %d changed its operand %s from %s to %s" % (k, case["ops"][k][1], rep, x, a, b)))
        lives = [c[2] for c in calls[:-1]]
        if case["ops"][k][1] == "contract":
            continue  # the engine's timers grow as calls get further; C04 looks for leaks of contractions
        if len(lives) == MORE and all(c[1] for c in calls[:-1]) and all(a < b for a, b in zip(lives, lives[1:])):
            bad.append(("leak", "call %d (%s) leaves more blocks in use every time it fails: %s" % (k, case["ops"][k][1], lives)))
    if not bad:
        for x, a, b in r.value[2]:
            bad.append(("operand changed", "object %s changed from %s to %s" % (x, a, b)))
    return bad


def used(case):
    """setup steps needed by the calls that are left"""
    need = {x for s in case["ops"] for x in operands(s)}
    keep = []
    for s in reversed(case["setup"]):
        if s[0] in need:
            need |= set(operands(s))
            keep.append(s)
    return keep[::-1]


def shrink(case, plan):
    n = len(case["ops"])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            ops = case["ops"][:i] + case["ops"][i + size:]
            fs = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if ops:
                c = dict(case, ops=ops)
                yield dict(c, setup=used(c)), dict(plan, opfaults=fs)
    if case["cold"]:
        yield dict(case, cold=False), plan


def gen_case(rng, n):
    tab = progs.table_for(rng)
    g = progs.Gen(rng, tab)
    names = progs.focus(rng)
    ops = [g.call(names) for _ in range(n)]
    return {"tab": tab, "setup": g.steps, "ops": ops, "cold": rng.random() < 0.3}


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        case = gen_case(rng, rng.randint(4, 12))
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        sites = [(k, v[1], v[2], v[3], v[4]) for k, v in enumerate(base.value[1])]
        for s in case["ops"]:
            ctx.count("call " + s[1])
        ctx.count("calls", len(case["ops"]))
        ctx.count("allocations in the cases", sum(s[1] for s in sites))
        ctx.count("chains of calls that allocate", sum(len(s[3]) for s in sites))
        most = max(s[1] for s in sites)
        rounds = min(12, most) if ctx.quick else min(most, 400)
        if base.stats["steps"] > 5000000:
            rounds = min(rounds, 3)
        threads = any(s[2] for s in sites)
        for i in range(rounds):
            if ctx.late():
                return
            fs = []
            for k, na, nc, where, lines in sites:
                if lines and i % 3 == 2:
                    fs.append([k, 20, rng.randrange(lines), 1])
                    ctx.count("signals in Python code")
                    continue
                if na <= rounds:
                    nth = i if i < na else None
                elif i & 1 and where:
                    nth = core.pick(rng, na, where)
                else:  # stratum i of the call
                    nth = min(na - 1, int((i + rng.random()) * na / rounds))
                if nth is not None:
                    fs.append([k, 6, nth, rng.choice([1, 1, 1, 2, 5, 1 << 40])])
                if nc and rng.random() < 0.2:
                    fs.append([k, 7, rng.randrange(nc), 1])
            cfg = core.cfg_for(rng, scale=max(100, base.stats["steps"])) if threads else dict(core.SEQCFG)
            ctx.check(case, {"cfg": cfg, "opfaults": fs})
