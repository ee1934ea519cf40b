"""C12: objects that outlive their orbital spaces give errors, never crashes."""
import core
import gen
import interp
import progs
from props import c13

LEVEL = "exploration"
JOBS = {"quick": 140, "thorough": 6000}
RULE = ("objects of every type are made under one table and used by every kind of call while the table is empty, smaller, renamed, "
        "retyped or growing, between positional queries at any place and fresh work under the new table, with faults now and then; each "
        "such call must return or raise; fresh work must match a fresh process; once equal spaces are defined again every call must give "
        "what a fresh process gives; memory errors are watched throughout; non-trivial: a call was made under another table")
POSITIONS = [-2147483648, -1000000, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 64, 1000000, 2147483647]


def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append([0] + f[1:])
    w = interp.w
    m = interp.Machine()
    if not case["late"]:
        interp.define(case["tab"])
        setup = m.run(case["setup"])
    sim.begin()
    if case["late"]:
        interp.define(case["tab"])
        setup = m.run(case["setup"])
    out = []
    osi = w.osi()
    for k, s in enumerate(case["steps"]):
        v = None
        if s[0] == "table":
            interp.define(s[1])
        elif s[0] == "add":
            try:
                w.add_space(*s[1])
            except Exception as ex:
                v = "!" + type(ex).__name__
        elif s[0] == "query":
            v = []
            for f in (osi.label, osi.indices):
                try:
                    v.append(interp.obs(f(s[1])))
                except Exception as ex:
                    v.append("!" + type(ex).__name__)
        elif s[0] == "use":  # old objects under whatever table there is
            a0, c0 = sim.allocs, sim.creates
            for _, kind, nth, count in faults.get(k, []):
                sim.fault(kind, 0xFFFFFFFF, (a0 if kind == 6 else c0) + nth, count)
            n0 = sim.ctr("afail") + sim.ctr("tfail")
            ok, x = m.call(s[1])
            sim.clear_faults()
            a1 = sim.allocs
            fired = sim.ctr("afail") + sim.ctr("tfail") - n0
            try:
                v = [interp.obs(x) if ok else ["!", x], fired, a1 - a0]
            except Exception as ex:
                v = [["!obs", type(ex).__name__], fired, a1 - a0]
            x = None
        elif s[0] == "work":  # new objects under the new table
            v = [x[0] for x in interp.Machine().run(s[1])]
        elif s[0] == "look":  # the old objects printed under whatever table there is
            v = []
            for n in sorted(m.env):
                try:
                    v.append([n, interp.obs(m.env[n])])
                except Exception as ex:
                    v.append([n, "!" + type(ex).__name__])
        elif s[0] == "drop":
            m.env.pop(s[1], None)
        out.append(v)
    return out


def reference(ctx, tab, setup, steps):
    def f():
        interp.define(tab)
        m = interp.Machine()
        m.run(setup)
        return [[n, interp.obs(m.env[n])] for n in sorted(m.env)], [m.step(s)[0] for s in steps]
    return ctx.oracle(f, [tab, setup, steps])


def judge(ctx, case, plan, r):
    bad = []
    uses = []
    for s in case["steps"]:
        if s[0] == "use" and s[1] not in uses:
            uses.append(s[1])
    objs, res = reference(ctx, case["tab"], case["setup"], uses)
    cur = [list(x) for x in case["tab"]]
    gone = set()
    for k, (s, v) in enumerate(zip(case["steps"], r.value)):
        same = same_table(cur, case["tab"])
        if s[0] == "table":
            cur = [list(x) for x in s[1]]
        elif s[0] == "add":
            if v is None:
                cur = cur + [list(s[1])]
        elif s[0] == "drop":
            gone.add(s[1])
        elif s[0] == "query":
            i = s[1]
            for x, y in zip(v, (cur[i][0], cur[i][3]) if 0 <= i < len(cur) else (None, None)):
                if y is not None and x != y:
                    bad.append(("wrong answer", "step %d: position %d of %s gave %s" % (k, i, [t[0] for t in cur], v)))
                    break
                if y is None and not (isinstance(x, str) and x.startswith("!")):
                    bad.append(("wrong answer", "step %d: position %d of a table of %d spaces gave %s" % (k, i, len(cur), v)))
                    break
        elif s[0] == "use" and same and not gone:
            want = res[uses.index(s[1])]
            if v[0] != want and not (v[1] and isinstance(v[0], list) and v[0][:1] == ["!"]):
                bad.append(("different result", "step %d: under spaces equal to the original ones %s %s returned %s instead of %s" % (k, s[1][1], s[1][2:], v[0], want)))
        elif s[0] == "look" and same:
            want = [o for o in objs if o[0] not in gone]
            for a, b in zip(v, want):
                if a != b:
                    bad.append(("different result", "step %d: under spaces equal to the original ones object %s is %s instead of %s" % (k, a[0], a[1], b[1])))
                    break
        elif s[0] == "work":
            want = c13.fresh(ctx, cur, s[1])
            for i, (x, y) in enumerate(zip(v, want)):
                if x != y:
                    bad.append(("wrong result", "step %d: new work, call %d (%s %s) returned %s, in a fresh process %s" % (k, i, s[1][i][1], s[1][i][2:], x, y)))
                    break
    return bad


def same_table(a, b):
    return [list(x[:4]) for x in a] == [list(x[:4]) for x in b]


def shrink(case, plan):
    st = case["steps"]
    n = len(st)
    for size in (n // 2, n // 4, 2, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            keep = st[:i] + st[i + size:]
            fs = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if keep:
                yield dict(case, steps=keep), dict(plan, opfaults=fs)
    from props import c09
    for k, s in enumerate(st):
        if s[0] == "work" and len(s[1]) > 1:
            for i in range(len(s[1]) - 1, -1, -1):
                yield dict(case, steps=st[:k] + [["work", s[1][:i] + s[1][i + 1:]]] + st[k + 1:]), plan
    need = {"ops": [s[1] for s in st if s[0] == "use"], "setup": case["setup"]}
    keep = c09.used(need)
    if len(keep) < len(case["setup"]) and not any(s[0] == "look" for s in st):
        yield dict(case, setup=keep), plan


def other_table(rng, tab):
    x = rng.random()
    if x < 0.25:
        return []
    if x < 0.45:
        return [list(t) for t in tab[:rng.randint(0, len(tab) - 1)]]
    if x < 0.6:
        return c13.variant(rng, tab)
    if x < 0.7:
        t = [list(y) for y in tab]
        t[0][0] = rng.choice([c for c in "zyxwu" if c not in [y[0] for y in tab]])
        return t
    if x < 0.8:  # a longer one
        t = [list(y) for y in tab]
        t.insert(rng.randint(0, len(t)), ["z", "fermion", rng.choice(gen.KINDS), ["y1", "y2"]])
        return t
    return progs.table_for(rng)


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        tab = progs.table_for(rng)
        g = progs.Gen(rng, tab)
        names = progs.focus(rng, p=0.15)
        uses = [g.call(names) for _ in range(rng.randint(4, 10))]
        steps = []
        for _ in range(rng.randint(1, 3)):
            t = other_table(rng, tab)
            steps.append(["table", t])
            for _ in range(rng.randint(3, 9)):
                x = rng.random()
                if x < 0.6:
                    steps.append(["use", rng.choice(uses)])
                elif x < 0.75:
                    steps.append(["query", rng.choice(POSITIONS)])
                elif x < 0.82 and t:
                    steps.append(["work", c13.block(rng, t, rng.randint(1, 3))])
                elif x < 0.9:
                    steps.append(["look"])
                elif x < 0.95:
                    n = [c for c in "zyxwu" if c not in [y[0] for y in t]][0]
                    steps.append(["add", [n, "fermion", rng.choice(gen.KINDS), [n + "1", n + "2"], []]])
            if rng.random() < 0.4:  # the work in which contractions see stale labels
                steps.append(["use", rng.choice(uses)])
        steps.append(["table", tab])
        steps += [["use", u] for u in uses] + [["look"]] + [["query", rng.choice(POSITIONS)]]
        case = {"tab": tab, "setup": g.steps, "steps": steps, "late": rng.random() < 0.3}
        ctx.stats["cases"] += 1
        ctx.count("calls under another table", sum(1 for s in steps[:-len(uses) - 3] if s[0] == "use"))
        base = ctx.check(case, {"cfg": dict(core.SEQCFG, **core.memory(rng, 0.5))}, nontrivial=True)
        scale = max(100, base.stats["steps"])
        sites = [(k, v[2]) for k, (s, v) in enumerate(zip(steps, base.value)) if s[0] == "use" and v[2]]
        for _ in range(3 if ctx.quick else 12):
            if ctx.late():
                return
            fs = [[k, 6, rng.randrange(n), rng.choice([1, 1, 1 << 40])] for k, n in sites if rng.random() < 0.3]
            ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale), "opfaults": fs}, nontrivial=True)
