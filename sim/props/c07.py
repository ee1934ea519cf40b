"""C07: orbital-space definitions are all-or-nothing."""
import json

import core
import gen
import interp

LEVEL = "fault_enumeration"
JOBS = {"quick": 96, "thorough": 3000}
RULE = ("histories of valid and invalid definitions, retries and resets; fault-free first, then with allocation failures placed at seeded "
        "(thorough: all) allocations of the definitions; after every step the whole table and the resolution of every label are compared "
        "with a fresh process that made only the successful definitions; non-trivial: a fault fired or a definition was rejected")
LABELS = "oavcpq"
INDICES = ["i", "j", "k", "l", "a", "b", "c", "u", "v", "w", "ii", "alpha"]
# names of many lengths (some are kept outside the string object), digits and signs in them
WIDE = INDICES + ["i%d" % n for n in range(8)] + ["p_%d" % n for n in range(8)] + ["a'", "A", "I", "x" * 15, "x" * 16, "long index name %d" % 1, "virtual_orbital_index_2", ""]
TYPES = ["occupied", "unoccupied", "general"]


def resolve(full):
    """how labels resolve: the ones defined, at the end every label of the pool"""
    w = interp.w
    osi = w.osi()
    labels = LABELS if full else [osi.label(i) for i in range(osi.num_spaces())]
    wt = w.WickTheorem()
    wt.set_single_threaded(True)
    out = []
    for l in labels:
        fs = [lambda: [w.cre(l + "0").index().space(), str(w.cre(l + "1").field_type()), w.index(l + "1").latex()]]
        if full:
            fs += [lambda: [w.index(l + "_9").latex(), w.cre(l + "1").latex()],
                   lambda: str(w.op("X", [l + "+ " + l])),
                   lambda: repr(wt.contract(w.rational(1), w.op("X", [l + "+ " + l]) @ w.op("Y", [l + "+ " + l]), 0, 4)),
                   lambda: repr(w.expression("t^{%s0}_{%s1}" % (l, l)))]
        for f in fs:
            try:
                out.append(f())
            except Exception as e:
                out.append("!" + type(e).__name__)
    return out


def view(full=False):
    return [interp.table(interp.w.osi()), interp.w.num_spaces(), resolve(full)]


def execute(sim, case, plan):
    w = interp.w
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    out = []
    sim.begin()
    own = w.OrbitalSpaceInfo()
    held = w.osi()
    for k, s in enumerate(case["steps"]):
        a0, n0 = sim.allocs, sim.ctr("afail")
        for kind, nth, count in faults.get(k, []):
            sim.fault(kind, 0xFFFFFFFF, a0 + nth, count)
        err = None
        try:
            if s[0] == "add":
                w.add_space(*s[1:])
            elif s[0] == "reset":
                w.reset_space()
            elif s[0] == "reset_held":
                held.reset_space()
            elif s[0] == "reset_own":
                own.reset_space()
        except Exception as e:
            err = "!" + type(e).__name__
        sim.clear_faults()
        a1 = sim.allocs
        fired = sim.ctr("afail") - n0
        sim.pause()
        last = k == len(case["steps"]) - 1
        look = last or not case["blind"][k % len(case["blind"])]
        # the separate table is read at the end only: reading it must not stand in for what the global one forgets
        where = [] if faults else sim.sites(a0, a1, 300)
        out.append([err, a1 - a0, fired, where] + ([view(last), interp.table(held), interp.table(own) if last else None] if look else [None, None, None]))
        sim.resume()
    return out


def expected(table, s):
    """does a definition succeed on a table"""
    _, label, field, kind, indices = s[:5]
    el = s[5] if len(s) > 5 else []
    if len(label) != 1 or field not in ("fermion", "boson") or kind not in TYPES:
        return False
    if any(label == t[1] for t in table):
        return False
    used = {i for t in table for i in t[4]}
    if len(set(indices)) != len(indices) or used & set(indices):
        return False
    return all(e == label or any(e == t[1] for t in table) for e in el)


def judge(ctx, case, plan, r):
    bad = []
    table = []
    for k, (s, v) in enumerate(zip(case["steps"], r.value)):
        err, na, fired, _, seen, held, own = v
        if s[0] in ("reset", "reset_held"):
            if err is None:
                table = []
            elif not fired:
                bad.append(("reset failed", "step %d raised %s" % (k, err)))
        elif s[0] == "add":
            ok = expected(table, s)
            if err is None and not ok:
                bad.append(("invalid definition accepted", "step %d: %s accepted with %s defined" % (k, s, [t[1:] for t in table])))
            if err is not None and ok and not fired:
                bad.append(("valid definition rejected", "step %d: %s raised %s with %s defined" % (k, s, err, [t[1:] for t in table])))
            if err is None:
                table = table + [s]
        if seen is None:
            continue
        want = twin(ctx, table, k == len(case["steps"]) - 1)
        if seen != want:
            bad.append(("table differs", "after step %d (%s, %s) the table is %s, a process that made only the successful definitions has %s" % (
                k, s, err or "succeeded", first_diff(seen, want)[0], first_diff(seen, want)[1])))
            return bad
        n = len(table)
        if seen[0][0] != n or seen[0][1] != [t[1] for t in table] or seen[0][2] != [list(t[4]) for t in table]:
            bad.append(("table differs", "after step %d the table is %s instead of %s" % (k, seen[0], [t[1:] for t in table])))
            return bad
        if held != seen[0]:
            bad.append(("table differs", "after step %d an osi() object obtained before shows %s instead of %s" % (k, held, seen[0])))
        if own is not None and own[0] != 0:
            bad.append(("table differs", "a separate OrbitalSpaceInfo shows %s" % own))
    return bad


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return [x, y]
    return [a, b]


def twin(ctx, table, full):
    def f():
        for s in table:
            interp.w.add_space(*s[1:])
        return view(full)
    return ctx.oracle(f, ["table", table, full])


def gen_add(rng, table, wide=False, old=()):
    """a definition, valid more often than not"""
    INDICES, LABELS = (WIDE, "oavcpqxyzgh") if wide else (globals()["INDICES"], globals()["LABELS"])
    if old and rng.random() < 0.4:  # one of before a reset, changed a little
        s = [list(y) if isinstance(y, list) else y for y in rng.choice(old)]
        x = rng.random()
        if x < 0.3:
            rng.shuffle(s[4])
        elif x < 0.6:
            s[4] = rng.sample(INDICES, len(s[4]))
        elif x < 0.7:
            s[3] = rng.choice(TYPES)
        elif x < 0.8:
            s[1] = rng.choice(LABELS)
        return s
    used = {i for t in table for i in t[4]}
    labels = [l for l in LABELS if not any(l == t[1] for t in table)]
    free = [i for i in INDICES if i not in used]
    n = rng.randint(0, 4) if rng.random() < 0.3 else rng.randint(1, 12 if wide else 4)
    label = rng.choice(labels) if labels else rng.choice(LABELS)
    ind = rng.sample(free, min(n, len(free)))
    s = ["add", label, "boson" if rng.random() < 0.1 else "fermion", rng.choice(TYPES), ind]
    if rng.random() < 0.2:
        s.append([rng.choice([t[1] for t in table] + [label])])
    x = rng.random()
    if x < 0.1 and table:
        s[1] = rng.choice(table)[1]
    elif x < 0.25 and used:  # an index in use, at any place of the list
        s[4] = list(ind)
        s[4].insert(rng.randint(0, len(ind)), rng.choice(sorted(used)))
    elif x < 0.32 and ind:
        s[4] = ind + [rng.choice(ind)]
    elif x < 0.37:
        s[3] = "Occupied"
    elif x < 0.41:
        s[2] = "anyon"
    elif x < 0.46:
        s = s[:5] + [[rng.choice([l for l in "zxy" + "".join(labels)])]]
    return s


def gen_steps(rng, n):
    steps, table = [], []
    wide = rng.random() < 0.35
    if rng.random() < 0.25:  # the same spaces again and again, changed a little
        while len(steps) < n:
            table = []
            for k in range(rng.randint(1, 4)):
                s = gen_add(rng, table, wide)
                if expected(table, s):
                    table.append(s)
            for _ in range(rng.randint(1, 3)):
                steps += [["reset"]] + table
                i = rng.randrange(len(table)) if table else None
                if i is not None:
                    s = gen_add(rng, table[:i] + table[i + 1:], wide, [table[i]] if rng.random() < 0.7 else ())
                    t2 = table[:i] + [s] + table[i + 1:]
                    if all(expected(t2[:k], x) for k, x in enumerate(t2)):
                        table = t2
        return steps
    while len(steps) < n:
        x = rng.random()
        if x < 0.12:
            steps.append([rng.choice(["reset", "reset", "reset_held", "reset_own"])])
            if steps[-1][0] != "reset_own":
                table = []
        elif x < 0.3 and steps and steps[-1][0] == "add":  # try again, perhaps corrected
            s = [list(y) if isinstance(y, list) else y for y in steps[-1]]
            if rng.random() < 0.5:
                s = gen_add(rng, table, wide)
                s[1] = steps[-1][1]
            steps.append(s)
        else:
            steps.append(gen_add(rng, table, wide, [s for s in steps if s[0] == "add" and s not in table]))
        if steps[-1][0] == "add" and expected(table, steps[-1]):
            table.append(steps[-1])
    return steps


def shrink(case, plan):
    st = case["steps"]
    n = len(st)
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            f2 = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if st[:i] + st[i + size:]:
                yield dict(case, steps=st[:i] + st[i + size:]), dict(plan, opfaults=f2)


def job(ctx):
    rng = ctx.rng
    for _ in range(3):
        if ctx.late():
            return
        steps = gen_steps(rng, rng.randint(3, 14))
        # looking at the table may itself change what the library remembers: in half of the cases only some steps are looked at
        case = {"steps": steps, "blind": [0] if rng.random() < 0.4 else [int(rng.random() < 0.7) for _ in steps]}
        if rng.random() < 0.3:  # only complete tables are looked at
            case["blind"] = [int(x[0] != "reset") for x in steps[1:]] + [0]
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG, **core.memory(rng))}, nontrivial=True)
        sites = [(k, v[1], v[3]) for k, v in enumerate(base.value) if v[1]]
        ctx.count("definitions", sum(1 for s in case["steps"] if s[0] == "add"))
        ctx.count("allocations inside definitions", sum(s[1] for s in sites))
        if not sites:
            continue
        rounds = 10 if ctx.quick else max(s[1] for s in sites)
        for m in range(rounds):
            if ctx.late():
                return
            fs = []
            for k, n, where in sites:
                if ctx.quick:
                    if rng.random() < 0.4:
                        fs.append([k, 6, core.pick(rng, n, where), rng.choice([1, 1, 1, 3])])
                elif m < n:
                    if rng.random() < 0.5 or len(sites) == 1:
                        fs.append([k, 6, m, 1])
            if fs:
                ctx.check(case, {"cfg": dict(core.SEQCFG), "opfaults": fs})
