"""C08: in-place operations on expressions are all-or-nothing."""
import re
from fractions import Fraction

import core
import gen
import interp
import model
import progs

LEVEL = "fault_enumeration"
JOBS = {"quick": 160, "thorough": 6000}
RULE = ("programs of in-place changes of expressions and operator expressions, with aliased operands, cancelling terms and changes made "
        "during iteration; the allocations of every change are counted in a fault-free run, then failed one by one (thorough: every one; "
        "quick: a stratified sample), each attempt from the same value; the object must show the old or the complete new value, which is "
        "compared with the same call in a fresh process and with an independent sum of the terms, other objects must not change; "
        "non-trivial: a fault fired")
LINE = re.compile(r"^([+-]?)(\d+(?:/\d+)?)?\s*(.*)$")


def key(t):
    """the library identifies terms that differ only in the normal-ordering braces"""
    return " ".join(t.replace("{", " ").replace("}", " ").split()) if re.search(r"[ab][+-]\(", t) else t.strip()


def value(o):
    """{term: coefficient} of a printed expression"""
    d = {}
    for line in o[2:].split("\n"):
        if line:
            m = LINE.match(line)
            c = Fraction(m.group(2) or 1) * (-1 if m.group(1) == "-" else 1)
            t = key(m.group(3))
            d[t] = d.get(t, 0) + c
    return {k: v for k, v in d.items() if v}


def form(obs):
    """normal form of an expression, or None where the model does not apply"""
    if obs is None:
        return None
    for _, _, ops in obs:
        types = [o[0] for o in ops]
        if types != sorted(types, reverse=True):
            return None
    try:
        return model.obs_normal_form(obs)
    except (ValueError, model.TooBig):
        return None


def plus(a, b, f=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + v * f
    return {k: v for k, v in d.items() if v}


def meaning(step, env, res, forms):
    """what is wrong with the new value according to an independent sum of terms; env: values before, forms: normal forms"""
    name, x = step[1], step[2][1:]
    old, new = env[x]
    a, b = value(old), value(new)
    if name in ("e_iadd", "e_iadd_pair"):
        o = env[step[3][1:]][0]
        f = Fraction(*step[4]) if name == "e_iadd_pair" else 1
        want = plus(a, value("E:" + o.split(":", 1)[1]) or {"": Fraction(1)}, f)
        if want != b and name == "e_iadd" and o.startswith("Term:"):
            t = LINE.match(o.split(":", 1)[1])  # the coefficient of a term is printed
            want = plus(a, {key(t.group(3)): Fraction(t.group(2) or 1) * (-1 if t.group(1) == "-" else 1)})
        return None if want == b else "the sum is %s" % show(want)
    if name == "oe_add2":
        want = plus(a, value(env[step[3][1:]][0]), Fraction(*step[4]))
        return None if want == b else "the sum is %s" % show(want)
    if name[:4] == "cpp_":
        kind = name.rsplit("_", 1)[1]
        if kind in ("iadd", "isub"):
            want = plus(a, value(env[step[3][1:]][0]), 1 if kind == "iadd" else -1)
        elif kind in ("iscale", "idiv"):
            f = Fraction(*step[3])
            if kind == "idiv" and f == 0:
                return "division by zero was accepted"
            want = {k: v * f if kind == "iscale" else v / f for k, v in a.items() if f}
        elif name == "cpp_oe_imul":
            want = {}
            for k, v in a.items():
                want = plus(want, {(k + " " + l).strip(): v * u for l, u in value(env[step[3][1:]][0]).items()})
        else:
            return None
        return None if want == b else "the new value should be %s" % show(want)
    if name == "e_iter_change":
        seen = {}
        for t, c in res:
            t = key(t)
            if t in seen:
                return "the walk visits the term %s twice" % t
            seen[t] = Fraction(*[int(v) for v in c[len("rational("):-1].split(",")])
        if seen != a:
            return "the walk visited %s instead of %s" % (show(seen), show(a))
        if step[3] == "canonicalize":
            return None
        want = {} if step[3] == "cancel" else plus(a, a)
        return None if want == b else "the new value should be %s" % show(want)
    if name == "e_canonicalize" and forms[0] is not None and forms[1] is not None and forms[0] != forms[1]:
        return "the value changed"
    return None


def show(d):
    return "; ".join("%s * %s" % (c, t) for t, c in d.items()) or "0"



def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    m = interp.Machine()
    if case["cold"]:
        sim.begin()
    interp.define(case["tab"])
    setup = m.run(case["setup"])
    if not case["cold"]:
        sim.begin()
    out = []
    for k, s in enumerate(case["ops"]):
        fs = faults.get(k, [])
        calls = []
        while True:
            sim.pause()
            before = {n: interp.obs(v) for n, v in m.env.items()}
            sim.resume()
            a0, n0 = sim.allocs, sim.ctr("afail")
            for kind, nth, count in (fs if not calls else []):
                sim.fault(kind, 0xFFFFFFFF, a0 + nth, count)
            ok, v = m.call(s)
            sim.clear_faults()
            a1 = sim.allocs
            fired = sim.ctr("afail") - n0
            sim.pause()
            o = interp.obs(v) if ok else ["!", v]
            after = {n: interp.obs(v) for n, v in m.env.items()}
            sim.resume()
            v = None
            calls.append([o, fired, before[s[2][1:]], after[s[2][1:]], [[n, before[n], after[n]] for n in before if before[n] != after[n] and n != s[2][1:]]])
            if not (fired and o and isinstance(o, list) and o[0] == "!" and after[s[2][1:]] == before[s[2][1:]]):
                break  # made, or failed with a value that the judge decides on
            fs = []
        out.append([calls, a1 - a0, [] if faults else sim.sites(a0, a1)])
    return [setup, out]


def expected(ctx, case):
    def f():
        interp.define(case["tab"])
        m = interp.Machine()
        m.run(case["setup"])
        out = []
        for s in case["ops"]:
            x = s[2][1:]
            b = {n[1:]: interp.obs(m.env[n[1:]]) for n in s[2:] if isinstance(n, str) and n.startswith("$")}
            fb = model.expr_obs(m.env[x]) if s[1] == "e_canonicalize" else None
            o = m.step(s)[0]
            out.append([b[x], o, interp.obs(m.env[x]), b, [fb, model.expr_obs(m.env[x]) if fb else None]])
        return out
    return ctx.oracle(f, [case["tab"], case["setup"], case["ops"]])


def judge(ctx, case, plan, r):
    bad = []
    want = expected(ctx, case)
    for k, (calls, na, _) in enumerate(r.value[1]):
        old, res, new, env, forms = want[k]
        s = case["ops"][k]
        if not (isinstance(res, list) and res[:1] == ["!"]):
            boson = any(t[1] == "boson" for t in case["tab"])
            wrong = meaning(s, {n: [v, new if n == s[2][1:] else v] for n, v in env.items()}, res, [None, None] if boson else [form(f) for f in forms])
            if wrong:
                bad.append(("wrong value", "call %d (%s %s) turned %s into %s: %s" % (k, s[1], s[2:], old, new, wrong)))
                return bad
        for rep, (o, fired, before, after, others) in enumerate(calls):
            failed = isinstance(o, list) and len(o) == 2 and o[0] == "!"
            what = "call %d (%s %s), attempt %d%s" % (k, s[1], s[2:], rep, " in which memory ran out" if fired else "")
            if before != old:
                bad.append(("wrong value", "before %s the object is %s instead of %s" % (what, before, old)))
                return bad
            if failed and fired:
                if after not in (old, new):
                    bad.append(("partial change", "%s raised %s and left %s, neither the old value %s nor the new value %s" % (what, o[1], after, old, new)))
                    return bad
            elif o != res or after != new:
                bad.append(("wrong value", "%s returned %s and left %s instead of %s and %s" % (what, o, after, res, new)))
                return bad
            for n, a, b in others:
                bad.append(("other object changed", "%s changed %s from %s to %s" % (what, n, a, b)))
        if calls[-1][3] != new:
            return bad
    return bad


def shrink(case, plan):
    n = len(case["ops"])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            ops = case["ops"][:i] + case["ops"][i + size:]
            fs = [f if f[0] < i else [f[0] - size] + f[1:] for f in plan.get("opfaults", []) if f[0] < i or f[0] >= i + size]
            if ops:
                yield dict(case, ops=ops), dict(plan, opfaults=fs)
    from props import c09
    keep = c09.used(case)
    if len(keep) < len(case["setup"]):
        yield dict(case, setup=keep), plan
    if case["cold"]:
        yield dict(case, cold=False), plan


def gen_case(rng, n):
    tab = progs.table_for(rng)
    g = progs.Gen(rng, tab)
    for _ in range(rng.randint(1, 3)):
        g.make("E")
    for _ in range(rng.randint(1, 2)):
        g.make("OE")
    ops = []
    products = 0
    while len(ops) < n:
        x = rng.random()
        if rng.random() < 0.3:  # the C++ interface
            t = rng.choice(["E", "OE"])
            kind = rng.choice(["iadd", "iadd", "isub", "isub", "imul", "iscale", "idiv"])
            name = "cpp_%s_%s" % (t.lower(), kind)
            a = "$" + rng.choice(g.pool[t])
            if kind in ("iscale", "idiv"):
                ops.append([None, name, a, rng.choice(gen.FACTORS + [[0, 1]] if kind == "idiv" else gen.FACTORS)])
                continue
            if kind == "imul":
                products += 1
                if products > 2:
                    continue
            ops.append([None, name, a, a if rng.random() < 0.35 else "$" + rng.choice(g.pool[t])])
        elif x < 0.4:
            e = "$" + rng.choice(g.pool["E"])
            how = rng.random()
            if how < 0.45:  # a term of some expression, often its own
                src = e if rng.random() < 0.6 else "$" + rng.choice(g.pool["E"])
                l = g.name("l")
                g.steps.append([l, "term_list", src])
                t = g.bind("ST", "item", "$" + l, 0)
            else:
                t = g.get("ST")
            kind = rng.choice(["e_iadd", "e_iadd_pair", "e_iadd_pair", "tm"])
            if kind == "e_iadd":
                ops.append([None, "e_iadd", e, t])
            elif kind == "tm":
                ops.append([None, "e_iadd", e, g.bind("TM", "mkterm", t, rng.choice(gen.FACTORS))])
            else:
                ops.append([None, "e_iadd_pair", e, t, rng.choice(gen.FACTORS + [[0, 1]])])
        elif x < 0.55:
            ops.append([None, "e_canonicalize", "$" + rng.choice(g.pool["E"])])
        elif x < 0.7:
            ops.append([None, "e_iter_change", "$" + rng.choice(g.pool["E"]), rng.choice(["cancel", "double", "canonicalize"])])
        elif x < 0.92:
            a = "$" + rng.choice(g.pool["OE"])
            b = a if rng.random() < 0.35 else g.get("OE", 0.3)
            ops.append([None, "oe_add2", a, b, rng.choice(gen.FACTORS + [[-1, 1], [0, 1]])])
        else:
            ops.append([None, "oe_canonicalize", "$" + rng.choice(g.pool["OE"])])
    return {"tab": tab, "setup": g.steps, "ops": ops, "cold": rng.random() < 0.3}


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        case = gen_case(rng, rng.randint(4, 10))
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG, **core.memory(rng))})
        sites = [(k, v[1], v[2]) for k, v in enumerate(base.value[1])]
        for s in case["ops"]:
            ctx.count("call " + s[1])
        ctx.count("allocation sites", sum(s[1] for s in sites))
        most = max(s[1] for s in sites)
        rounds = min(14, most) if ctx.quick else min(most, 400)
        for i in range(rounds):
            if ctx.late():
                return
            fs = []
            for k, na, where in sites:
                nth = (i if i < na else None) if na <= rounds else core.pick(rng, na, where) if i & 1 and where else min(na - 1, int((i + rng.random()) * na / rounds))
                if nth is not None and case["ops"][k][1] != "e_iter_change":  # a walk is several calls
                    fs.append([k, 6, nth, rng.choice([1, 1, 1, 2, 5, 1 << 40])])
            if fs:
                ctx.check(case, {"cfg": dict(core.SEQCFG), "opfaults": fs})
