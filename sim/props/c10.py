"""C10: concurrent callers see each API call as atomic and isolated."""
import itertools
import sys
import threading
import traceback

import core
import gen
import interp
import progs
import simapi

LEVEL = "exploration"
JOBS = {"quick": 200, "thorough": 5000}
RULE = ("programs of two or three Python threads that call the library on shared and on private objects and redefine orbital spaces, with "
        "the interpreter lock, its switch interval and all thread switches simulated, and an allocation of one thread failed now and then; "
        "the results of all calls and the final shared objects must be those of some one-at-a-time order of the calls that respects the "
        "order within and between threads (every order is run); walks over a shared expression may only show terms it had in some order; "
        "non-trivial: at least one context switch")
ASSUMPTIONS = ["a walk over an expression and the helpers written in Python (gen_op, string_to_expr, compile_einsum) are several calls"]
SPACES = ("reset", "add_space", "osi_reset")

OPS = dict(interp.OPS)
OPS.update({
    "e_canonicalize": lambda e: e.canonicalize() and None,
    "oe_canonicalize": lambda e: e.canonicalize() and None,
    "oe_add2": lambda a, b, f: a.add2(b, interp.frac(f)),
    "next": lambda it: next(it),
    "e_terms": lambda e: [x for x in e],
    "e_iadd_expr": interp.iadd,
})


class Client(interp.Machine):
    """one thread of the program: keeps what the calls returned"""

    def __init__(self, env):
        super().__init__()
        self.env = dict(env)
        self.out = []

    def do(self, step):
        args = None
        try:
            args = [self.arg(a) for a in step[2:]]
            v = OPS[step[1]](*args)
        except Exception as e:
            if step[0]:
                self.env.pop(step[0], None)
            self.out.append(interp_error(e))
            return
        finally:
            args = None
        if step[0]:
            self.env[step[0]] = v
        self.out.append([v])


def interp_error(e):
    return "!" + type(e).__name__


def see(v):
    if isinstance(v, str):
        return ["!", v[1:]]
    try:
        return interp.obs(v[0])
    except Exception as e:
        return ["!obs", type(e).__name__]


def observe(clients, case, m):
    """results of the calls, the shared objects and the table, after everything"""
    res = []
    for c, steps in zip(clients, case["threads"]):
        res.append([None if s[1] in ("e_terms", "e_iter") and not isinstance(v, str) else see(v) for s, v in zip(steps, c.out)])
    fin = {n: see([m.env[n]]) for n in case["shared"] if n in m.env}
    try:
        t = interp.table(interp.w.osi())
    except Exception as e:
        t = type(e).__name__
    return [res, fin, t]


def execute(sim, case, plan):
    interp.define(case["tab"])
    m = interp.Machine()
    setup = m.run(case["setup"])
    log = []
    clients = [Client(m.env) for _ in case["threads"]]
    faults = {(f[0], f[1]): f[2:] for f in plan.get("opfaults", [])}
    fired = []

    errors = []

    def body(t):
        try:
            client(t)
        except BaseException:
            errors.append(traceback.format_exc())

    def client(t):
        c = clients[t]
        mine = []
        for k, s in enumerate(case["threads"][t]):
            f = faults.get((t, k))
            if f:
                mine.append(sim.fault_here(f[1], f[2]))
            n0 = sum(map(sim.fault_fired, mine))
            log.append((t, k, 0))
            c.do(s)
            log.append((t, k, 1))
            if sum(map(sim.fault_fired, mine)) > n0:
                fired.append([t, k])
            c.n += 1
    old = sys.getswitchinterval()
    simapi.watch_lines(lambda code, line: simapi.lib.sim_tick(20))
    ts = [threading.Thread(target=body, args=(t,)) for t in range(len(clients))]
    sys.setswitchinterval(plan.get("interval", 5) * 1e-6)
    sim.begin()
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errors:
        raise RuntimeError(errors[0])
    idle = sim.drain()
    sim.clear_faults()
    sim.pause()
    sys.setswitchinterval(old)
    walks = [[[[str(a), repr(b)] for a, b in v[0]] if s[1] == "e_terms" and not isinstance(v, str) else None
              for s, v in zip(steps, c.out)] for c, steps in zip(clients, case["threads"])]
    return [observe(clients, case, m), log, fired, walks, idle]


def orders(case, log):
    """interleavings of the calls that respect the real-time order"""
    pos = {(t, k, x): i for i, (t, k, x) in enumerate(log)}
    n = [len(s) for s in case["threads"]]

    def rec(at, done):
        if all(a == b for a, b in zip(at, n)):
            yield list(done)
            return
        cand = [(t, at[t]) for t in range(len(n)) if at[t] < n[t]]
        first = min(pos[(t, k, 1)] for t, k in cand)
        for t, k in cand:
            if pos[(t, k, 0)] <= first:
                at[t] += 1
                done.append((t, k))
                yield from rec(at, done)
                done.pop()
                at[t] -= 1
    return list(rec([0] * len(n), []))


def serial(case, order, skip):
    """outcome of the calls made one at a time (in a fork); skip: calls that had no effect"""
    interp.define(case["tab"])
    m = interp.Machine()
    m.run(case["setup"])
    clients = [Client(m.env) for _ in case["threads"]]
    seen = {}

    def look():
        for n in case["shared"]:
            if isinstance(m.env.get(n), interp.w.Expression):
                try:
                    seen.setdefault(n, []).extend([str(a), repr(b)] for a, b in m.env[n])
                except Exception:
                    pass
    look()
    for t, k in order:
        s = case["threads"][t][k]
        c = clients[t]
        if [t, k] in skip:
            if s[0]:
                c.env.pop(s[0], None)
            c.out.append("!MemoryError")
        else:
            c.do(s)
        look()
    return [observe(clients, case, m), seen]


def judge(ctx, case, plan, r):
    got, log, fired, walks, idle = r.value
    log = [tuple(x) for x in log]
    skip = sorted([t, k] for t, k in fired if got[0][t][k] == ["!", "MemoryError"])
    memo = ctx.cache.setdefault("serial" + repr((case, skip)), {})
    allowed = orders(case, log)
    done = [tuple(x[:2]) for x in log if x[2] == 1]
    allowed.sort(key=lambda o: o != done)
    import json
    match, texts, states = False, [], {}
    walking = any(w is not None for ws in walks for w in ws)
    CH = 16
    for i in range(0, len(allowed), CH):
        part = [o for o in allowed[i:i + (1 if i == 0 and not walking else CH)]]
        if i == 0 and not walking:
            part = allowed[:1]
        todo = [o for o in part if repr(o) not in memo]
        if todo:
            def f():
                return [serial(case, o, skip) for o in todo]
            ctx.stats["oracle_runs"] += len(todo)
            import simapi
            for o, x in zip(todo, simapi.twin(f)):
                memo[repr(o)] = x
        for o in part:
            x, seen = memo[repr(o)]
            for n, l in seen.items():
                states.setdefault(n, set()).update(map(repr, l))
            if x == got:
                match = True
        if match and not walking:
            break
        if i == 0 and not walking:  # the guess was wrong: all others
            rest = allowed[1:]
            return judge_rest(ctx, case, got, rest, memo, skip)
    bad = []
    if not match:
        bad.append(("not serializable", text(case, got, [memo[repr(o)][0] for o in allowed])))
    for t, ws in enumerate(walks):
        for k, w in enumerate(ws):
            if w is not None:
                n = case["threads"][t][k][2][1:]
                if n in states:
                    for item in w:
                        if repr(item) not in states[n]:
                            bad.append(("phantom term", "the walk of thread %d over %s shows %s, which it never had" % (t, n, item)))
    return bad


def judge_rest(ctx, case, got, rest, memo, skip):
    import simapi
    for i in range(0, len(rest), 16):
        part = rest[i:i + 16]
        todo = [o for o in part if repr(o) not in memo]
        if todo:
            ctx.stats["oracle_runs"] += len(todo)
            for o, x in zip(todo, simapi.twin(lambda: [serial(case, o, skip) for o in todo])):
                memo[repr(o)] = x
        if any(memo[repr(o)][0] == got for o in part):
            return []
    return [("not serializable", text(case, got, [x[0] for x in memo.values()]))]


def text(case, got, outs):
    """where the outcome differs from every order"""
    for t, steps in enumerate(case["threads"]):
        for k, s in enumerate(steps):
            vals = [o[0][t][k] for o in outs]
            if got[0][t][k] not in vals:
                return "call %d of thread %d (%s %s) returned %s; in one-at-a-time orders %s" % (k, t, s[1], s[2:], got[0][t][k], uniq(vals))
    for n in got[1]:
        vals = [o[1].get(n) for o in outs]
        if got[1][n] not in vals:
            return "%s ends as %s; in one-at-a-time orders as %s" % (n, got[1][n], uniq(vals))
    if got[2] not in [o[2] for o in outs]:
        return "the spaces end as %s; in one-at-a-time orders as %s" % (got[2], uniq([o[2] for o in outs]))
    return "no one-at-a-time order of the calls gives this combination of results: %s" % (got[:2],)


def uniq(vals):
    out = []
    for v in vals:
        if v not in out:
            out.append(v)
    return " or ".join(map(str, out[:4]))


def shrink(case, plan):
    th = case["threads"]
    for t in range(len(th)):
        if len(th) > 1:
            fs = [[f[0] - (f[0] > t)] + f[1:] for f in plan.get("opfaults", []) if f[0] != t]
            yield dict(case, threads=th[:t] + th[t + 1:]), dict(plan, opfaults=fs)
    for t in range(len(th)):
        for k in range(len(th[t])):
            fs = [[f[0], f[1] - (f[0] == t and f[1] > k)] + f[2:] for f in plan.get("opfaults", []) if f[:2] != [t, k]]
            if len(th[t]) > 1:
                yield dict(case, threads=th[:t] + [th[t][:k] + th[t][k + 1:]] + th[t + 1:]), dict(plan, opfaults=fs)
    used = set()
    need = [x for s in th for c in s for x in c[2:]] + ["$" + n for n in case["shared"] if any("$" + n in map(str, c) for s in th for c in s)]
    for s in reversed(case["setup"]):
        if any(s[0] and "$" + s[0] in str(x) for x in need):
            used.add(s[0])
            need += s[2:]
    keep = [s for s in case["setup"] if s[0] in used]
    if len(keep) < len(case["setup"]):
        yield dict(case, setup=keep), plan


SHAPES = [[2, 2], [2, 2], [3, 2], [3, 3], [2, 2, 1], [1, 1, 1], [2, 1, 1], [4, 2], [2, 2, 2]]
PRIVATE = [n for n in progs.VALUE_OPS if n not in ("gen_op", "e_einsum", "q_einsum", "exprs", "table", "e_mbeq_all", "e_terms", "st_parts",
                                                   "t_parts", "i_parts", "sq_parts", "sq_lt", "q_fields", "rat_ops", "commutator3",
                                                   "partitions")]


OWN = [n for n in progs.VALUE_OPS if n != "e_terms"] + ["gen_op", "gen_op", "exprs", "exprs", "q_einsum", "e_einsum", "commutator3"]

PYTHON = ["gen_op", "gen_op", "exprs", "q_einsum", "e_einsum", "commutator3", "e_str"]  # helpers written in Python


# calls that ask for the orbital spaces
DEPEND = "op op_unique diag_operator Operator operator_expr operator_expr expr index indices cre ann tensor oe_str e_str e_latex t_latex i_latex sq_latex e_vno contract q_compile t_compile i_compile bch commutator".split()
# calls that read an expression, an operator expression
READERS = "e_add e_add e_sub e_str e_repr e_len e_latex e_latex e_mul e_scale e_neg e_adjoint e_norm e_dot e_eq e_isvno e_vno e_vno e_mbeq_all x_canon".split()
OREADERS = "oe_size oe_str oe_repr oe_add oe_sub oe_eq oe_adjoint oe_mul oe_copy oe_scale commutator bch x_ocanon".split()


def reader(rng, g, names, x, spaces):
    """a call that reads a shared object"""
    step = g.call([rng.choice(names)])
    if step[1] == "e_mbeq_all" and (spaces or rng.random() < 0.5):
        return [None, "e_mbeq", x, "R"]
    if spaces and step[1].startswith("x_"):  # two calls
        return [None, "str", x]
    where = [i for i, a in enumerate(step) if i > 1 and isinstance(a, str) and a.startswith("$") and a.rstrip("0123456789")[1:] in ("e", "ev", "oe", "eq")]
    i = rng.choice(where)
    return step[:i] + [x] + step[i + 1:]


def gen_case(rng):
    tab = progs.table_for(rng)
    g = progs.Gen(rng, tab)
    e = [g.make(rng.choice(["E", "E", "EV"]))[1:] for _ in range(rng.choice([1, 1, 2]))]
    o = [g.make("OE")[1:]]
    eng = g.bind("W", "engine", [["single", True]] if rng.random() < 0.3 else [])[1:]
    prods = [g.prod() for _ in range(2)]
    spaces = rng.random() < 0.35
    few = rng.sample(DEPEND, rng.choice([1, 2])) if spaces and rng.random() < 0.6 else progs.focus(rng, PRIVATE)
    own = not spaces and rng.random() < 0.3  # helpers written in Python are several calls, but on objects of one thread nobody may notice
    gens = []
    # all threads at the same kinds of call, or at any
    mine = rng.choice([OWN, OWN, rng.sample(OWN, 2), [rng.choice(PYTHON)]])
    focus = rng.choice(["expr", "expr", "oe", "engine", "mixed", "mixed", "private"])
    if spaces and few is not PRIVATE:
        focus = rng.choice(["private", "private", focus])
    threads = []
    for n in rng.choice(SHAPES):
        steps = []
        it = None
        if own:
            g2 = progs.Gen(rng, tab)
            g2.n = 100 * (len(threads) + 1)
            gens.append(g2)
        while len(steps) < n:
            if spaces and rng.random() < 0.4:
                x = rng.random()
                if x < 0.35:
                    steps.append([None, "reset"])
                elif x < 0.85:
                    s = rng.choice(tab) if rng.random() < 0.5 else [rng.choice("xyz"), "fermion", "general", list("XYZ")]
                    steps.append([None, "add_space", s[0], s[1], s[2], s[3], list(s[4]) if len(s) > 4 else []])
                else:
                    steps.append([None, rng.choice(["osi_str", "num_spaces"])] + (["$osi"] if steps and 0 else []))
                    if steps[-1][1] == "osi_str":
                        steps[-1] = [None, "num_spaces"]
                continue
            if own and rng.random() < (0.7 if mine is OWN else 0.95):
                steps.append(g2.call(mine))
                continue
            kind = focus if focus != "mixed" and rng.random() < 0.75 else rng.choice(["expr", "oe", "engine", "private"])
            if kind == "expr":
                x = "$" + rng.choice(e)
                c = rng.random()
                if c < 0.3:
                    steps.append([None, "e_iadd_pair", x, g.get("ST"), rng.choice(gen.FACTORS)])
                elif c < 0.4:
                    steps.append([None, "e_iadd", x, g.get("ST")])
                elif c < 0.45:
                    steps.append([None, "e_iadd_expr", x, "$" + rng.choice(e + [g.get("E")[1:]])])
                elif c < 0.55:
                    steps.append([None, "e_canonicalize", x])
                elif c < 0.65 and not spaces:
                    steps.append([None, "e_terms", x])
                elif c < 0.75 and n - len(steps) > 1:
                    it = g.name("it")
                    steps.append([it, "e_iter", x])
                    for _ in range(n - len(steps)):
                        if rng.random() < 0.8:
                            steps.append([None, "next", "$" + it])
                else:
                    steps.append(reader(rng, g, READERS, x, spaces))
            elif kind == "oe":
                x = "$" + o[0]
                c = rng.random()
                if c < 0.55:
                    steps.append([None, "oe_add2", x, x if rng.random() < 0.3 else g.get("OE"), rng.choice(gen.FACTORS)])
                elif c < 0.65:
                    steps.append([None, "oe_canonicalize", x])
                else:
                    steps.append(reader(rng, g, OREADERS, x, spaces))
            elif kind == "engine":
                w = "$" + eng
                c = rng.random()
                if c < 0.25:
                    k = rng.choice(["cumulant", "canon", "single"])
                    steps.append([None, "configure", w, [[k, rng.choice([0, 1, 2]) if k == "cumulant" else rng.random() < 0.5]]])
                elif c < 0.9:
                    steps.append([None, "contract", w if rng.random() < 0.7 else g.make("W"), rng.choice(gen.FACTORS), rng.choice(prods), 0, rng.choice([0, 2, 4, 12])])
                else:
                    steps.append([None, "op", "T", [g.comp() for _ in range(2)]])
            else:
                steps.append(g.call(few))
        threads.append(steps[:n])
    return {"tab": tab, "setup": g.steps + [s for g2 in gens for s in g2.steps], "threads": threads, "shared": e + o}


def job(ctx):
    rng = ctx.rng
    for _ in range(2):
        if ctx.late():
            return
        case = gen_case(rng)
        ctx.stats["cases"] += 1
        base = ctx.check(case, {"cfg": dict(core.SEQCFG)})
        for s in case["threads"]:
            for c in s:
                ctx.count("call " + c[1])
        scale = max(200, base.stats["steps"])
        for i in range((3 if scale > 2000000 else 10) if ctx.quick else 60):
            if ctx.late():
                return
            plan = {"cfg": core.cfg_for(rng, scale=scale), "interval": rng.choice([1, 1, 2, 5, 50])}
            plan["cfg"]["step_ns"] = rng.choice([10, 100, 1000, 1000])
            if scale > 400000:  # a wait for the interpreter lock ends every few steps: keep their number bounded
                plan["interval"] = rng.choice([5, 50])
                plan["cfg"]["step_ns"] = rng.choice([1, 10])
            if rng.random() < 0.2:
                t = rng.randrange(len(case["threads"]))
                plan["opfaults"] = [[t, rng.randrange(len(case["threads"][t])), 1, rng.choice([0, 1, 2, 5, 20, 100]), rng.choice([1, 1, 3])]]
            ctx.check(case, plan)
