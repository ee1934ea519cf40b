"""C17: no call ends, hangs or damages the process, whatever its arguments, its size and the failures."""
import core
import gen
import interp
import progs
from props import c13

LEVEL = "exploration"
RUNAWAY = True  # a case that takes all memory in a run without simulation too is a violation
JOBS = {"quick": 150, "thorough": 6000}
RULE = ("calls with empty, negative, repeated, contradictory, malformed and large arguments (operators of hundreds of legs, terms of hundreds of "
        "indices and operators, many spaces, long strings and labels, numbers at the limits) between ordinary ones, with failed allocations, "
        "thread launches and signals; every call must return or raise, under a monitor of all memory accesses; without a fault it must give what "
        "a fresh process gives; other objects and later calls must be as in a fresh process; non-trivial: a call of the extreme kind ran")
INTS = [-2147483648, -65536, -129, -65, -3, -2, -1, 0, 1, 2, 3, 20, 21, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 1000, 65536, 2147483647]
CHARS = "abovcgT+-^_{}(),0123456789 /\n\t\\$.é\0:[]"


def execute(sim, case, plan):
    faults = {}
    for f in plan.get("opfaults", []):
        faults.setdefault(f[0], []).append(f[1:])
    sim.interrupts()
    sim.begin()
    interp.define(case["tab"])
    keep = interp.Machine(sim)
    keep.run(case["setup"])
    out = []
    for k, prog in enumerate(case["blocks"]):
        interp.define(case["tab"])
        m = interp.Machine(sim, faults.get(k, []))
        m.env.update(keep.env)
        n0 = sim.fired
        v = [m.step(s) for s in prog]
        out.append([[x[0] for x in v], sim.fired - n0, [x[1] for x in v], [x[2] for x in v], m.where, [x[3] for x in v]])
        m = None
    interp.define(case["tab"])
    look = []
    for n in sorted(keep.env):
        try:
            look.append([n, interp.obs(keep.env[n])])
        except Exception as x:
            look.append([n, type(x).__name__])
    return [out, look, [x[0] for x in interp.Machine().run(case["probe"])]]


def fresh(ctx, tab, setup, prog):
    def f():
        interp.define(tab)
        m = interp.Machine()
        m.run(setup)
        look = [[n, interp.obs(m.env[n])] for n in sorted(m.env)]
        return look, [m.step(s)[0] for s in prog]
    return ctx.oracle(f, [tab, setup, prog])


def judge(ctx, case, plan, r):
    bad = []
    out, look, probe = r.value
    for k, (prog, v) in enumerate(zip(case["blocks"], out)):
        if v[1]:
            continue
        want = fresh(ctx, case["tab"], case["setup"], prog)[1]
        for i, (x, y) in enumerate(zip(v[0], want)):
            if x != y:
                bad.append(("different result", "block %d, call %d (%s %s) returned %s, in a fresh process %s" % (k, i, prog[i][1], short(prog[i][2:]), short(x), short(y))))
                break
    objs, want = fresh(ctx, case["tab"], case["setup"], case["probe"])
    for a, b in zip(look, objs):
        if a != b:
            bad.append(("damaged object", "object %s is %s at the end, was %s" % (a[0], short(a[1]), short(b[1]))))
    for i, (x, y) in enumerate(zip(probe, want)):
        if x != y:
            bad.append(("damaged process", "afterwards call %d (%s %s) returned %s, in a fresh process %s" % (i, case["probe"][i][1], short(case["probe"][i][2:]), short(x), short(y))))
            break
    return bad


def short(x):
    s = str(x)
    return s if len(s) < 200 else s[:150] + "...(%d characters)" % len(s)


def shrink(case, plan):
    bl = case["blocks"]
    fs = plan.get("opfaults", [])
    for k in range(len(bl)):
        yield dict(case, blocks=bl[:k] + bl[k + 1:]), dict(plan, opfaults=[f if f[0] < k else [f[0] - 1] + f[1:] for f in fs if f[0] != k])
    if len(case["probe"]) > 1:
        for i in range(len(case["probe"])):
            yield dict(case, probe=case["probe"][:i] + case["probe"][i + 1:]), plan
    for k, p in enumerate(bl):
        for i in range(len(p) - 1, -1, -1):
            if len(p) > 1 and not (p[i][0] and ("$" + p[i][0]) in repr(p[i + 1:])):
                f2 = [f if f[0] != k or f[1] < i else [k, f[1] - 1] + f[2:] for f in fs if f[0] != k or f[1] != i]
                yield dict(case, blocks=bl[:k] + [p[:i] + p[i + 1:]] + bl[k + 1:]), dict(plan, opfaults=f2)


class Extreme:
    """calls at the limits"""

    def __init__(self, rng, tab):
        self.rng, self.tab = rng, tab
        self.g = progs.Gen(rng, tab)

    def size(self, top=300):
        return min(top, self.rng.choice([0, 1, 2, 3, 5, 8, 9, 16, 17, 20, 21, 32, 33, 63, 64, 65, 66, 70, 99, 100, 101, 102, 103, 104, 110, 127, 128, 129, 150, 200, 256, 257, 300]))

    def label(self):
        return self.rng.choice(self.tab)[0] if self.tab and self.rng.random() < 0.9 else self.rng.choice("?Zz1 _+é")

    def name(self):
        rng = self.rng
        return rng.choice(["", "T", "T", "T2", "x" * rng.choice([15, 16, 17, 100, 3000]), "a b", "é", "{", "_", "9", "lambda12", "T" + str(rng.choice(INTS))])

    def index(self):
        return "%s%s%s" % (self.label(), self.rng.choice(["", "", "_"]), self.rng.choice([self.rng.randint(0, 9), self.rng.randint(0, 300), self.rng.choice(INTS), "", "99999999999"]) if self.rng.random() < 0.3 else self.rng.randint(0, 400))

    def raw(self):
        rng = self.rng
        n = len(self.tab)
        return [rng.randrange(n) if n and rng.random() < 0.9 else rng.choice([-2147483648, -1, n, n + 1, 7, 8, 9, 2147483647]), rng.randint(0, 400) if rng.random() < 0.8 else rng.choice(INTS)]

    def span(self, n):
        """n indices, of one or of all spaces, in or out of order, now and then repeated"""
        rng = self.rng
        n0 = rng.choice([0, 0, 0, 1, 60, 100])
        s = rng.randrange(len(self.tab)) if self.tab else 0
        v = [[s if rng.random() < 0.95 or not self.tab else rng.randrange(len(self.tab)), n0 + k] for k in range(n)]
        if rng.random() < 0.4:
            rng.shuffle(v)
        if rng.random() < 0.2 and v:
            v[rng.randrange(n)] = rng.choice(v)
        return v

    def text(self, s):
        """a string with a few characters dropped, doubled, exchanged or put in"""
        rng = self.rng
        s = list(s)
        for _ in range(rng.choice([1, 1, 2, 5])):
            i = rng.randrange(len(s) + 1)
            x = rng.random()
            if x < 0.35:
                del s[i:i + 1]
            elif x < 0.6:
                s.insert(i, rng.choice(CHARS))
            elif x < 0.8:
                s[i:i + 1] = s[i:i + 1] * 2
            elif x < 0.9:
                s[i:i + 1] = [rng.choice(CHARS)]
            else:
                s[i:i + 3] = []
        return "".join(s)

    def tensor(self, n=None):
        """text of a tensor"""
        n = self.size(250) if n is None else n
        names = [t[0] for t in self.tab] or ["o"]
        ind = lambda v: ",".join("%s%d" % (names[s] if s < len(names) else "?", p) for s, p in v)
        return "%s^{%s}_{%s}" % (self.rng.choice(["T", "V2", "T" * 40]), ind(self.span(n)), ind(self.span(self.rng.choice([n, n, 0, 1]))))

    def string(self, n):
        rng = self.rng
        names = [t[0] for t in self.tab] or ["o"]
        l = rng.choice(names)
        return " ".join("a%s(%s%d)" % (rng.choice("+-") if n < 8 else "+" if rng.random() < 0.97 else "-", l if rng.random() < 0.9 else rng.choice(names), k) for k in range(n))

    def legs(self, n, plus):
        """component with n legs in one space, a few elsewhere"""
        rng = self.rng
        l = self.label()
        c = [l + ("+" if plus else "")] * n
        if rng.random() < 0.3 and self.tab:
            c.append(rng.choice(self.tab)[0] + rng.choice(["+", ""]))
        return " ".join(c)

    def contraction(self):
        """a product of large operators, contracted to a rank at which few contractions are left"""
        rng = self.rng
        g = self.g
        l = self.label()
        n = self.size(200)
        m = rng.choice([n, n, n, n + 1, max(0, n - 1), 1, 0])
        first = rng.random() < 0.5
        parts = [["A", [" ".join([l + ("+" if first else "")] * n)]], ["B", [" ".join([l + ("" if first else "+")] * m)]]]
        if rng.random() < 0.3:
            parts.insert(rng.randint(0, 2), ["C", [self.g.comp(1)]] if self.tab else ["C", [""]])
        total = n + m + (2 if len(parts) == 3 else 0)
        p = g.bind("P", "opsum", [[rng.choice([[1, 1], [-1, 2]]), parts]])
        lo = max(0, total - rng.choice([0, 0, 2, 4, 6]))
        hi = rng.choice([total, total, total + 1, 2147483647, lo, lo - 1, -1])
        gen_space = [t[2] for t in self.tab if t[0] == l] == ["general"]
        cum = [["cumulant", rng.choice([-2147483648, -1, 0, 1, 1, 2])]] if gen_space else [["cumulant", rng.choice(INTS)]] if rng.random() < 0.3 else []
        w = g.bind("W", "engine", cum + ([["single", True]] if rng.random() < 0.6 else []) + ([["canon", False]] if rng.random() < 0.3 else []))
        if hi - lo > 8 or n <= 6:
            hi = max(lo - 1, min(hi, total + 1))
        g.steps.append([None, "contract", w, [1, 1], p, lo, hi])

    def call(self):
        rng, g = self.rng, self.g
        x = rng.randrange(26)
        n = self.size()
        add = lambda *s: g.steps.append([None] + list(s))
        if x <= 2:
            self.contraction()
        elif x == 3:
            e = g.bind("E", "expr", rng.choice(["", "-1/3 ", "2147483647/2 ", "-2147483648 "]) + " ".join(self.tensor() for _ in range(rng.choice([1, 1, 2, 3]))), rng.choice(["anti", "anti", "symm", "none"]))
            for _ in range(rng.randint(1, 3)):
                add(rng.choice(["x_canon", "x_canon", "e_latex", "e_str", "e_adjoint", "e_mbeq_all", "e_einsum", "e_vno", "e_norm"]), e, *[])
                self.fill(g.steps[-1])
        elif x == 4:
            e = g.bind("E", "expr", self.string(self.size(24)))
            add(rng.choice(["x_canon", "e_vno", "e_latex", "e_mbeq_all", "e_adjoint", "e_isvno"]), e)
            self.fill(g.steps[-1])
        elif x == 5:
            terms = []
            for _ in range(rng.choice([1, 1, 2])):
                k = self.size(150)
                terms.append([rng.choice(gen.FACTORS), [[self.name(), self.span(k), self.span(rng.choice([k, 0, 1])), rng.choice(["anti", "anti", "symm"])] for _ in range(rng.choice([0, 1, 2]))],
                              [[rng.random() < 0.5, self.raw()] for _ in range(rng.choice([0, 0, 1, 2, 5]))], rng.random() < 0.3])
            e = g.bind("E", "rawexpr", terms)
            for _ in range(rng.randint(1, 3)):
                add(rng.choice(["x_canon", "x_canon", "e_latex", "e_str", "e_adjoint", "e_mbeq_all", "e_einsum", "e_norm", "e_terms"]), e)
                self.fill(g.steps[-1])
        elif x == 6:
            add("op", self.name(), [self.legs(n, rng.random() < 0.5) for _ in range(rng.choice([0, 1, 2]))])
        elif x == 7:
            add("op", "T", [self.text(g.comp(3)) if self.tab else self.text("o+ v")])
        elif x == 8:
            add("expr", self.text(g.eterm() if self.tab else "t^{o0}_{v0}"))
        elif x == 9:
            add(rng.choice(["tensor", "index", "indices", "cre", "ann", "rat_str", "exprs"]), self.text(rng.choice([self.tensor(rng.choice([0, 1, 3, 40])), self.index(), "-12/35", "", ",", "o0,v1"])))
        elif x == 10:
            m = len(self.tab)
            add("Operator", self.name(), [rng.choice([-2, -1, 0, 1, 2, 70, 130]) for _ in range(rng.choice([m, m, m + 1, max(0, m - 1), 9, 0]))], [rng.choice([-2, -1, 0, 1, 2, 70]) for _ in range(rng.choice([m, m, m + 1, 0, 9]))])
        elif x == 11:
            add("diag_operator", self.name(), [self.label()] * n, [self.label()] * rng.choice([0, 1, n]))
        elif x == 12:
            v = rng.choice([self.span(n), [self.raw() for _ in range(rng.choice([0, 1, 5, 17, 40]))]])
            i = g.bind("IL", "rawindices", v)
            add("canon_indices", i, rng.random() < 0.5)
        elif x == 13:
            add("rational", rng.choice(INTS), rng.choice(INTS))
        elif x == 14:
            f, h = [rng.choice(INTS), rng.choice(INTS)], [rng.choice(INTS), rng.choice(INTS)]
            add("rat_ops", f, h)
        elif x == 15:
            add("partitions", rng.choice([-2147483648, -1, 0, 1, 2, 3, 10, 20, 24]), rng.choice(INTS))
        elif x == 16:
            add("bch", g.get("OE"), g.get("OE"), rng.choice([-2147483648, -1, 0, 1]))
        elif x == 17:
            w = g.bind("W", "engine", [])
            add("configure", w, [rng.choice([["cumulant", rng.choice(INTS)], ["print", rng.choice(["none", "basic", "summary", "detailed", "all", "bogus"])], ["canon", True]])])
            add("contract", w, rng.choice([[1, 1], [0, 1], [1, 0], [2147483647, 3]]), g.prod(), *[rng.choice([-2147483648, -1, 0, 1, 2, 4, 2147483647]) for _ in range(2)])
        elif x == 18:
            self.spaces()
        elif x == 19:
            add(rng.choice(["osi_label", "osi_indices"]), rng.choice(INTS))
        elif x == 20:
            add("gen_op", self.name(), rng.choice([-1, 0, 1, 2, 3]), "".join(self.label() for _ in range(rng.choice([0, 1, 2, 2]))), "".join(self.label() for _ in range(rng.choice([0, 1, 2, 2]))), rng.random() < 0.5)
        elif x == 21:
            add("operator_expr", self.name(), [self.text(g.comp(2)) if rng.random() < 0.4 else self.legs(rng.choice([n, 1]), rng.random() < 0.5)], rng.random() < 0.5, rng.choice(["anti", "symm", "none"]), [rng.choice(INTS), rng.choice(INTS)])
        elif x == 22:
            t = g.bind("T", "tensor4", self.name(), [self.index() for _ in range(rng.choice([0, 1, 5, 70]))], [self.index() for _ in range(rng.choice([0, 1, 70]))], rng.choice(["anti", "symm", "none"]))
            add(rng.choice(["t_latex", "t_compile", "t_parts"]), t)
            self.fill(g.steps[-1])
        elif x == 23:
            l = g.bind("ST", "rawterm", [[self.name(), self.span(n), self.span(rng.choice([0, n])), "anti"]] * rng.choice([0, 1, 2]), [[rng.random() < 0.5, self.raw()] for _ in range(rng.choice([0, 0, 1, 3]))])
            q = g.bind("Q", "equation", l, rng.choice([l, g.get("ST")]), [rng.choice(INTS), rng.choice(INTS)])
            add(rng.choice(["q_str", "q_latex", "q_compile", "q_fields", "q_einsum"]), q)
            self.fill(g.steps[-1])
        elif x == 24:
            ops = [g.get("OE") for _ in range(2)]
            p = ops[0]
            for k in range(rng.choice([3, 20, 40])):
                p = g.bind("OE2", "oe_mul", p, g.bind("OE1", "op", rng.choice("AB"), [g.comp(1)] if self.tab else [""]))
            add(rng.choice(["x_ocanon", "oe_adjoint", "str", "oe_size"]), p)
        else:
            f = [rng.choice(INTS), rng.choice(INTS)]
            if rng.random() < 0.5:
                add("e_scale", g.get("E"), f)
            else:
                add("oe_scale", f, g.get("OE"))

    def fill(self, s):
        """the other arguments of a call on an object"""
        rng = self.rng
        if s[1] == "e_mbeq_all":
            s += [self.name(), rng.choice(["ambit", "einsum", "", "x"])]
        elif s[1] == "e_einsum":
            s += ["R"]
        elif s[1] == "e_vno":
            s += [rng.random() < 0.5]
        elif s[1] in ("t_compile", "q_compile"):
            s += [rng.choice(["ambit", "einsum", "", "x"])]

    def spaces(self):
        """odd definitions, and calls under the table they leave"""
        rng, g = self.rng, self.g
        for _ in range(rng.choice([1, 2, 5, 8, 9, 30])):
            l = rng.choice([chr(rng.randint(33, 126)), self.label(), "", "ab", "é", "\0", " "]) if rng.random() < 0.5 else rng.choice("BCDEFGHIJKLMNOPQRSTUWXYZ")
            k = rng.choice([0, 1, 3, 3, 3, 60])
            ind = ["%s%d" % (l, i) for i in range(k)] if rng.random() < 0.8 else [rng.choice(["", "i", "x" * 300, "é", "i,j"]) for _ in range(k)]
            g.steps.append([None, "add_space", l, rng.choice(["fermion"] * 6 + ["boson", "x"]), rng.choice(gen.KINDS * 3 + ["", "x"]), ind, [rng.choice([l or "?", self.label()]) for _ in range(rng.choice([0, 0, 0, 1, 3]))]])
        g.steps.append([None, "table"])
        for _ in range(rng.randint(1, 4)):
            g.steps.append(g.call())
        if rng.random() < 0.3:
            g.steps.append([None, "reset"])
            g.steps.append(g.call())


def job(ctx):
    rng = ctx.rng
    tab = progs.table_for(rng, 5 if rng.random() < 0.1 else 3)
    setup = progs.Gen(rng, tab)
    for typ in rng.sample(["OE", "E", "EV", "T", "ST", "Q", "I", "S"], 4):
        setup.make(typ)
    probe = progs.Gen(rng, tab)
    for _ in range(3):
        probe.steps.append(probe.call())
    blocks = []
    for _ in range(rng.randint(3, 7)):
        x = Extreme(rng, tab)
        x.g.n = 1000
        for t, v in setup.pool.items():
            x.g.pool[t] = list(v)
        for _ in range(rng.choice([1, 1, 2, 3])):
            x.call()
        blocks.append(x.g.steps)
    case = {"tab": tab, "setup": setup.steps, "blocks": blocks, "probe": probe.steps}
    ctx.stats["cases"] += 1
    ctx.count("calls", sum(len(b) for b in blocks))
    base = ctx.check(case, {"cfg": dict(core.SEQCFG, **core.memory(rng, 0.5))}, nontrivial=True)
    scale = max(100, base.stats["steps"])
    sites = [(k, i, a, c, p, l) for k, v in enumerate(base.value[0]) for i, (a, c, p, l) in enumerate(zip(*v[2:])) if a or c or l]
    if not sites:
        return
    for _ in range((1 if scale > 20000000 else 4) if ctx.quick else 20):
        if ctx.late():
            return
        fs = []
        hit = set(rng.sample(range(len(blocks)), rng.randint(1, max(1, len(blocks) // 2))))
        for k, i, a, c, places, lines in sites:
            if k in hit and rng.random() < 0.5:
                if lines and rng.random() < 0.3:
                    fs.append([k, i, 20, rng.randrange(lines), 1])
                    ctx.count("signals in Python code")
                elif c and rng.random() < 0.3:
                    fs.append([k, i, 7, rng.randrange(c), rng.choice([1, 1 << 40])])
                elif a:
                    fs.append([k, i, 6, core.pick(rng, a, places), rng.choice([1, 1, 2, 1 << 40])])
        ctx.check(case, {"cfg": core.cfg_for(rng, scale=scale), "opfaults": fs}, nontrivial=True)
