"""Generator of typed programs over the whole API (see interp.OPS).

Types: OE operator expression, E expression, T tensor, I index, S second-quantised
operator, ST symbolic term, TM term, Q equation, W engine.  A program is a list of
steps; `setup` steps make operands, the steps to be judged follow.
"""
import gen

MODES = ["ambit", "ambit", "einsum", "basic"]


class Gen:
    def __init__(self, rng, tab, size=2):
        self.rng, self.tab, self.size = rng, tab, size
        self.steps = []
        self.pool = {}     # type -> [variable]
        self.n = 0
        self.labels = [t[0] for t in tab]

    # ---- arguments
    def comp(self, size=None):
        return gen.gen_component(self.rng, self.tab, size or self.size, 0.1)

    def name(self, typ):
        self.n += 1
        return "%s%d" % (typ.lower(), self.n)

    def bind(self, typ, op, *args):
        v = self.name(typ)
        self.steps.append([v, op] + list(args))
        self.pool.setdefault(typ, []).append(v)
        return "$" + v

    def get(self, typ, fresh=0.2):
        p = self.pool.get(typ)
        if not p or self.rng.random() < fresh:
            return self.make(typ)
        return "$" + self.rng.choice(p)

    def make(self, typ):
        """a new object, made by a call that cannot be large"""
        rng = self.rng
        if typ == "OE":
            if rng.random() < 0.25 and len(self.tab) > 1:
                l = "".join(rng.sample(self.labels, min(2, len(self.labels))))
                return self.bind("OE", "gen_op", self.opl(), 1, l, "".join(rng.sample(self.labels, min(2, len(self.labels)))), rng.random() < 0.7)
            comps = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                c = self.comp()
                if c not in comps:
                    comps.append(c)
            return self.bind("OE", "op", self.opl(), comps)
        if typ == "E":
            if rng.random() < 0.3:
                return self.bind("E", "operator_expr", self.opl(), [self.comp()], rng.random() < 0.7, "anti", rng.choice(gen.FACTORS))
            return self.bind("E", "exprs", "\n".join(self.eterm() for _ in range(rng.choice([1, 1, 2, 3]))))
        if typ == "EV":  # strings of operators to bring into normal order
            return self.bind("EV", "exprs", "\n".join(gen.gen_ops_term(rng, self.tab, rng.choice([2, 3, 4, 5, 5, 6])) for _ in range(rng.choice([1, 1, 2]))))
        if typ == "EQ":  # an expression many-body equations can be made of
            return self.bind("EQ", "exprs", "\n".join(self.eqterm() for _ in range(rng.choice([1, 2, 3]))))
        if typ == "T":
            return self.bind("T", "tensor", self.tens(), rng.choice(["anti", "anti", "symm", "none"]))
        if typ == "I":
            return self.bind("I", "Index", rng.choice(self.labels), rng.randint(0, 7))
        if typ == "S":
            return self.bind("S", rng.choice(["cre", "ann"]), gen.gen_index(rng, self.tab))
        if typ == "ST":
            if rng.random() < 0.5:
                e = self.get("E", 0.6)
                l = self.name("l")
                self.steps.append([l, "term_list", e])
                return self.bind("ST", "item", "$" + l, 0)
            return self.bind("ST", "symterm", [self.tens() for _ in range(rng.randint(0, 2))],
                             [[rng.choice("+-"), gen.gen_index(rng, self.tab)] for _ in range(rng.choice([0, 1, 2, 3, 3, 6]))], rng.random() < 0.3)
        if typ == "TM":
            return self.bind("TM", "mkterm", self.get("ST"), rng.choice(gen.FACTORS))
        if typ == "Q":
            if rng.random() < 0.5:
                return self.bind("Q", "e_firsteq", self.get("EQ", 0.5), "R")
            return self.bind("Q", "equation", self.get("ST"), self.get("ST"), rng.choice(gen.FACTORS))
        if typ == "W":
            return self.bind("W", "engine", [["single", True]] if rng.random() < 0.5 else [])
        raise KeyError(typ)

    def opl(self):
        return self.rng.choice(["T", "V", "F", "T", "V", "F", gen.LONG])

    def tens(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2])
        ind = lambda k: ",".join(gen.gen_index(rng, self.tab, 6) for _ in range(k))
        return "%s^{%s}_{%s}" % (rng.choice(gen.TENSORS), ind(n), ind(n))

    def eterm(self):
        rng = self.rng
        return gen.gen_ops_term(rng, self.tab, rng.randint(1, 3)) if rng.random() < 0.15 else gen.gen_tensor_term(rng, self.tab, rng.choice([1, 1, 2, 2, 3]))

    def eqterm(self):
        """tensor product whose free indices sit on a normal ordered string, or without free indices"""
        if self.rng.random() < 0.3:
            tab = self.rng.sample(self.tab, 1) if self.rng.random() < 0.4 else self.tab
            return gen.gen_tensor_term(self.rng, tab, self.rng.choice([1, 2, 2, 3, 4]), False, True)
        return gen.gen_tensor_term(self.rng, self.tab, self.rng.choice([1, 2, 2, 3]), True)

    # ---- calls that return a value
    def call(self, names=None):
        """one random call; returns the step"""
        rng = self.rng
        name = rng.choice(names or VALUE_OPS)
        f = rng.choice(gen.FACTORS)
        g = self.get
        if name == "oe_eq" and rng.random() < 0.5:
            a = g("OE")
            return [None, name, a, a if rng.random() < 0.4 else self.bind("OE", "oe_copy", a)]
        if name in ("oe_add", "oe_sub", "oe_eq", "oe_mul", "commutator"):
            return [None, name, g("OE"), g("OE")]
        if name == "x_canon":
            return [None, name, g("E")]
        if name == "x_ocanon":
            return [None, name, g("OE")]
        if name == "x_iadd":
            return [None, name, g("E"), g("E")]
        if name == "x_pair":
            return [None, name, g("E"), g("ST"), f]
        if name == "x_oadd":
            return [None, name, g("OE"), g("OE"), f]
        if name == "commutator3":
            return [None, "commutator", g("OE"), g("OE"), g("OE")]
        if name == "oe_scale":
            return [None, name, f, g("OE")]
        if name in ("oe_size", "oe_adjoint", "oe_copy"):
            return [None, name, g("OE")]
        if name == "bch":
            return [None, name, g("OE"), g("OE"), rng.choice([0, 1, 1, 2])]
        if name == "op":
            return [None, name, self.opl(), [self.comp(3) for _ in range(rng.randint(1, 3))]]
        if name == "op_unique":
            return [None, name, self.opl(), [self.comp(3) for _ in range(rng.randint(1, 2))]]
        if name == "gen_op":
            return [None, name, self.opl(), rng.choice([1, 2]), "".join(rng.sample(self.labels, min(2, len(self.labels)))),
                    "".join(rng.sample(self.labels, min(2, len(self.labels)))), rng.random() < 0.6]
        if name == "diag_operator":
            n = [rng.randint(0, 2) for _ in self.labels]
            return [None, name, self.opl(), [self.labels[i] for i in range(len(n)) for _ in range(n[i])], [rng.choice(self.labels)]]
        if name == "Operator":
            return [None, name, self.opl(), [rng.randint(0, 2) for _ in self.labels], [rng.randint(0, 2) for _ in self.labels]]
        if name == "oe_str":
            return [None, "str", g("OE")]
        if name == "oe_repr":
            return [None, "repr", g("OE")]
        if name == "e_repr":
            return [None, "repr", g("E")]
        if name == "repr":
            return [None, name, g(rng.choice(["ST", "TM", "T", "I", "S", "Q"]))]
        if name == "expr":
            return [None, name, self.eterm(), rng.choice(["anti", "anti", "symm", "none"])]
        if name == "exprs":
            return [None, name, "\n".join(self.eterm() for _ in range(rng.randint(1, 3)))]
        if name == "e_eq" and rng.random() < 0.5:  # equal ones: the same, or one made again
            a = g("E")
            return [None, name, a, a if rng.random() < 0.4 else self.bind("E", "x_iadd", a, self.bind("E", "e_new"))]
        if name in ("e_add", "e_sub", "e_mul", "e_eq", "e_dot"):
            return [None, name, g("E"), g("E")]
        if name == "e_scale":
            return [None, name, g("E"), f]
        if name == "e_isvno":
            return [None, name, g(rng.choice(["E", "EV"]))]
        if name in ("e_neg", "e_len", "e_str", "e_norm", "e_adjoint", "e_terms"):
            return [None, name, g("E")]
        if name == "e_latex":
            return [None, name, g("E")] + ([rng.choice([" ", "\n", " + "])] if rng.random() < 0.4 else [])
        if name == "e_vno":
            return [None, name, g("EV", 0.4) if rng.random() < 0.8 else g("E"), rng.random() < 0.5]
        if name == "e_mbeq_all":
            return [None, name, g("EQ") if rng.random() < 0.8 else g("E"), "R", rng.choice(MODES)]
        if name == "e_einsum":
            return [None, name, g("EQ") if rng.random() < 0.6 else self.bind("EQ", "exprs", self.eqterm()), "R"]
        if name == "operator_expr":
            return [None, name, self.opl(), [self.comp() for _ in range(rng.randint(1, 2))], rng.random() < 0.5, "anti", f]
        if name in ("st_latex", "st_parts"):
            return [None, name, g("ST")]
        if name == "st_str":
            return [None, "str", g(rng.choice(["ST", "TM"]))]
        if name == "mkterm":
            return [None, name, g("ST"), f]
        if name == "tensor":
            return [None, name, self.tens(), rng.choice(["anti", "symm", "none"])]
        if name in ("t_latex", "t_parts"):
            return [None, name, g("T")]
        if name == "t_compile":
            return [None, name, g("T"), rng.choice(MODES)]
        if name in ("i_latex", "i_compile", "i_parts"):
            return [None, name, g("I")]
        if name == "i_lt":
            return [None, name, g("I"), g("I")]
        if name in ("index", "cre", "ann"):
            return [None, name, rng.choice(self.labels) + rng.choice(["", "_"]) + str(rng.randint(0, 9))]
        if name == "indices":
            return [None, name, ",".join(gen.gen_index(rng, self.tab) for _ in range(rng.randint(1, 5)))]
        if name == "canon_indices":
            return [None, name, [g("I", 0.8) for _ in range(rng.randint(1, 5))], rng.random() < 0.5]
        if name in ("sq_latex", "sq_parts"):
            return [None, name, g("S")]
        if name == "sq_lt":
            return [None, name, g("S"), g("S")]
        if name in ("q_str", "q_latex", "q_fields", "q_einsum"):
            return [None, name, g("Q")]
        if name == "q_compile":
            return [None, name, g("Q"), rng.choice(MODES)]
        if name == "equation":
            return [None, name, g("ST"), g("ST"), f]
        if name == "canon_raw":
            return [None, name, [gen.gen_index(rng, self.tab, 9) for _ in range(rng.randint(0, 6))], rng.random() < 0.5]
        if name == "tensor4":
            return [None, name, "t", [gen.gen_index(rng, self.tab) for _ in range(rng.randint(0, 3))],
                    [gen.gen_index(rng, self.tab) for _ in range(rng.randint(0, 3))], rng.choice(["anti", "symm", "none"])]
        if name == "sq":
            return [None, name, rng.random() < 0.5, gen.gen_index(rng, self.tab)]
        if name == "rat_ops":
            return [None, name, f, rng.choice(gen.FACTORS)]
        if name == "rat_str":
            return [None, name, rng.choice(["1/2", "-3", "+4/6", "", "-", "x", "1/", "12345678901234567890123456789/3"])]
        if name == "partitions":
            return [None, name, rng.randint(0, 8), rng.choice([1, 2, 3, 100])]
        if name == "contract":
            return [None, name, g("W"), f, self.prod(), 0, rng.choice([0, 2, 4, 12])]
        if name in ("table", "num_spaces"):
            return [None, name]
        if name in ("osi_label", "osi_indices"):
            return [None, name, rng.choice([-1, 0, 0, 1, 2, 3, len(self.tab) - 1, len(self.tab), 7, 1000000, -2147483648, 2147483647])]
        raise KeyError(name)

    def again(self, step):
        """the same call with one object exchanged for another"""
        where = [i for i, a in enumerate(step) if i > 1 and isinstance(a, str) and a.startswith("$")]
        if not where:
            return None
        i = self.rng.choice(where)
        for p in self.pool.values():
            if step[i][1:] in p:
                p = [x for x in p if x != step[i][1:]] or p
                return step[:i] + ["$" + self.rng.choice(p)] + step[i + 1:]
        return None

    def prod(self):
        """a product small enough to contract quickly"""
        ops = gen.gen_product(self.rng, self.tab, None, self.rng.choice([4, 4, 6, 8]), self.size, 0.1, 1)
        return self.bind("P", "opsum", [[self.rng.choice([[1, 1], [1, 2], [-1, 1]]), ops]])


VALUE_OPS = """oe_add oe_sub oe_eq oe_mul commutator commutator3 oe_scale oe_size oe_adjoint oe_copy bch op op_unique gen_op diag_operator
Operator oe_str expr exprs e_add e_sub e_mul e_eq e_dot e_scale e_neg e_len e_str e_norm e_adjoint e_isvno e_terms e_latex e_vno e_mbeq_all
e_einsum operator_expr st_latex st_parts st_str mkterm tensor t_latex t_parts t_compile i_latex i_compile i_parts i_lt index cre ann indices
canon_indices sq_latex sq_parts sq_lt q_str q_latex q_fields q_einsum q_compile equation rat_ops rat_str partitions contract table num_spaces
osi_label osi_indices canon_raw tensor4 sq x_canon x_ocanon x_iadd x_pair x_oadd repr e_repr oe_repr""".split()
# the calls with more behaviour behind them come more often
VALUE_OPS += """commutator commutator commutator3 bch bch oe_mul oe_adjoint op expr exprs exprs e_add e_mul e_adjoint e_vno e_vno e_vno
e_latex x_canon x_canon x_canon x_iadd e_eq e_eq e_eq oe_eq e_dot i_lt sq_lt e_str e_mbeq_all e_mbeq_all e_einsum e_einsum q_einsum operator_expr t_latex q_compile q_latex contract contract""".split()


def focus(rng, names=None, p=0.25):
    """the kinds of calls of a case: any, or now and then only a few, on few objects"""
    return rng.sample(sorted(set(names or VALUE_OPS)), rng.choice([1, 1, 2, 3])) if rng.random() < p else names


def table_for(rng, maxspaces=3):
    """a table, now and then with a boson space"""
    t = [list(x) for x in gen.gen_table(rng, maxspaces)]
    if rng.random() < 0.3:  # few letters, so that they run out
        t = [x[:3] + [x[3][:rng.randint(1, 3)]] for x in t]
    if rng.random() < 0.1:
        rng.choice(t)[1] = "boson"
    return t
