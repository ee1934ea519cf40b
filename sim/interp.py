"""Interpreter for programs of API calls.

A program is a list of steps [dst, name, arg, ...]: call the operation `name`
and bind its result to `dst` (or to nothing if dst is null).  An argument that
is a string starting with "$" refers to an earlier result.  Every step is
observed: the value it returned in printable form, or ["!", exception type].

Faults are given relative to a step: [step, kind, nth, count] fails the nth
.. (nth+count-1)th allocation (kind 6) or thread launch (kind 7) of that step.
"""
import math

w = None  # the wicked module, set by the worker process
cpp = None  # in-place operations of the C++ interface


def setup(module):
    global w
    w = module


class Unbound(Exception):
    """an argument whose producing step failed"""


# ----------------------------------------------------------------- observation
def obs(v):
    """printable value of whatever the library returned"""
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return "f:" + repr(v)
    if isinstance(v, w.Expression):
        return "E:" + repr(v)
    if isinstance(v, w.OperatorExpression):
        return "O:" + str(v)
    if isinstance(v, w.rational):
        return "Q:" + repr(v)
    if isinstance(v, (list, tuple)):
        return [obs(x) for x in v]
    if isinstance(v, dict):
        return {"dict": sorted(([obs(k), obs(x)] for k, x in v.items()), key=repr)}
    if isinstance(v, w.WickTheorem):
        return "WickTheorem"
    if isinstance(v, w.OrbitalSpaceInfo):
        return "S:" + str(v)
    if isinstance(v, w.Tensor):
        return ["T:" + str(v), str(v.symmetry())]
    if isinstance(v, (w.Index, w.SQOperator, w.Tensor, w.SymbolicTerm, w.Term, w.Equation, w.Operator)):
        return type(v).__name__ + ":" + str(v)
    return str(v)


def table(osi):
    """every public fact about an orbital space table"""
    n = osi.num_spaces()
    labels = [osi.label(i) for i in range(n)]
    return [n, labels, [list(osi.indices(i)) for i in range(n)], sorted(map(list, osi.to_dict().items())), str(osi)]


# ------------------------------------------------------------------ operations
def frac(r):
    """a rational from [num, den]"""
    return w.rational(r[0], r[1]) if r[1] != 1 else w.rational(r[0])


def sym(s):
    return getattr(w.sym, s)


def define(tab):
    """(re)define the orbital spaces of a table [[label, field, type, indices, elementary], ...]"""
    w.reset_space()
    for t in tab:
        w.add_space(t[0], t[1], t[2], t[3], t[4] if len(t) > 4 else [])


def engine(settings):
    e = w.WickTheorem()
    configure(e, settings)
    return e


def configure(e, settings):
    for k, v in settings:
        if k == "print":
            e.set_print(getattr(w.PrintLevel, v))
        elif k == "cumulant":
            e.set_max_cumulant(v)
        elif k == "single":
            e.set_single_threaded(v)
        elif k == "canon":
            e.do_canonicalize_graph(v)
        else:
            raise ValueError(k)


def opsum(parts):
    """sum of products: [[[num, den], [[label, [components]], ...]], ...]"""
    total = None
    for f, ops in parts:
        p = None
        for l, c in ops:
            o = w.op(l, c)
            p = o if p is None else p @ o
        if f != [1, 1]:
            p = frac(f) * p
        if total is None:
            total = p
        else:
            total = total + p
    return total


def on_copy(change):
    """a call that changes its object, made on a copy of it"""
    def f(a, *args):
        c = a + w.Expression() if isinstance(a, w.Expression) else w.OperatorExpression(a)
        change(c, *args)
        return c
    return f


def iadd(e, x):
    e += x
    return None


def iadd_pair(e, t, f):
    e += (t, f)
    return None


def iter_change(e, how):
    """walk over an expression and change it on the way"""
    seen = []
    k = 0
    for t, c in e:
        seen.append([str(t), repr(c)])
        if how == "cancel":
            e += (t, c * w.rational(-1))
        elif how == "double":
            e += (t, c)
        elif how == "canonicalize" and k == 0:
            e.canonicalize()
        k += 1
        if k > 1000:
            break
    return seen


def iter_drop(e2):
    """keep the terms of a temporary expression longer than the expression"""
    it = iter(e2 + e2)
    out = []
    for t, c in it:
        out.append([str(t), repr(c)])
    return out


def keep_iter(e):
    return iter(e)


def terms(e):
    return [[str(t), repr(c)] for t, c in e]


def term_list(e):
    return [t for t, c in e]


def coef_list(e):
    return [c for t, c in e]


def symterm(tensors, ops, no=False):
    t = w.SymbolicTerm()
    for x in tensors:
        t.add(w.tensor(x, w.sym.anti))
    for k, i in ops:
        t.add(w.cre(i) if k == "+" else w.ann(i))
    if no:
        t.set_normal_ordered(True)
    return t


def rawterm(tensors, ops, no=False):
    """a symbolic term from tensors [label, lower, upper, symmetry] and operators [creation, index], indices as [space, position]"""
    ix = lambda v: [w.Index(*x) for x in v]
    t = w.SymbolicTerm()
    for label, lo, up, y in tensors:
        t.add(w.Tensor(label, ix(lo), ix(up), sym(y)))
    if no:
        t.set_normal_ordered(True)
    for c, i in ops:
        t.add(w._wicked.SQOperator(w.type.cre if c else w.type.ann, w.Index(*i)))
    return t


def rawexpr(terms):
    """sum of terms [factor, tensors, operators, normal ordered] (see rawterm)"""
    e = w.Expression()
    for f, tensors, ops, no in terms:
        iadd_pair(e, rawterm(tensors, ops, no), frac(f))
    return e


def mkterm(st, f):
    """a Term (coefficient and symbolic term) from a symbolic term"""
    t = w.Term()
    t.set(frac(f))
    for x in st.tensors():
        t.add(x)
    for x in st.ops():
        t.add(x)
    return t


def eq_fields(q):
    return [obs(q.lhs()), obs(q.rhs()), obs(q.rhs_factor()), obs(q.rhs_expression())]


def mbeq(e, label):
    return {k: v for k, v in e.to_manybody_equation(label).items()}


def mbeq_all(e, label, mode):
    d = e.to_manybody_equation(label)
    out = []
    for k in sorted(d):
        for q in d[k]:
            out.append([k, str(q), q.latex(), q.compile(mode) if mode else None])
    return out


def first_equation(e, label):
    d = e.to_manybody_equation(label)
    return d[sorted(d)[0]][0]


def einsum_py(e, label):
    d = e.to_manybody_equation(label)
    out = []
    for k in sorted(d):
        for q in d[k]:
            try:
                out.append(w.compile_einsum(q))
            except MemoryError:
                raise
            except Exception as x:
                out.append("!" + type(x).__name__)
    return out


def timers(e):
    return {k: v for k, v in e.timers().items()}


OPS = {
    # orbital spaces
    "define": define,
    "reset": lambda: w.reset_space(),
    "add_space": lambda *a: w.add_space(*a),
    "table": lambda: table(w.osi()),
    "num_spaces": lambda: w.num_spaces(),
    "osi_label": lambda i: w.osi().label(i),
    "osi_indices": lambda i: list(w.osi().indices(i)),
    "osi_new": lambda: w.OrbitalSpaceInfo(),
    "osi_get": lambda: w.osi(),
    "osi_reset": lambda o: o.reset_space(),
    "osi_table": lambda o: table(o),
    "osi_str": lambda o: str(o),
    # operators
    "op": lambda l, c: w.op(l, c),
    "op_unique": lambda l, c: w.op(l, c, True),
    "gen_op": lambda l, r, c, a, d: w.gen_op(l, r, c, a, d),
    "opsum": opsum,
    "diag_operator": lambda l, c, a: w.diag_operator(l, c, a),
    "Operator": lambda l, c, a: w.Operator(l, c, a),
    "oe_new": lambda: w.OperatorExpression(),
    "oe_copy": lambda a: w.OperatorExpression(a),
    "oe_add": lambda a, b: a + b,
    "oe_sub": lambda a, b: a - b,
    "oe_mul": lambda a, b: a @ b,
    "oe_scale": lambda f, a: frac(f) * a,
    "oe_eq": lambda a, b: a == b,
    "oe_size": lambda a: a.size(),
    "oe_adjoint": lambda a: a.adjoint(),
    "oe_add2": lambda a, b, f: a.add2(b, frac(f)),
    "oe_canonicalize": lambda a: obs(a.canonicalize()),
    "commutator": lambda *a: w.commutator(*a),
    "bch": lambda a, b, n: w.bch_series(a, b, n),
    # expressions
    "expr": lambda s, y="anti": w.expression(s, sym(y)),
    "exprs": lambda s: w.string_to_expr(s),
    "e_new": lambda: w.Expression(),
    "e_add": lambda a, b: a + b,
    "e_sub": lambda a, b: a - b,
    "e_mul": lambda a, b: a @ b,
    "e_scale": lambda a, f: a * frac(f),
    "e_neg": lambda a: -a,
    "e_eq": lambda a, b: a == b,
    "e_len": lambda a: len(a),
    "e_str": lambda a: str(a),
    "e_latex": lambda a, sep=" \\\\ \n": a.latex(sep),
    "e_dot": lambda a, b: a.dot(b),
    "e_norm": lambda a: a.norm(),
    "e_adjoint": lambda a: a.adjoint(),
    "e_vno": lambda a, same=False: a.vacuum_normal_ordered(same),
    "e_isvno": lambda a: a.is_vacuum_normal_ordered(),
    "e_canonicalize": lambda a: obs(a.canonicalize()),
    "e_iadd": iadd,
    "x_canon": on_copy(lambda c: c.canonicalize()),
    "x_ocanon": on_copy(lambda c: c.canonicalize()),
    "x_iadd": on_copy(lambda c, b: iadd(c, b)),
    "x_pair": on_copy(lambda c, t, f: iadd_pair(c, t, frac(f))),
    "x_oadd": on_copy(lambda c, b, f: c.add2(b, frac(f))),
    "e_iadd_pair": lambda e, t, f: iadd_pair(e, t, frac(f)),
    "e_iter_change": iter_change,
    "e_iter_drop": iter_drop,
    "e_iter": keep_iter,
    "next": lambda it: obs(next(it)),
    "e_terms": terms,
    "e_mbeq": mbeq,
    "e_mbeq_all": mbeq_all,
    "e_firsteq": first_equation,
    "e_einsum": einsum_py,
    "operator_expr": lambda l, c, no, y="anti", f=[1, 1]: w.operator_expr(l, c, no, sym(y), frac(f)),
    "term_list": term_list,
    "coef_list": coef_list,
    "cpp_e_iadd": lambda a, b: cpp.e_iadd(a, b),
    "cpp_e_isub": lambda a, b: cpp.e_isub(a, b),
    "cpp_e_imul": lambda a, b: cpp.e_imul(a, b),
    "cpp_e_iscale": lambda a, f: cpp.e_iscale(a, frac(f)),
    "cpp_e_idiv": lambda a, f: cpp.e_idiv(a, frac(f)),
    "cpp_oe_iadd": lambda a, b: cpp.oe_iadd(a, b),
    "cpp_oe_isub": lambda a, b: cpp.oe_isub(a, b),
    "cpp_oe_imul": lambda a, b: cpp.oe_imul(a, b),
    "cpp_oe_iscale": lambda a, f: cpp.oe_iscale(a, frac(f)),
    "cpp_oe_idiv": lambda a, f: cpp.oe_idiv(a, frac(f)),
    # terms, tensors, indices
    "symterm": symterm,
    "mkterm": mkterm,
    "rawterm": rawterm,
    "rawexpr": rawexpr,
    "rawindices": lambda v: [w.Index(*x) for x in v],
    "st_latex": lambda t: t.latex(),
    "st_parts": lambda t: [obs(list(t.tensors())), obs(list(t.ops()))],
    "tensor": lambda s, y="anti": w.tensor(s, sym(y)),
    "tensor4": lambda l, lo, up, y="anti": w.tensor(l, lo, up, sym(y)),
    "t_latex": lambda t: t.latex(),
    "t_compile": lambda t, m: t.compile(m),
    "t_parts": lambda t: [t.label(), obs(list(t.lower())), obs(list(t.upper()))],
    "index": lambda s: w.index(s),
    "Index": lambda s, p: w.index("%s%d" % (s, p)),
    "indices": lambda s: list(w.indices(s)),
    "canon_indices": lambda i, r: w.canonicalize_indices(list(i), r),
    "canon_raw": lambda i, r: w.canonicalize_indices([w.index(x) for x in i], r),
    "i_latex": lambda i: i.latex(),
    "i_compile": lambda i, m="ambit": i.compile(m),
    "i_parts": lambda i: [i.space(), i.pos()],
    "i_lt": lambda a, b: a < b,
    "cre": lambda s: w.cre(s),
    "ann": lambda s: w.ann(s),
    "sq": lambda t, i: w.sqoperator(i, w.type.cre if t else w.type.ann),
    "sq_latex": lambda o: o.latex(),
    "sq_parts": lambda o: [str(o.type()), obs(o.index()), str(o.field_type())],
    "sq_lt": lambda a, b: [a < b, a.normal_ordered_less(b), a == b],
    # equations
    "equation": lambda l, r, f: w.Equation(l, r, frac(f)),
    "q_str": lambda q: str(q),
    "q_latex": lambda q: q.latex(),
    "q_compile": lambda q, m: q.compile(m),
    "q_fields": eq_fields,
    "q_einsum": lambda q: w.compile_einsum(q),
    # rationals and combinatorics
    "rational": lambda a, b: w.rational(a, b),
    "rat_str": lambda s: w.make_rational(s),
    "rat_ops": lambda a, b: [obs(frac(a) + frac(b)), obs(frac(a) - frac(b)), obs(frac(a) * frac(b)), obs(frac(a) / frac(b)),
                             frac(a).latex(True), frac(a).compile("ambit"), frac(b).str(True), frac(b).str(False), frac(b).latex(False), float(frac(a))],
    "partitions": lambda n, k: [list(x) for x in w.integer_partitions(n, k)],
    # engines
    "engine": engine,
    "configure": configure,
    "contract": lambda e, f, o, lo, hi: e.contract(frac(f), o, lo, hi),
    "contract1": lambda e, o, lo, hi: e.contract(o, lo, hi),
    "timers": timers,
    # general
    "str": lambda a: str(a),
    "repr": lambda a: repr(a),
    "obs": lambda a: obs(a),
    "drop": None,
    "item": lambda a, i: a[i],
    "same": lambda a: a,
}


class Machine:
    def __init__(self, sim=None, faults=(), clean=True):
        self.env = {}
        self.sim = sim
        self.faults = {}
        for f in faults:
            self.faults.setdefault(f[0], []).append(f[1:])
        self.n = 0
        self.where = []  # of a fault-free run: which places of every call ask for memory

    def arg(self, a):
        if isinstance(a, str) and a.startswith("$"):
            if a[1:] not in self.env:
                raise Unbound(a)
            return self.env[a[1:]]
        if isinstance(a, list) and a and isinstance(a[0], str) and a[0].startswith("$"):
            return [self.arg(x) for x in a]
        return a

    def call(self, step):
        """value of a step, or the name of the exception"""
        dst, name = step[0], step[1]
        if name == "drop":
            self.env.pop(step[2][1:], None)
            return True, None
        try:
            args = [self.arg(a) for a in step[2:]]
            v = OPS[name](*args)
        except (Exception, KeyboardInterrupt) as e:  # noqa: every exception of the library counts as a report of failure
            return False, type(e).__name__
        finally:
            args = None
        if dst:
            self.env[dst] = v
        return True, v

    def step(self, step):
        i = self.n
        self.n += 1
        s = self.sim
        if s is not None and i in self.faults:
            for kind, nth, count in self.faults[i]:
                s.fault(kind, 0xFFFFFFFF, s.base(kind) + nth, count)
        if step[0]:
            self.env.pop(step[0], None)
        a0 = s.allocs if s is not None else 0
        c0 = s.creates if s is not None else 0
        l0 = s.lines.n if s is not None and s.lines else 0
        ok, v = self.call(step)
        l1 = s.lines.n if s is not None and s.lines else 0
        a1 = s.allocs if s is not None else 0
        c1 = s.creates if s is not None else 0
        self.where.append(s.sites(a0, a1, 300) if s is not None and not self.faults else [])
        if s is not None and i in self.faults:
            s.clear_faults()
        try:
            o = obs(v) if ok else ["!", v]
        except Exception as e:
            o = ["!obs", type(e).__name__]
        return o, a1 - a0, c1 - c0, l1 - l0

    def run(self, program):
        return [self.step(s) for s in program]
