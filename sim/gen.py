"""Generators of orbital spaces, operators, expressions and calls (JSON values)."""
import itertools

LETTERS = "abcdefghijklmnopqrstuvwxyz"
TENSORS = ["t", "g", "T2", "V", "H", "t", "T", "T1", "gamma1", "eta1", "lambda2", "delta", "f", "F1"]
LONG = "excitationAmplitude2"  # does not fit into a string object: copies allocate
TENSORS += TENSORS + [LONG, LONG]
OPS = ["T", "V", "F", "L", "Om"] * 2 + [LONG]
WILD = 0.12  # share of components that do not conserve the number of particles
KINDS = ["occupied", "unoccupied", "general"]
POOLS = ["i,j,k,l,m,n", "a,b,c,d,e,f", "u,v,w,x,y,z", "p,q,r,s,t", "o,g,h"]
# the tables a user of the library defines
STANDARD = [
    [["o", "fermion", "occupied", ["i", "j", "k", "l", "m", "n"]], ["v", "fermion", "unoccupied", ["a", "b", "c", "d", "e", "f"]]],
    [["c", "fermion", "occupied", ["i", "j", "k", "l", "m", "n"]], ["a", "fermion", "general", ["u", "v", "w", "x", "y", "z"]],
     ["v", "fermion", "unoccupied", ["a", "b", "c", "d", "e", "f"]]],
    [["a", "fermion", "general", ["u", "v", "w", "x", "y", "z"]]],
    [["p", "fermion", "general", ["p", "q", "r", "s"]], ["a", "fermion", "general", ["u", "v", "w"]]],
    [["v", "fermion", "unoccupied", ["a", "b", "c", "d"]], ["o", "fermion", "occupied", ["i", "j", "k", "l"]]],
]


def gen_table(rng, maxspaces=4, boson=False):
    if rng.random() < 0.55:
        t = [list(x) for x in rng.choice(STANDARD)]
        if len(t) <= maxspaces:
            return t
    n = rng.randint(1, maxspaces)
    labels = rng.sample("oavcpqhgnx", n)
    pools = rng.sample(POOLS, n)
    return [[labels[k], "fermion", rng.choice(KINDS), pools[k].split(",")[:rng.randint(2, 6)]] for k in range(n)]


def component(cre, ann):
    """'a+ a+ i i' style component string"""
    return " ".join([c + "+" for c in cre] + list(ann))


def gen_component(rng, tab, size=2, odd=0.1, order=True):
    """number-conserving component of up to `size` pairs, sometimes an odd one"""
    labels = [t[0] for t in tab]
    if odd and rng.random() < WILD:  # any numbers of creation and annihilation operators, often of one space
        nc, na = rng.choice([(1, 0), (0, 1), (2, 0), (0, 2), (3, 0), (0, 3), (3, 1), (1, 3), (2, 1), (1, 2), (4, 0), (0, 4), (3, 3), (5, 0), (6, 0)])
        if rng.random() < 0.6:
            labels = [rng.choice(labels)]
        c = sorted((rng.choice(labels) for _ in range(nc)), key=labels.index)
        a = sorted((rng.choice(labels) for _ in range(na)), key=labels.index, reverse=True)
        return component(c, a)
    n = rng.choice(list(range(1, size + 1)))
    nc = na = n
    if rng.random() < odd:
        if rng.random() < 0.5:
            nc -= 1
        else:
            na -= 1
        if nc + na == 0:
            nc = 1
    c = [rng.choice(labels) for _ in range(nc)]
    a = [rng.choice(labels) for _ in range(na)]
    if order:
        c.sort(key=labels.index)
        a.sort(key=labels.index, reverse=True)
    return component(c, a)


def adjoint(comp):
    x = comp.split()
    return component([y for y in x[::-1] if not y.endswith("+")], [y[0] for y in x[::-1] if y.endswith("+")])


def parse_component(s, tab):
    labels = [t[0] for t in tab]
    c, a = [0] * len(tab), [0] * len(tab)
    for x in s.split():
        if x.endswith("+"):
            c[labels.index(x[0])] += 1
        else:
            a[labels.index(x[0])] += 1
    return c, a


def nlegs(comp):
    return len(comp.split())


def gen_product(rng, tab, nops=None, maxlegs=10, size=2, odd=0.1, ncomp=1, repeat=0.35):
    """[[label, [components]], ...]"""
    nops = nops or rng.choice([2, 2, 2, 3, 3, 4])
    if maxlegs >= 10 and rng.random() < 0.08:  # one operator with many legs
        n = rng.randint(3, maxlegs // 2 - 1)
        big = [t[0] for t in tab] if rng.random() < 0.3 else [rng.choice(tab)[0]]
        c = [rng.choice(big) for _ in range(n)]
        a = [rng.choice(big) for _ in range(n)]
        labels = [t[0] for t in tab]
        c.sort(key=labels.index)
        a.sort(key=labels.index, reverse=True)
        ops = [[rng.choice(OPS), [component(c, a)]]]
        left = maxlegs - 2 * n
        while left >= 2 and (len(ops) == 1 or rng.random() < 0.5):
            k = rng.randint(1, left // 2)
            x = [rng.choice(big) for _ in range(2 * k)]
            ops.append([rng.choice(OPS), [component(sorted(x[:k], key=labels.index), sorted(x[k:], key=labels.index, reverse=True))]])
            left -= 2 * k
        rng.shuffle(ops)
        return ops
    while True:
        ops = []
        for k in range(nops):
            if ops and rng.random() < repeat:
                ops.append([ops[-1][0], list(ops[-1][1])])
                continue
            comps = []
            for _ in range(rng.randint(1, ncomp)):
                c = gen_component(rng, tab, size, odd)
                if c not in comps:
                    comps.append(c)
            if repeat and rng.random() < 0.1:  # the adjoint of an operator
                comps = [adjoint(c) for c in ops[-1][1]] if ops else comps
            ops.append([rng.choice(OPS), comps])
        if sum(max(nlegs(c) for c in o[1]) for o in ops) <= maxlegs:
            return ops
        if rng.random() < 0.2:
            nops = max(2, nops - 1)


def products_of(parts, tab):
    """expand [[factor, [[label, comps]...]], ...] into [(factor, [(label, cre, ann), ...]), ...]"""
    from fractions import Fraction
    out = []
    for f, ops in parts:
        for choice in itertools.product(*[o[1] for o in ops]):
            out.append((Fraction(f[0], f[1]), [(o[0],) + tuple(parse_component(c, tab)) for o, c in zip(ops, choice)]))
    return out


def rank_window(rng, total):
    x = rng.random()
    if x < 0.4:
        return 0, rng.choice([total, total + 2, 12])
    if x < 0.6:
        return 0, 0
    if x < 0.75:
        k = rng.randint(0, total)
        return k, k
    a = rng.randint(0, total)
    return a, rng.randint(a, total + 1)


FACTORS = [[1, 1], [1, 1], [1, 1], [1, 2], [-1, 1], [-1, 4], [3, 7], [2, 1], [5, 6]]


# ------------------------------------------------------------------ expressions
def gen_index(rng, tab, nmax=4):
    return "%s%d" % (rng.choice(tab)[0], rng.randint(0, nmax - 1))


def gen_tensor_term(rng, tab, ntens=None, ops=None, closed=None):
    """one line of an expression: tensors whose indices pair up, with or without operators"""
    ntens = rng.choice([1, 1, 2, 2, 3]) if ntens is None else ntens
    count = {}

    def fresh(sp):
        count[sp] = count.get(sp, -1) + 1
        return "%s%d" % (sp, count[sp])
    openl, openu = [], []
    tens = []
    for _ in range(ntens):
        n = rng.choice([1, 1, 2])
        up, lo = [], []
        for _ in range(n):
            if openl and rng.random() < 0.55:
                up.append(openl.pop(rng.randrange(len(openl))))
            else:
                i = fresh(rng.choice(tab)[0])
                up.append(i)
                openu.append(i)
            if openu and rng.random() < 0.35:
                lo.append(openu.pop(rng.randrange(len(openu))))
            else:
                i = fresh(rng.choice(tab)[0])
                lo.append(i)
                openl.append(i)
        rng.shuffle(up)
        rng.shuffle(lo)
        tens.append("%s^{%s}_{%s}" % (rng.choice(TENSORS), ",".join(up), ",".join(lo)))
    if closed and openl:  # one more tensor takes what is open
        tens.append("%s^{%s}_{%s}" % (rng.choice(TENSORS), ",".join(openl), ",".join(openu)))
        openl, openu = [], []
    s = " ".join(tens)
    if ops is None:
        ops = rng.random() < 0.6
    if ops:
        cre = ["a+(%s)" % i for i in openl]
        ann = ["a-(%s)" % i for i in openu]
        string = cre + ann
        if rng.random() < 0.4:
            rng.shuffle(string)
        if string:
            s += " " + " ".join(string)
    f = rng.choice(["", "", "1/2 ", "-1/4 ", "-1 ", "3 ", "2/3 "])
    return f + s


def gen_ops_term(rng, tab, n=None):
    """a bare string of second-quantised operators with repeated indices"""
    n = n or rng.randint(1, 4)
    return rng.choice(["", "1/2 ", "-1 "]) + " ".join("a%s(%s)" % (rng.choice("+-"), gen_index(rng, tab, 3)) for _ in range(n))
