"""Reference model: the generalized Wick expansion by brute force, in exact arithmetic.

It shares no code and no algorithm with the library: contraction patterns are
sets of labelled legs, every term is reduced to a graph normal form that is
invariant under renaming of summation indices, the antisymmetry of tensors and
of the operator string, and the exchange of identical tensors.
"""
import itertools
from collections import Counter
from fractions import Fraction
from math import factorial

OCC, UNOCC, GEN = "occupied", "unoccupied", "general"


# ------------------------------------------------------------------ normal form
def perm_sign(seq):
    """sign of the permutation that sorts seq (equal entries count as sorted)"""
    s, n = 1, len(seq)
    for i in range(n):
        a = seq[i]
        for j in range(i + 1, n):
            if seq[j] < a:
                s = -s
    return s


def normal_form(tensors, cre, ann):
    """tensors: list of (label, upper, lower), cre/ann: operator string indices.

    Every index is a hashable whose first element is its space, and occurs twice.
    Returns (key, sign), or (None, 0) if the term vanishes by symmetry.
    """
    nt = len(tensors)
    # ports of every index: (vertex, side), vertex nt stands for the string
    ports = {}
    for t, (_, up, lo) in enumerate(tensors):
        for i in up:
            ports.setdefault(i, []).append((t, 0))
        for i in lo:
            ports.setdefault(i, []).append((t, 1))
    for i in cre:
        ports.setdefault(i, []).append((nt, 0))
    for i in ann:
        ports.setdefault(i, []).append((nt, 1))
    idx = list(ports)
    for i in idx:
        if len(ports[i]) != 2:
            raise ValueError("index %r occurs %d times" % (i, len(ports[i])))
    # colour refinement
    col = [(tensors[t][0], tuple(sorted(i[0] for i in tensors[t][1])), tuple(sorted(i[0] for i in tensors[t][2]))) for t in range(nt)] + [("",)]
    for _ in range(min(nt, 4)):
        new = []
        for t in range(nt + 1):
            nb = []
            for i in idx:
                (a, sa), (b, sb) = ports[i]
                if a == t:
                    nb.append((sa, i[0], sb, repr(col[b])))
                if b == t:
                    nb.append((sb, i[0], sa, repr(col[a])))
            new.append((col[t], tuple(sorted(nb))))
        names = {c: n for n, c in enumerate(sorted(set(new), key=repr))}
        col2 = [names[c] for c in new]
        done = len(set(map(repr, col))) == len(names)
        col = col2
        if done:
            break
    base = [(tensors[t][0], len(tensors[t][1]), len(tensors[t][2])) for t in range(nt)]
    order0 = sorted(range(nt), key=lambda t: (base[t], repr(col[t])))
    groups = []
    for _, g in itertools.groupby(order0, key=lambda t: (base[t], repr(col[t]))):
        groups.append(list(g))
    best, signs = None, set()
    for choice in itertools.product(*[itertools.permutations(g) for g in groups]):
        order = [t for g in choice for t in g]
        pos = {t: k for k, t in enumerate(order)}
        pos[nt] = nt
        enc = []
        for i in idx:
            (a, sa), (b, sb) = ports[i]
            p, q = (pos[a], sa), (pos[b], sb)
            if q < p:
                p, q = q, p
            enc.append((p, q, i[0], i))
        enc.sort(key=lambda e: e[:3])
        key = tuple(e[:3] for e in enc)
        if best is not None and key > best:
            continue
        num = {e[3]: k for k, e in enumerate(enc)}
        s = 1
        for _, up, lo in tensors:
            s *= perm_sign([num[i] for i in up]) * perm_sign([num[i] for i in lo])
        s *= perm_sign([num[i] for i in cre]) * perm_sign([num[i] for i in ann])
        if best is None or key < best:
            best, signs = key, {s}
        else:
            signs.add(s)
    if best is None:
        best, signs = (), {1}
    if len(signs) > 1:
        return None, 0
    return (tuple(base[t] for g in groups for t in g), best), signs.pop()


def add_to(d, key, c):
    if key is None:
        return
    v = d.get(key, 0) + c
    if v:
        d[key] = v
    else:
        d.pop(key, None)


# -------------------------------------------------------------- Wick expansion
def block_types(ops, s, kind, maxcum):
    """all elementary contractions of one space, as ((cre per op), (ann per op))"""
    n = len(ops)
    out = []
    if kind in (OCC, UNOCC):
        for l in range(n):
            for r in range(l + 1, n):
                c, a = (l, r) if kind == OCC else (r, l)
                if ops[c][1][s] and ops[a][2][s]:
                    cv, av = [0] * n, [0] * n
                    cv[c], av[a] = 1, 1
                    out.append((tuple(cv), tuple(av)))
        return out

    def vecs(limits, k):
        if not limits:
            return [()] if k == 0 else []
        return [(x,) + r for x in range(min(limits[0], k) + 1) for r in vecs(limits[1:], k - x)]
    cl, al = [o[1][s] for o in ops], [o[2][s] for o in ops]
    for k in range(1, min(sum(cl), sum(al), maxcum) + 1):
        for cv in vecs(cl, k):
            for av in vecs(al, k):
                if sum(1 for v in range(n) if cv[v] + av[v]) >= 2:
                    out.append((cv, av))
    return out


class TooBig(Exception):
    pass


def patterns(ops, spaces, minrank, maxrank, maxcum, limit=4000):
    """all multisets of elementary contractions (s, cre, ann) in the rank window"""
    n = len(ops)
    types = []
    for s, (_, kind) in enumerate(spaces):
        types += [(s, c, a) for c, a in block_types(ops, s, kind, maxcum)]
    free = [[list(o[1]), list(o[2])] for o in ops]
    total = sum(sum(o[1]) + sum(o[2]) for o in ops)
    out, cur, visited = [], [], [0]

    def rec(start, left):
        visited[0] += 1
        if visited[0] > 20 * limit:
            raise TooBig
        if minrank <= left <= maxrank:
            out.append(list(cur))
            if len(out) > limit:
                raise TooBig
        for k in range(start, len(types)):
            s, c, a = types[k]
            if all(free[v][0][s] >= c[v] and free[v][1][s] >= a[v] for v in range(n)):
                for v in range(n):
                    free[v][0][s] -= c[v]
                    free[v][1][s] -= a[v]
                cur.append(types[k])
                rec(k, left - sum(c) - sum(a))
                cur.pop()
                for v in range(n):
                    free[v][0][s] += c[v]
                    free[v][1][s] += a[v]
    rec(0, total)
    return out


def legs(ops, nsp):
    """operator string of the product: list of (op, space, is_creation, n) in order"""
    out = []
    for v, (_, cre, ann) in enumerate(ops):
        for s in range(nsp):
            for k in range(cre[s]):
                out.append((v, s, 1, k))
        for s in range(nsp - 1, -1, -1):
            for k in range(ann[s] - 1, -1, -1):
                out.append((v, s, 0, k))
    return out


def term_of(ops, spaces, blocks):
    """the term of one labelled pattern: blocks is a list of (space, [cre legs], [ann legs])"""
    nsp = len(spaces)
    string = legs(ops, nsp)
    pos = {l: k for k, l in enumerate(string)}
    name = {l: (l[1], l) for l in string}
    tensors = []
    sequence = []  # positions of the legs, block by block
    sign = 1
    ren = {}
    for s, c, a in blocks:
        kind = spaces[s][1]
        if kind == OCC:      # contraction of a^+ ... a = delta
            assert len(c) == len(a) == 1 and c[0][0] < a[0][0]
            sequence += [pos[c[0]], pos[a[0]]]
            ren[name[a[0]]] = name[c[0]]
        elif kind == UNOCC:  # contraction of a ... a^+ = delta
            assert len(c) == len(a) == 1 and a[0][0] < c[0][0]
            sequence += [pos[a[0]], pos[c[0]]]
            ren[name[c[0]]] = name[a[0]]
        elif len(c) == 1:
            if pos[c[0]] < pos[a[0]]:  # <a^+_p a_q> = gamma^p_q
                sequence += [pos[c[0]], pos[a[0]]]
                tensors.append(("gamma1", [name[c[0]]], [name[a[0]]]))
            else:                      # <a_q a^+_p> = eta^p_q
                sequence += [pos[a[0]], pos[c[0]]]
                tensors.append(("eta1", [name[c[0]]], [name[a[0]]]))
        else:  # <p1^+ p2^+ ... q2 q1> = lambda^{p1 p2 ..}_{q1 q2 ..}
            sequence += [pos[x] for x in c] + [pos[x] for x in reversed(a)]
            tensors.append(("lambda%d" % len(c), [name[x] for x in c], [name[x] for x in a]))
    used = set(sequence)
    cre = [l for l in string if pos[l] not in used and l[2]]
    ann = [l for l in string if pos[l] not in used and not l[2]]
    sequence += [pos[l] for l in cre] + [pos[l] for l in ann]
    sign *= perm_sign(sequence)
    for v, (label, nc, na) in enumerate(ops):
        lower = [name[(v, s, 1, k)] for s in range(nsp) for k in range(nc[s])]
        upper = [name[(v, s, 0, k)] for s in range(nsp) for k in range(na[s])]
        tensors.append((label, upper, lower))

    def r(i):
        return ren.get(i, i)
    tensors = [(l, [r(i) for i in u], [r(i) for i in d]) for l, u, d in tensors]
    return sign, tensors, [r(name[l]) for l in cre], [r(name[l]) for l in ann]


def weight(ops):
    w = Fraction(1)
    for _, c, a in ops:
        for n in list(c) + list(a):
            w /= factorial(n)
    return w


def contract(ops, spaces, minrank, maxrank, maxcum=100, limit=4000):
    """ops: [(label, cre[], ann[])], spaces: [(label, kind)] -> {normal form: coefficient}"""
    result = {}
    w0 = weight(ops)
    for pat in patterns(ops, spaces, minrank, maxrank, maxcum, limit):
        # number of labelled realisations of this multiset of elementary contractions
        count = 1
        free = [[list(o[1]), list(o[2])] for o in ops]
        nxt = [[[0] * len(spaces), [0] * len(spaces)] for o in ops]
        blocks = []
        for s, c, a in pat:
            cl, al = [], []
            for v in range(len(ops)):
                for side, k, dst in ((0, c[v], cl), (1, a[v], al)):
                    f = free[v][side][s]
                    count *= factorial(f) // factorial(k) // factorial(f - k)
                    free[v][side][s] -= k
                    for _ in range(k):
                        dst.append((v, s, 1 - side, nxt[v][side][s]))
                        nxt[v][side][s] += 1
            blocks.append((s, cl, al))
        mult = 1
        for m in Counter(map(repr, pat)).values():
            mult *= factorial(m)
        assert count % mult == 0
        sign, tensors, cre, ann = term_of(ops, spaces, blocks)
        key, s2 = normal_form(tensors, cre, ann)
        add_to(result, key, w0 * (count // mult) * sign * s2)
    return result


def contract_bruteforce(ops, spaces, minrank, maxrank, maxcum=100):
    """The same sum over every labelled pattern, one by one (self-test of contract)."""
    nsp = len(spaces)
    string = legs(ops, nsp)
    result = {}
    w0 = weight(ops)
    total = len(string)

    def finish(blocks, left):
        if minrank <= left <= maxrank:
            sign, tensors, cre, ann = term_of(ops, spaces, blocks)
            key, s2 = normal_form(tensors, cre, ann)
            add_to(result, key, w0 * sign * s2)

    def rec(k, used, blocks, left):
        if k == total:
            finish(blocks, left)
            return
        x = string[k]
        if x in used:
            rec(k + 1, used, blocks, left)
            return
        rec(k + 1, used | {x}, blocks, left)  # x stays uncontracted
        s, kind = x[1], spaces[x[1]][1]
        rest = [y for y in string[k + 1:] if y not in used and y[1] == s]
        if kind == OCC:
            if x[2]:
                for y in rest:
                    if not y[2] and y[0] > x[0]:
                        rec(k + 1, used | {x, y}, blocks + [(s, [x], [y])], left - 2)
        elif kind == UNOCC:
            if not x[2]:
                for y in rest:
                    if y[2] and y[0] > x[0]:
                        rec(k + 1, used | {x, y}, blocks + [(s, [y], [x])], left - 2)
        else:
            c = [y for y in rest if y[2]]
            a = [y for y in rest if not y[2]]
            for h in range(1, maxcum + 1):
                nc, na = (h - 1, h) if x[2] else (h, h - 1)
                if nc > len(c) or na > len(a):
                    break
                for cc in itertools.combinations(c, nc):
                    for aa in itertools.combinations(a, na):
                        cl = ([x] if x[2] else []) + list(cc)
                        al = ([] if x[2] else [x]) + list(aa)
                        if len({y[0] for y in cl + al}) < 2:
                            continue
                        rec(k + 1, used | set(cl) | set(al), blocks + [(s, cl, al)], left - 2 * h)
    rec(0, frozenset(), [], total)
    return result


# ------------------------------------------------------- expressions of the library
def expr_obs(expr):
    """JSON form of a wicked Expression: [[num, den, tensors, ops], ...]"""
    out = []
    for term, c in expr:
        cs = c.str(True)
        ts = [[t.label(), [[i.space(), i.pos()] for i in t.upper()], [[i.space(), i.pos()] for i in t.lower()]] for t in term.tensors()]
        os_ = [[1 if str(o.type()).endswith("cre") else 0, [o.index().space(), o.index().pos()]] for o in term.ops()]
        out.append([cs, ts, os_])
    return out


def parse_coef(s):
    s = s.strip()
    if s in ("", "+"):
        return Fraction(1)
    if s == "-":
        return Fraction(-1)
    return Fraction(s.replace(" ", ""))


def obs_normal_form(obs):
    result = {}
    for cs, ts, ops in obs:
        tensors = [(l, [tuple(i) for i in u], [tuple(i) for i in d]) for l, u, d in ts]
        seq = [1 - o[0] for o in ops]
        sign = perm_sign(seq)  # creation operators first
        cre = [tuple(i) for t, i in ops if t]
        ann = [tuple(i) for t, i in ops if not t]
        key, s = normal_form(tensors, cre, ann)
        add_to(result, key, parse_coef(cs) * s * sign)
    return result


def combine(parts):
    """sum of {key: coefficient} with factors"""
    r = {}
    for f, d in parts:
        for k, c in d.items():
            add_to(r, k, f * c)
    return r


if __name__ == "__main__":  # self-test: both enumerations agree
    import random
    rng = random.Random(5)
    n = big = 0
    for _ in range(300):
        spaces = [("o", OCC), ("v", UNOCC), ("a", GEN), ("b", GEN)]
        rng.shuffle(spaces)
        spaces = spaces[:rng.randint(1, 3)]
        ops = []
        for v in range(rng.randint(2, 3)):
            c = [rng.choice([0, 0, 1, 1, 2]) for _ in spaces]
            a = [rng.choice([0, 0, 1, 1, 2]) for _ in spaces]
            ops.append((rng.choice("TV"), c, a))
        if sum(sum(o[1]) + sum(o[2]) for o in ops) > 10:
            continue
        mc = rng.choice([0, 1, 2, 3, 100])
        x = contract(ops, spaces, 0, 20, mc)
        y = contract_bruteforce(ops, spaces, 0, 20, mc)
        assert x == y, (ops, spaces, mc)
        n += 1
        big = max(big, len(x))
    print("model self-test: %d products agree, largest %d terms" % (n, big))
