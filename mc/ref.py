"""
Reference semantics of Logical Factorisation Machines, as plain as possible.

All binary values are +1 / -1, data may be 0 (missing).
"""
import itertools
import math
from functools import lru_cache

OPS = ('AND', 'NAND', 'OR', 'NOR', 'XOR', 'NXOR')
ALL_MODELS = tuple(a + '-' + b for a in OPS for b in OPS)
# the models with own samplers; others are mapped to one of these
MODELS = ('OR-AND', 'OR-NAND', 'OR-XOR', 'NAND-XOR',
          'XOR-AND', 'XOR-XOR', 'XOR-NXOR', 'XOR-NAND')


def op(name, bits):
    """logical operator on booleans; XOR is 'exactly one'"""
    k = sum(1 for b in bits if b)
    n = len(bits)
    if name == 'AND':
        return k == n
    if name == 'NAND':
        return k != n
    if name == 'OR':
        return k > 0
    if name == 'NOR':
        return k == 0
    if name == 'XOR':
        return k == 1
    if name == 'NXOR':
        return k != 1
    raise ValueError(name)


@lru_cache(maxsize=2000000)
def f(model, rows):
    """deterministic output (+1/-1) for K rows of L entries"""
    outer, inner = model.split('-')
    L = len(rows[0])
    return 1 if op(outer, [op(inner, [r[l] == 1 for r in rows])
                           for l in range(L)]) else -1


@lru_cache(maxsize=200000)
def prob_op(name, ps):
    """probability that the operator holds for independent inputs"""
    if len(ps) > 12:
        # too many outcomes: probabilities of none, exactly one and all
        none, one, every = 1.0, 0.0, 1.0
        for p in ps:
            none, one, every = none * (1 - p), one * (1 - p) + none * p, \
                every * p
        p = dict(AND=every, OR=1 - none, XOR=one)[name.replace(
            'NAND', 'AND').replace('NOR', 'OR').replace('NXOR', 'XOR')]
        return 1 - p if name.startswith('N') else p
    tot = 0.0
    for bits in itertools.product((0, 1), repeat=len(ps)):
        if op(name, bits):
            w = 1.0
            for b, p in zip(bits, ps):
                w *= p if b else 1 - p
            tot += w
    return tot


@lru_cache(maxsize=200000)
def f_prob(model, rows):
    """probability of output one for independent Bernoulli factor entries"""
    outer, inner = model.split('-')
    L = len(rows[0])
    return prob_op(outer, tuple(
        prob_op(inner, tuple(r[l] for r in rows)) for l in range(L)))


def logit(p):
    if p <= 0:
        return -math.inf
    if p >= 1:
        return math.inf
    return math.log(p / (1 - p))


def sigmoid(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x))
    e = math.exp(x)
    return e / (1 + e)


def rows_of(mats, index):
    """rows of factor matrices (nested tuples) at an index"""
    return tuple(m[i] for m, i in zip(mats, index))


def tup(a):
    """numpy matrix -> nested tuples of ints"""
    return tuple(tuple(int(v) for v in r) for r in a)


def with_entry(mat, n, l, v):
    row = mat[n][:l] + (v,) + mat[n][l + 1:]
    return mat[:n] + (row,) + mat[n + 1:]


def score(model, mats, X, axis, n, l):
    """sum over the data cells that depend on entry (n,l) of factor `axis`
    of x * (output if on - output if off) / 2.  X: numpy array"""
    on = with_entry(mats[axis], n, l, 1)
    off = with_entry(mats[axis], n, l, -1)
    s = 0
    ranges = [range(len(m)) for m in mats]
    ranges[axis] = (n,)
    for idx in itertools.product(*ranges):
        x = int(X[idx])
        if x:
            r = list(rows_of(mats, idx))
            r[axis] = on[n]
            a = f(model, tuple(r))
            r[axis] = off[n]
            b = f(model, tuple(r))
            s += x * (a - b) // 2
    return s


def joint(model, mats, X, lbda, prior=None):
    """log p(X, factors) up to a constant; prior: one p per factor"""
    s = 0.0
    for idx in itertools.product(*[range(len(m)) for m in mats]):
        x = int(X[idx])
        if x:
            y = lbda * x * f(model, rows_of(mats, idx))
            s += math.log(sigmoid(y))
    for m, p in zip(mats, prior or [.5] * len(mats)):
        for r in m:
            for v in r:
                s += math.log(p if v == 1 else 1 - p)
    return s


def lbda_estimate(model, mats, X, prior=(1, 1)):
    """logit of the posterior mean accuracy under a Beta prior, at least 0"""
    P = ND = 0
    for idx in itertools.product(*[range(len(m)) for m in mats]):
        x = int(X[idx])
        if x:
            ND += 1
            P += f(model, rows_of(mats, idx)) == x
    a, b = prior
    p = (P + a) / (ND + a + b)
    return max(0.0, math.log(p / (1 - p)))


# ------------------------------------------------------------- MAX-AND
def max_prob(z, u, lbda):
    """probability of a one: largest lambda among the active dimensions,
    lbda[-1] if no dimension is active"""
    act = [lbda[l] for l in range(len(z)) if z[l] == 1 and u[l] == 1]
    return max(act) if act else lbda[-1]


def max_logit(Z, U, X, lbda, n, l):
    """log odds of Z[n][l]"""
    s = 0.0
    zon = Z[n][:l] + (1,) + Z[n][l + 1:]
    zoff = Z[n][:l] + (-1,) + Z[n][l + 1:]
    for d in range(len(U)):
        x = int(X[n, d])
        if x:
            a, b = max_prob(zon, U[d], lbda), max_prob(zoff, U[d], lbda)
            if x == 1:
                s += math.log(a) - math.log(b)
            else:
                s += math.log(1 - a) - math.log(1 - b)
    return s
