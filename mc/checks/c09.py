"""
C09: MAX-AND factors are updated from their exact conditional: a cell is one
with the largest lambda among the dimensions that are active in both factors,
or with the clamped lambda if there is none - for every order of the lambdas.
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import (PM, balance_ok, deviations, factors, frozen, implied,
                       machine, relaid, signs, site_rates, snapshot, tris,
                       update_fct)

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('one evaluation = exact transition of one entry of the real sampler;'
        ' non-trivial = distinct (lambdas, other entries, other factor, data,'
        ' site) with an observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'the clamped lambda is the smallest one (the lambda update'
               ' enforces that)', 'log ratios in single precision',
               'flat prior on factor entries (others are documented as not'
               ' implemented for this model)']
BOUNDS = {'quick': 'L <= 3, D <= 2 all states, L=4 D=1; all orders of lambda'
                   ' including ties, lambdas from .0001 to .9999; L=6,9,127..129,258 and D=40,300 structured',
          'thorough': 'L=4, D=2; L=5, D=1'}

VALS = (.95, .8, .55, .3, .2)


def cases(tier):
    t = tier == 'thorough'
    out = []
    for axis in (0, 1):
        for L, D in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (4, 1), (1, 3)] \
                + ([(5, 1)] if t else []):
            for lam in lambdas(L):
                out.append(dict(kind='site', axis=axis, L=L, D=D, lbda=lam))
        for L, D in [(3, 2)] + ([(4, 2)] if t else []):
            for lam in lambdas(L)[::2]:
                out.append(dict(kind='site', axis=axis, L=L, D=D, lbda=lam,
                                units=L > 3))
        out.append(dict(kind='large', axis=axis))
        out.append(dict(kind='rows', axis=axis))
        out.append(dict(kind='tall', axis=axis))
        out.append(dict(kind='many', axis=axis))
        out.append(dict(kind='changing', axis=axis))
    return out


def lambdas(L):
    out = [list(p) + [.05] for p in itertools.permutations(VALS[:L])]
    if L > 1:
        out.append([.7] * L + [.05])
        out.append([.7] * L + [.7])
        out.append([.6] + [.9] * (L - 1) + [.6])
    if L > 3:
        out = out[::5] + out[-3:]
    # close to 0 and 1
    out.append([.004, .9995, .01, .9, .002][:L][::-1] + [.0005])
    out.append([.9999] * L + [.0001])
    return out


class Setup:
    in_place = False

    def __init__(self, axis, L, D, N=1):
        shape = (N, D) if axis == 0 else (D, N)
        self.axis = axis
        self.m, self.data, self.layer = machine(
            'MAX-AND', np.ones(shape, dtype=np.int8), L)
        f = factors(self.layer)
        self.mat, self.other = f[axis], f[1 - axis]
        self.fct = update_fct(self.mat)

    def one(self, R, own, other, X, lam, site, key, tol=2e-5):
        """X in the orientation (own rows, other rows)"""
        self.other.val = relaid(other)
        self.data.val = relaid(X if self.axis == 0 else X.T)
        if self.in_place:
            self.layer.lbda.val[:] = lam
        else:
            self.layer.lbda.val = np.array(lam, dtype=float)
        frozen(self.mat)
        self.mat.fixed_entries[site] = 0
        before = snapshot(self.other.val, self.data.val, self.layer.lbda.val)
        target = ref.max_logit(ref.tup(own), ref.tup(other), X, lam, *site)
        rates = site_rates(R, self.mat, self.fct, own, site, 'MAX-AND update',
                           lbda=lam, other=other, data=X)
        R.eval(key if X.any() else None)
        if rates is None:
            return
        if snapshot(self.other.val, self.data.val,
                    self.layer.lbda.val) != before:
            R.violation('MAX-AND update changes lambda, data or the other '
                        'factor', lbda=lam)
        if not balance_ok(rates, target, tol):
            R.violation('MAX-AND update does not leave the conditional '
                        'invariant', axis=self.axis, lbda=lam, start=own,
                        other=other, data=X, site=site,
                        expected_log_odds=target, **implied(rates))
        R.sample(dict(lbda=lam, start=own, other=other, data=X, site=site,
                      expected_log_odds=target, **implied(rates)))


def run_site(case, R):
    L, D, lam = case['L'], case['D'], case['lbda']
    S = Setup(case['axis'], L, D)
    for other in signs((D, L)):
        for X in tris((1, D)):
            if case.get('units') and np.count_nonzero(X) != 1:
                continue
            for l in range(L):
                for rest in itertools.product(PM, repeat=L - 1):
                    own = np.array([rest[:l] + (1,) + rest[l:]], dtype=np.int8)
                    S.one(R, own, other, X, lam, (0, l),
                          (other.tobytes(), X.tobytes(), l, rest))


def run_large(case, R):
    for L, D in ((6, 1), (9, 1), (2, 40), (2, 300), (1, 300)):
        S = Setup(case['axis'], L, D)
        order = list(np.linspace(.9, .2, L))
        for lam in (order, order[::-1], order[1::2] + order[::2],
                    [.5] * L):
            lam = [float(v) for v in lam] + [.1]
            for base in PM:
                for k, own in enumerate(deviations((1, L), base, PM, 2)):
                    if L > 6 and k % 3:
                        continue
                    for other in deviations((min(D, 1), L), base, PM, 1):
                        other = np.repeat(other, D, axis=0)
                        X = np.where(np.arange(D) % 3 == 0, -1, 1).astype(
                            np.int8).reshape(1, D)
                        if D > 50 and (k or other[0, 0] != base):
                            continue
                        for l in range(L) if L < 3 else (0, L // 2, L - 1):
                            S.one(R, own, other, X, lam, (0, l),
                                  (L, D, tuple(lam), own.tobytes(),
                                   other.tobytes(), l), tol=2e-4)


def run_many(case, R):
    """more dimensions than a narrow integer can number"""
    for L in (127, 128, 129, 258):
        S = Setup(case['axis'], L, 2)
        up = [float(v) for v in np.linspace(.2, .9, L)]
        for k, lam in enumerate((up, up[::-1], up[1::2] + up[::2])):
            if L == 258 and k == 2:
                continue
            lam = lam + [.1]
            # an active dimension of medium lambda among inactive ones
            mid = int(np.argsort(lam)[L // 2])
            own = np.full((1, L), -1, dtype=np.int8)
            own[0, mid] = 1
            other = np.ones((2, L), dtype=np.int8)
            other[1, mid] = -1
            X = np.array([[1, -1]], dtype=np.int8)
            for l in sorted({0, 1, 63, 126, L - 130, L - 2, L - 1}):
                if l < 0 or l == mid:
                    continue
                start = own.copy()
                start[0, l] = 1
                S.one(R, start, other, X, lam, (0, l), (L, k, l), tol=2e-4)


def run_rows(case, R):
    """several rows, distinguishable data"""
    g = np.random.RandomState(8)
    S = Setup(case['axis'], 2, 3, N=3)
    for rep in range(8):
        other = np.array(2 * g.randint(0, 2, (3, 2)) - 1, dtype=np.int8)
        X = np.array(g.randint(-1, 2, (3, 3)), dtype=np.int8)
        for own in signs((3, 2)):
            for site in np.ndindex(3, 2):
                if own[site] == 1:
                    S.one(R, own, other, X, [(.4, .9, .1), (.9, .4, .1)]
                          [rep % 2], site, (rep, own.tobytes(), site))


def run_tall(case, R):
    """one free entry anywhere in a matrix of many rows; many data per row"""
    g = np.random.RandomState(9)
    for N, D in ((1031, 2), (300, 1), (2, 1031)):
        S = Setup(case['axis'], 2, D, N=N)
        for rep in range(2):
            other = np.array(2 * g.randint(0, 2, (D, 2)) - 1, dtype=np.int8)
            X = np.array(2 * g.randint(0, 2, (N, D)) - 1, dtype=np.int8)
            if D > 1000:
                # what matters is at the end
                other[:-5] = 1
                other[-5:] = [1, -1] if rep else [-1, 1]
                other[:-5, int(not rep)] = -1
                X[:, :-5:2] = 1
                X[:, 1:-5:2] = -1
                X[:, -5:] = 1
            own = np.array(2 * g.randint(0, 2, (N, 2)) - 1, dtype=np.int8)
            for n in sorted({0, N // 15, N // 2, N - 2, N - 1}):
                for l in (0, 1):
                    S.one(R, own, other, X, [.6, .55, .45], (n, l),
                          (N, D, rep, n, l), tol=2e-4)


def run_changing(case, R):
    """the same update function, lambdas that change between calls: replaced
    as a whole, changed in place"""
    S = Setup(case['axis'], 2, 2)
    ways = ('replace', 'in place')
    lams = [[.9, .5, .1], [.5, .9, .1], [.9, .5, .4], [.3, .3, .3]]
    own = np.array([[1, 1]], dtype=np.int8)
    other = np.array([[1, 1], [1, -1]], dtype=np.int8)
    X = np.array([[1, -1]], dtype=np.int8)
    for seq in itertools.product(range(len(lams)), repeat=3):
        for way in ways:
            for i in seq:
                lam = lams[i]
                S.in_place = way == 'in place'
                for site in ((0, 0), (0, 1)):
                    S.one(R, own, other, X, lam, site, (seq, way, i, site))


def run(case, R):
    dict(site=run_site, large=run_large, rows=run_rows, tall=run_tall, many=run_many,
         changing=run_changing)[case['kind']](case, R)
