"""
C04: updating a factor matrix of a single layer leaves its exact conditional
distribution given everything else invariant.

The exact transition distribution of the real update function is extracted
by exploring all outcomes of its random numbers.
 site   - one entry free (the others pinned): detailed balance with the log
          odds of the reference model, for every combination of other
          entries, other factors and data of a small shape
 joint  - all entries free: invariance of the joint conditional (pi T = pi)
 large  - shapes beyond the range of narrow integer types, many dimensions
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import (num, PM, balance_ok, deviations, factors, frozen, implied,
                       machine, relaid, signs, site_rates, snapshot,
                       state_dist, tris, update_fct)

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('one evaluation = exact transition of one entry (or of a whole matrix)'
        ' of the real sampler from one start state; non-trivial = distinct'
        ' (model, axis, other factors, data, site, lambda, prior) whose data'
        ' contain an observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1); compiled code is not'
               ' executed', 'random numbers are ideal']
BOUNDS = {
    'quick': 'site: 2D L<=4,D<=3,L*D<=6 and 3D L*D*M<=8, all states, data in'
             ' {-1,0,1}; joint: N*L<=4; large: up to 66049 cells, L up to 300 with'
             ' <=2 deviations from constant factors',
    'thorough': 'site: 2D L*D<=9, 3D L*(D+M)<=9; joint: N*L<=6; large as in'
                ' quick with <=3 deviations'}

PARMS = ((.7, .5), (1.3, .2), (0., .7), (1000., .5), (2., 0.), (2., 1.),
         (.4, .97), (21.5, .5), (11., .5), (-.9, .4))


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.MODELS:
        for axis in (0, 1):
            small = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2)]
            for L, D in small:
                out.append(dict(kind='site', model=model, axis=axis, L=L,
                                dims=[D], parms=list(PARMS)))
            for L, D in [(3, 1), (4, 1), (2, 3)] + (
                    [(5, 1), (2, 4), (6, 1), (4, 2)] if t else []):
                out.append(dict(kind='site', model=model, axis=axis, L=L,
                                dims=[D], parms=[(.9, .3)]))
            for l in range(3):
                out.append(dict(kind='site', model=model, axis=axis, L=3,
                                dims=[2], parms=[(.9, .3)], only_l=l))
                if t:
                    out.append(dict(kind='site', model=model, axis=axis, L=3,
                                    dims=[3], parms=[(.9, .3)], only_l=l))
        for axis in (0, 1, 2):
            for L, D, M in [(1, 1, 1), (1, 2, 2), (2, 1, 1)]:
                out.append(dict(kind='site', model=model, axis=axis, L=L,
                                dims=[D, M], parms=[(.9, .3), (0., .7),
                                                    (2., 0.), (2., 1.)]))
            for L, D, M in [(2, 2, 1), (2, 1, 2), (3, 1, 1)] + (
                    [(1, 3, 2), (4, 1, 1), (3, 2, 1), (3, 1, 2)] if t else []):
                out.append(dict(kind='site', model=model, axis=axis, L=L,
                                dims=[D, M], parms=[(.9, .3)]))
            out.append(dict(kind='site', model=model, axis=axis, L=2,
                            dims=[2, 2], parms=[(.9, .3)],
                            data='all' if t else 'units'))
        for K in (2, 3):
            for axis in range(K):
                for N, L in [(1, 2), (2, 1), (2, 2), (1, 3), (3, 1)] + (
                        [(2, 3), (3, 2), (1, 4)] if t else []):
                    D = 2 if K == 2 and N * L <= 2 else 1
                    out.append(dict(kind='joint', model=model, axis=axis, K=K,
                                    N=N, L=L, D=D))
                out.append(dict(kind='rows', model=model, axis=axis, K=K))
                out.append(dict(kind='tall', model=model, axis=axis, K=K))
                out.append(dict(kind='large', model=model, axis=axis, K=K,
                                dev=3 if t else 2))
                out.append(dict(kind='many', model=model, axis=axis, K=K))
    return out


def data_space(shape, kind):
    if kind == 'units':
        yield np.ones(shape, dtype=np.int8)
        for i in range(int(np.prod(shape))):
            X = np.zeros(int(np.prod(shape)), dtype=np.int8)
            X[i] = -1 if i % 2 else 1
            yield X.reshape(shape)
    else:
        yield from tris(shape)


class Setup:
    """a machine whose matrices can be replaced"""

    def __init__(self, model, axis, dims, L, n_rows=1):
        self.model, self.axis, self.L = model, axis, L
        shape = list(dims)
        shape.insert(axis, n_rows)
        self.shape = tuple(shape)
        self.m, self.data, self.layer = machine(
            model, np.ones(self.shape, dtype=np.int8), L)
        self.facs = factors(self.layer)
        self.mat = self.facs[axis]
        self.others = [f for f in self.facs if f is not self.mat]
        self.fct = update_fct(self.mat)

    def set(self, others, X, lbda, prior):
        for f, v in zip(self.others, others):
            f.val = relaid(v)
        self.data.val = relaid(X)
        self.layer.lbda.val = num(lbda)
        self.mat.bernoulli_prior = num(prior)

    def tuples(self, own):
        t = [ref.tup(f.val) for f in self.facs]
        t[self.axis] = ref.tup(own)
        return t

    def rest(self):
        return snapshot(self.data.val, *[f.val for f in self.others],
                        self.layer.lbda.val)


def one_site(R, S, own, others, X, lbda, prior, site, ident):
    S.set(others, X, lbda, prior)
    frozen(S.mat)
    S.mat.fixed_entries[site] = 0
    before = S.rest()
    score = ref.score(S.model, S.tuples(own), X, S.axis, *site)
    target = lbda * score + ref.logit(prior)
    detail = dict(model=S.model, axis=S.axis, others=others, data=X,
                  lbda=lbda, prior=prior)
    rates = site_rates(R, S.mat, S.fct, own, site, 'factor update', **detail)
    R.eval(ident if X.any() else None)
    if rates is None:
        return
    if S.rest() != before:
        R.violation('factor update changes data, lambda or another factor',
                    start=own, site=site, **detail)
    if not balance_ok(rates, target):
        R.violation('factor update does not leave the conditional invariant',
                    start=own, site=site, expected_log_odds=target,
                    **implied(rates), **detail)
    R.sample(dict(detail, start=own, site=site, expected_log_odds=target,
                  **implied(rates)))


def run_site(case, R):
    L, dims = case['L'], tuple(case['dims'])
    S = Setup(case['model'], case['axis'], dims, L)
    ls = range(L) if 'only_l' not in case else [case['only_l']]
    oshapes = [(d, L) for d in dims]
    for lbda, prior in case['parms']:
        for flat in signs((sum(dims) * L,)):
            others, at = [], 0
            for s in oshapes:
                k = s[0] * s[1]
                others.append(flat[at:at + k].reshape(s))
                at += k
            for X in data_space(S.shape, case.get('data')):
                for l in ls:
                    for rest in itertools.product(PM, repeat=L - 1):
                        own = np.array([rest[:l] + (1,) + rest[l:]],
                                       dtype=np.int8)
                        one_site(R, S, own, others, X, lbda, prior, (0, l),
                                 (lbda, prior, flat.tobytes(), X.tobytes(), l,
                                  rest))


def run_joint(case, R):
    """pi T = pi, all entries of the matrix free"""
    K, N, L, D = case['K'], case['N'], case['L'], case['D']
    dims = (D,) * (K - 1)
    S = Setup(case['model'], case['axis'], dims, L, n_rows=N)
    S.mat.fixed_entries = np.zeros((N, L), dtype=np.int8)
    states = [a.tobytes() for a in signs((N, L))]
    lbda, prior = .8, .35
    for flat in signs((sum(dims) * L,)):
        others = [x.reshape(D, L) for x in np.split(flat, K - 1)]
        for X in tris(S.shape):
            S.set(others, X, lbda, prior)
            S.mat.fixed_entries = np.zeros((N, L), dtype=np.int8)
            pi = {}
            for s in states:
                own = np.frombuffer(s, dtype=np.int8).reshape(N, L)
                pi[s] = ref.joint(case['model'], S.tuples(own), X, lbda,
                                  [prior if i == case['axis'] else .5
                                   for i in range(K)])
            mx = max(pi.values())
            pi = {s: math.exp(v - mx) for s, v in pi.items()}
            tot = sum(pi.values())
            flow = dict.fromkeys(states, 0.0)
            approx = False
            for s in states:
                start = np.frombuffer(s, dtype=np.int8).reshape(N, L)
                dist, eng = state_dist(S.mat, S.fct, start)
                approx |= eng.approx
                R.count('states')
                R.count('transitions', len(dist))
                R.count('traces_validated_against_impl', eng.paths)
                for k, p in dist.items():
                    flow[k] = flow.get(k, 0.0) + pi[s] / tot * p
            R.eval((flat.tobytes(), X.tobytes()) if X.any() else None)
            err = max(abs(flow[s] - pi.get(s, 0.0) / tot) for s in flow)
            if err > (.1 if approx else 1e-9):
                R.violation('update of a whole factor does not leave its '
                            'joint conditional invariant', error=err,
                            model=case['model'], axis=case['axis'],
                            others=others, data=X, lbda=lbda, prior=prior)


# sizes of the data (own axis first) and number of latent dimensions; where
# sizes are equal, axes and dimensions are easily confused
ROWS = {2: [((3, 2), 2), ((2, 2), 2), ((2, 2), 1), ((3, 3), 2), ((3, 3), 3),
            ((2, 3), 3), ((2, 3), 2), ((4, 4), 4)],
        3: [((3, 2, 3), 2), ((2, 2, 2), 2), ((2, 2, 2), 1), ((3, 3, 3), 2),
            ((3, 3, 3), 3), ((3, 3, 2), 2), ((3, 2, 2), 3), ((2, 3, 3), 1)]}


def run_rows(case, R):
    """every row of a matrix with several rows, distinguishable data"""
    K = case['K']
    g = np.random.RandomState(5)
    for sizes, L in ROWS[K]:
        N, dims = sizes[0], sizes[1:]
        S = Setup(case['model'], case['axis'], dims, L, n_rows=N)
        small = N * L <= 6
        for rep in range(6 if small else 3):
            others = [np.array(2 * g.randint(0, 2, (d, L)) - 1, dtype=np.int8)
                      for d in dims]
            X = np.array(g.randint(-1, 2, S.shape), dtype=np.int8)
            if rep % 2:
                X[X == 0] = 1
            owns = signs((N, L)) if small else [
                (d * 1).reshape(N, L) for d in deviations(
                    (N * L,), 1 if rep % 2 else -1, PM, 1)]
            for own in owns:
                for site in itertools.product(range(N), range(L)):
                    if own[site] == 1 or not small and rep % 2 == 0:
                        one_site(R, S, own, others, X, .6, .3, site,
                                 (sizes, L, rep, own.tobytes(), site))


def run_tall(case, R):
    """one free entry anywhere in a matrix of many rows"""
    K, axis, L = case['K'], case['axis'], 2
    g = np.random.RandomState(9)
    for N, dims in ((1031, (2,)), (300, (1,))) if K == 2 else \
            ((131, (1, 2)), (70, (2, 1))):
        S = Setup(case['model'], axis, dims, L, n_rows=N)
        for rep in range(2):
            others = [np.array(2 * g.randint(0, 2, (d, L)) - 1, dtype=np.int8)
                      for d in dims]
            X = np.array(2 * g.randint(0, 2, S.shape) - 1, dtype=np.int8)
            own = np.array(2 * g.randint(0, 2, (N, L)) - 1, dtype=np.int8)
            for n in sorted({0, 33, 65, N // 2, N - 2, N - 1}):
                for l in range(L):
                    one_site(R, S, own, others, X, .6, .3, (n, l),
                             (N, rep, n, l))


def run_large(case, R):
    K, axis, model = case['K'], case['axis'], case['model']
    # many data points: counts beyond 8 bit integers
    for D in (126, 127, 128, 129, 200, 255, 256, 257, 300):
        dims = (D,) if K == 2 else (D, 1)
        for L in (1, 2):
            if K == 3 and L == 2 and D not in (128, 257):
                continue
            S = Setup(model, axis, dims, L)
            for base, x in itertools.product(PM, PM):
                others = [np.full((d, L), base, dtype=np.int8) for d in dims]
                X = np.full(S.shape, x, dtype=np.int8)
                for own in signs((1, L)):
                    if own[0, 0] == 1:
                        one_site(R, S, own, others, X, .01, .5, (0, 0),
                                 (D, L, base, x, own.tobytes()))
                # the last data points count as well
                X = np.zeros(S.shape, dtype=np.int8)
                X.reshape(-1)[-1] = x
                one_site(R, S, np.ones((1, L), dtype=np.int8), others, X, .3,
                         .5, (0, L - 1), (D, L, base, x, 'last'))
    # more cells than a 16 bit number can count
    for dims in ((33000,), (66000,)) if K == 2 else ((182, 182), (1, 33000),
                                                     (33000, 1), (257, 257)):
        S = Setup(model, axis, dims, 1)
        for base, x in itertools.product(PM, PM):
            if base != x and dims[-1] in (66000, 257):
                continue
            one_site(R, S, np.ones((1, 1), dtype=np.int8),
                     [np.full((d, 1), base, dtype=np.int8) for d in dims],
                     np.full(S.shape, x, dtype=np.int8), 1e-4, .5, (0, 0),
                     (dims, base, x))
    # many latent dimensions
    dims = (2,) if K == 2 else (2, 1)
    for L in (5, 8, 17):
        S = Setup(model, axis, dims, L)
        X = np.array([1, -1], dtype=np.int8).reshape(
            [1 if i == axis else None for i in range(K)] and
            S.shape)
        dev = case['dev'] if L == 5 else 1
        for base in PM:
            for flat in deviations(((1 + sum(dims)) * L,), base, PM, dev):
                own = flat[:L].reshape(1, L)
                others, at = [], L
                for d in dims:
                    others.append(flat[at:at + d * L].reshape(d, L))
                    at += d * L
                for l in (0, L - 1) if L > 5 else range(L):
                    if own[0, l] == 1 or base == -1:
                        one_site(R, S, own, others, X, .7, .4, (0, l),
                                 (L, base, flat.tobytes(), l))


def run_many(case, R):
    """more latent dimensions than narrow integers can number"""
    K, axis, model = case['K'], case['axis'], case['model']
    dims = (2,) if K == 2 else (2, 1)
    for L in (126, 127, 128, 129, 255, 256, 257, 300):
        S = Setup(model, axis, dims, L)
        # mostly with data that do not cancel in the score
        for x, base in itertools.product(((1, 1), (-1, -1), (1, -1)),
                                         itertools.product(PM, repeat=K)):
            if x == (1, -1) and L not in (127, 128):
                continue
            X = np.array(x, dtype=np.int8).reshape(S.shape)
            # factors for which the outcome depends on the last dimensions
            for dev in ((), (0,), (L - 1,), (L - 2, L - 1)):
                own = np.full((1, L), base[0], dtype=np.int8)
                own[0, list(dev)] *= -1
                others = [np.full((d, L), b, dtype=np.int8)
                          for d, b in zip(dims, base[1:])]
                for l in {0, L - 1, min(127, L - 1), L // 2}:
                    start = own.copy()
                    start[0, l] = 1
                    one_site(R, S, start, others, X, .7, .4, (0, l),
                             (L, base, dev, l))


def run(case, R):
    dict(site=run_site, joint=run_joint, rows=run_rows,
         large=run_large, tall=run_tall, many=run_many)[case['kind']](case, R)
