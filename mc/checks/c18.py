"""
C18: the expected density of a model is the exact probability of a one for
independent factor entries with a given density, for every model, number of
factors and number of dimensions; its inversion gives a factor density that
has the requested expected density; random tensors have it.

The probability is a polynomial of degree K*L in the density, agreement on
K*L+1 points is agreement everywhere for code that computes such polynomials.
"""
import itertools
import math

import numpy as np

from mc import env, ref, rng
from mc.common import aux, experiments

ID = 'C18'
LEVEL = 'exploration'
RULE = ('one evaluation = one (model, L, K, density) compared with the exact'
        ' probability, one inversion, or one exact distribution of a random'
        ' tensor; non-trivial = density strictly between 0 and 1')
ASSUMPTIONS = ['independent factor entries']
BOUNDS = {'quick': 'all 36 models, K=2..4, L=1..8, 2*K*L+1 densities,'
                   ' up to K=40 or L=1000 on 61-81 densities;'
                   ' inversion on 13 densities from .02 to .98, K=2..4,'
                   ' L=1..200; tensors up to 2 cells',
          'thorough': 'K=2..6, L=1..20; inversion on 43 densities'}


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS:
        out.append(dict(kind='forward', model=model, K=6 if t else 4,
                        L=20 if t else 8))
        out.append(dict(kind='inverse', model=model,
                        steps=40 if t else 10))
    for noise in (0, .1, 1.):
        for density in (.2, .5, .9):
            out.append(dict(kind='tensor', noise=noise, density=density))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def op_prob(name, p, n):
    """probability that the operator holds for n independent inputs"""
    q = 1 - p
    if name in ('AND', 'NAND'):
        x = p**n
    elif name in ('OR', 'NOR'):
        x = 1 - q**n
    else:
        x = n * p * q**(n - 1)
    return 1 - x if name[0] == 'N' else x


def density(model, L, K, f):
    outer, inner = model.split('-')
    return op_prob(outer, op_prob(inner, f, K), L)


def forward(case, R):
    fct = env.seam(aux, 'expected_density')
    model = case['model']
    sizes = [(K, L) for K in range(2, case['K'] + 1)
             for L in range(1, case['L'] + 1)]
    # many dimensions, many factors
    sizes += [(K, L) for K in (2, 3, 5) for L in
              (12, 16, 20, 31, 40, 50, 64, 100, 128, 150, 200, 257, 300, 1000)]
    sizes += [(K, L) for K in (5, 6, 7, 8, 10, 20, 40) for L in (1, 2, 5)]
    for K, L in sizes:
        n = 2 * K * L if K * L <= 130 else 60
        fs = [i / n for i in range(n + 1)]
        if L > 50:      # where the density is not almost 0 or 1
            fs += [L**(-1 / K) * i / 10 for i in range(1, 21)
                   if L**(-1 / K) * i < 10]
        for f in fs:
            exp = density(model, L, K, f)
            if K * L <= 6:      # the reference against its definition
                R.check(abs(exp - ref.f_prob(
                    model, tuple(tuple([f] * L) for _ in range(K))))
                    < 1e-9, 'reference is wrong', model=model)
            got = float(fct(model, L, K, f))
            R.check(abs(got - exp) < 1e-8 * (1 + abs(exp)),
                    'expected density', model=model, L=L, K=K,
                    factor_density=f, got=got, expected=exp)
            R.eval((K, L, f) if 0 < f < 1 else None)
        vec = np.asarray(fct(model, L, K, np.array(fs)))
        R.check(np.allclose(vec, [density(model, L, K, f) for f in fs],
                            atol=1e-8), 'expected density of an array',
                model=model, L=L, K=K)
    R.sample(dict(K=K, L=L, f=f, got=got))


def inverse(case, R):
    fct = env.seam(aux, 'factor_density')
    model, n = case['model'], case['steps']
    for K, L in itertools.product((2, 3, 4), (1, 2, 3, 5, 9, 16, 30, 64,
                                                 100, 200)):
        grid = [density(model, L, K, i / 400) for i in range(401)]
        lo, hi = min(grid), max(grid)
        for i in [.2, .5] + list(range(1, n)) + [n - .5, n - .2]:
            X = i / n
            if not lo + 1e-3 < X < hi - 1e-3:
                continue
            f = float(fct(model, L, K, X))
            R.check(-1e-9 <= f <= 1 + 1e-9 and
                    abs(density(model, L, K, f) - X) < 1e-5,
                    'factor density does not have the requested expected'
                    ' density', model=model, K=K, L=L, requested=X,
                    factor_density=f, density=density(model, L, K, f))
            R.eval((K, L, i))


def tensor(case, R):
    """the exact distribution: every cell is a one with the requested
    density, and flipped with the probability of noise"""
    fct = env.seam(experiments, 'generate_random_tensor')
    rho, noise = case['density'], case['noise']
    for dims, L in [((1, 1, 1), 1), ((1, 1, 1), 2), ((2, 1, 1), 1),
                    ((1, 2, 1), 1), ((1, 1, 2), 1)]:
        eng = rng.Dfs()

        def go():
            noisy, X, fs, fd = fct(L, dims, noise=noise, density=rho)
            ok = X.shape == dims and noisy.shape == dims and \
                [f.shape for f in fs] == [(d, L) for d in dims]
            R.check(ok, 'random tensor: shapes')
            prod = np.zeros(dims, dtype=bool)
            for i in np.ndindex(*dims):
                prod[i] = any(fs[0][i[0], l] and fs[1][i[1], l] and
                              fs[2][i[2], l] for l in range(L))
            R.check(np.array_equal(X, prod), 'random tensor is not the'
                    ' product of the factors', factors=list(fs), got=X)
            return (tuple(map(bool, X.ravel())),
                    tuple(bool(a) != bool(b) for a, b in zip(noisy.ravel(),
                                                             X.ravel())))
        dist = eng.distribution(go)
        R.check(abs(float(fct(L, dims, noise=0, density=rho)[3]) -
                    (1 - (1 - rho)**(1 / L))**(1 / 3)) < 1e-9,
                'random tensor: reported factor density')
        for c in range(int(np.prod(dims))):
            one = sum(p for (x, _), p in dist.items() if x[c])
            R.check(abs(one - rho) < 1e-9, 'random tensor: density',
                    requested=rho, got=one, L=L)
        flips = {}
        for (x, fl), p in dist.items():
            flips[fl] = flips.get(fl, 0) + p
        for fl in itertools.product((False, True),
                                    repeat=int(np.prod(dims))):
            k = sum(fl)
            exp = noise**k * (1 - noise)**(len(fl) - k)
            R.check(abs(flips.get(fl, 0) - exp) < 1e-9,
                    'random tensor: noise', flips=fl, got=flips.get(fl, 0),
                    expected=exp)
        R.eval((dims, L))
        R.count('transitions', eng.paths)
