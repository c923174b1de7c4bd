"""
C17: train/test splits hide exactly the cells they report, only observed ones,
with the requested probability / numbers, leave everything else and the input
alone.
"""
import itertools
import math

import numpy as np

from mc import env, rng
from mc.common import aux, experiments, relaid, tris

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('one evaluation = all random outcomes of one call for one tensor and'
        ' split, with exact probabilities; non-trivial = distinct (function,'
        ' tensor, split) with an observed cell')
ASSUMPTIONS = ['random numbers are ideal']
BOUNDS = {'quick': 'all tensors over {-1,0,1} of shapes 1x4, 2x2, 1x2x2, 5x1'
                   ' and splits from 5 % to 100 %; tensors of up to 72 800 cells'
                   ' under two tables of random outcomes',
          'thorough': 'additionally 2x3 and 2x2x2 (every 5th)'}
SPLITS = (.001, .02, .1, .25, .4, .5, .75, .8, 1.)

# more than 2^8 and 2^16 cells, more than 2^8 rows or columns, tensors
LARGE = ((60, 40), (280, 260), (1, 300), (300, 2), (9, 7, 13), (50, 35, 40),
         (3, 3, 4, 3))


def cases(tier):
    t = tier == 'thorough'
    out = []
    shapes = [((1, 4), 1), ((2, 2), 1), ((1, 2, 2), 1), ((5, 1), 1)] + (
        [((2, 3), 1), ((2, 2, 2), 5)] if t else [])
    for kind in ('free', 'balanced', 'single', 'old'):
        for shape, step in shapes:
            if kind == 'single' and len(shape) != 2:
                continue
            for s in SPLITS:
                out.append(dict(kind=kind, shape=shape, split=s, step=step))
        for shape in LARGE:
            if kind == 'single' and len(shape) != 2:
                continue
            out.append(dict(kind='large', fct=kind, shape=shape))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def tensors(case):
    for i, X in enumerate(tris(tuple(case['shape']))):
        if i % case['step'] == 0 and X.any():
            yield X


def good(R, X, X0, train, mask, what, **d):
    """what holds for every outcome"""
    R.check(np.array_equal(X, X0), what + ': the input was changed', data=X0,
            now=X, **d)
    mask = np.asarray(mask)
    ok = R.check(mask.shape == X0.shape and mask.dtype == bool,
                 what + ': mask is not a boolean array of the shape of the'
                 ' data', mask=mask, **d)
    if not ok:
        return
    R.check(not mask[X0 == 0].any(),
            what + ': unobserved cells in the test set', data=X0, mask=mask,
            **d)
    R.check(np.array_equal(train, np.where(mask, 0, X0)),
            what + ': training data are not the data without the test set',
            data=X0, mask=mask, train=train, **d)
    R.check(not np.shares_memory(train, X), what + ': training data share'
            ' memory with the input')


def distribution(R, X, call, what, **d):
    X0 = X.copy()
    eng = rng.Dfs()
    Y = relaid(X0)

    def go():
        Y[...] = X0
        train, mask = call(Y)
        good(R, Y, X0, train, mask, what, **d)
        return np.ascontiguousarray(mask).tobytes()
    dist = eng.distribution(go)
    R.count('transitions', eng.paths)
    R.count('states')
    R.count('traces_validated_against_impl', eng.paths)
    R.eval((what, X0.tobytes(), X0.shape, d.get('split')))
    return dist


def same(R, dist, exp, X, what, **d):
    """compare distributions over masks"""
    keys = set(dist) | set(exp)
    worst = max(keys, key=lambda k: abs(dist.get(k, 0) - exp.get(k, 0)))
    R.check(abs(dist.get(worst, 0) - exp.get(worst, 0)) < 1e-6,
            what + ': wrong probability of a test set', data=X,
            test_set=np.frombuffer(worst, dtype=bool).reshape(X.shape),
            probability=dist.get(worst, 0), expected=exp.get(worst, 0), **d)


def free(case, R):
    """every observed cell independently, so that the given fraction of all
    cells is expected to be held out"""
    split = case['split']
    fct = env.seam(experiments, 'split_train_test')
    for X in tensors(case):
        obs = np.argwhere(X != 0)
        p = split * X.size / len(obs)
        if p > .999:
            continue
        dist = distribution(R, X, lambda Y: fct(Y, split=split,
                                                balanced=False),
                            'split', split=split)
        exp = {}
        for bits in itertools.product((False, True), repeat=len(obs)):
            m = np.zeros(X.shape, dtype=bool)
            for o, b in zip(obs, bits):
                m[tuple(o)] = b
            k = sum(bits)
            exp[m.tobytes()] = p**k * (1 - p)**(len(obs) - k)
        same(R, dist, exp, X, 'split', split=split)
        R.sample(dict(data=X, split=split, outcomes=len(dist)))


def uniform(X, S):
    """all sets of S ones and S minus ones are equally likely"""
    one, neg = np.argwhere(X == 1), np.argwhere(X == -1)
    exp = {}
    n = math.comb(len(one), S) * math.comb(len(neg), S)
    for a in itertools.combinations(range(len(one)), S):
        for b in itertools.combinations(range(len(neg)), S):
            m = np.zeros(X.shape, dtype=bool)
            for i in a:
                m[tuple(one[i])] = True
            for i in b:
                m[tuple(neg[i])] = True
            exp[m.tobytes()] = 1. / n
    return exp


def balanced(case, R):
    split = case['split']
    fct = env.seam(experiments, 'split_train_test')
    for X in tensors(case):
        S = int(np.sum(X != 0) * split * .5)
        if min((X == 1).sum(), (X == -1).sum()) < max(S, 1):
            # not possible: has to be refused, whatever the outcomes
            if S > min((X == 1).sum(), (X == -1).sum()):
                for u in (.01, .99):
                    try:
                        rng.Policy(u).run(lambda: fct(
                            X.copy(), split=split, balanced=True))
                    except Exception:
                        continue
                    R.violation('an impossible balanced split is not refused',
                                data=X, split=split)
                R.eval()
            continue
        dist = distribution(R, X, lambda Y: fct(Y, split=split,
                                                balanced=True),
                            'balanced split', split=split)
        same(R, dist, uniform(X, S), X, 'balanced split', split=split)


def single(case, R):
    """2D arrays in {-1,1} or {0,1}: p/2 of the ones, p/2 of the minus ones"""
    split = case['split']
    fct = env.seam(aux, 'split_test_train')
    for X in tensors(case):
        if not (X == -1).any():
            Y0 = X.copy()           # contains 0 and 1: binary coding
            full = 2 * X - 1
        else:
            Y0 = full = X
        S = int(np.prod(X.shape) * split / 2)
        if S > min((full == 1).sum(), (full == -1).sum()):
            continue
        eng = rng.Dfs()

        def go():
            Y = Y0.copy()
            train = fct(Y, split)
            R.check(np.array_equal(Y, Y0), 'split of a matrix changes its'
                    ' input', data=Y0, now=Y)
            mask = (train == 0) & (full != 0)
            R.check(np.array_equal(train, np.where(mask, 0, full)),
                    'split of a matrix: other cells changed', data=Y0,
                    train=train)
            return mask.tobytes()
        dist = eng.distribution(go)
        same(R, dist, uniform(full, S), full, 'split of a matrix',
             split=split)
        R.count('states')
        R.count('transitions', eng.paths)
        R.count('traces_validated_against_impl', eng.paths)
        R.eval(('single', Y0.tobytes(), split))


def old(case, R):
    split = case['split']
    fct = env.seam(experiments, 'split_tensor_train_test_old')
    for X in tensors(case):
        dist = distribution(R, X, lambda Y: fct(Y, split=split),
                            'old split', split=split)
        if (X != 0).all():
            S = int(split * X.size)
            exp = {}
            for a in itertools.combinations(range(X.size), S):
                m = np.zeros(X.size, dtype=bool)
                m[list(a)] = True
                exp[m.reshape(X.shape).tobytes()] = \
                    1. / math.comb(X.size, S)
            same(R, dist, exp, X, 'old split', split=split)


def spread(n):
    k = next(k for k in range(int(.618 * n), n + 2) if math.gcd(k, n) == 1)
    return [k * i % n for i in range(n)]


def large(case, R):
    """sizes at which counters of a few bits would overflow"""
    name, shape = case['fct'], tuple(case['shape'])
    size = int(np.prod(shape))
    big = size > 10000
    for dens, miss, split in itertools.product(
            (.5,) if big else (.1, .5, .7), (0, .3), (.3,) if big else
            (.1, .3) + ((.01,) if size > 400 else ())):
        i = np.arange(size).reshape(shape)
        X = np.where((i * 7919 % 1000) < dens * 1000, 1, -1).astype(np.int8)
        if miss and name in ('free', 'balanced', 'old'):
            X[(i * 104729 % 1000) < miss * 1000] = 0
        X0 = X.copy()
        for u in (lambda k: (k * .6180339887) % 1,
                  lambda k: (k * .4142135623 + .3) % 1):
            eng = rng.Policy(u, perm=spread)
            if name == 'single':
                S = int(X.size * split / 2)
                if S > min((X == 1).sum(), (X == -1).sum()):
                    continue
                train = eng.run(lambda: aux.split_test_train(X, split))
                mask = train == 0
            elif name == 'old':
                S = None
                train, mask = eng.run(
                    lambda: experiments.split_tensor_train_test_old(X, split))
            else:
                S = int((X != 0).sum() * split * .5)
                if name == 'balanced' and \
                        S > min((X == 1).sum(), (X == -1).sum()):
                    continue
                train, mask = eng.run(lambda: experiments.split_train_test(
                    X, split=split, balanced=name == 'balanced'))
            good(R, X, X0, train, mask, name + ' (large)', split=split)
            if name in ('single', 'balanced'):
                R.check((mask & (X0 == 1)).sum() == S and
                        (mask & (X0 == -1)).sum() == S,
                        name + ' (large): number of ones or minus ones in the'
                        ' test set', ones=(mask & (X0 == 1)).sum(),
                        minus_ones=(mask & (X0 == -1)).sum(), expected=S,
                        shape=shape)
            if name == 'free':
                R.check(abs(mask.mean() - split) < .06,
                        'split (large): fraction held out', got=mask.mean(),
                        split=split, shape=shape)
            if name == 'old' and not miss:
                R.check(mask.sum() == int(split * size), 'old split (large):'
                        ' number of cells in the test set', got=mask.sum(),
                        expected=int(split * size), shape=shape)
            # no part of the tensor is left out
            if size > 500 and split > .05:
                for ax in range(len(shape)):
                    part = np.array_split(mask.swapaxes(0, ax), 2)
                    R.check(all(p.any() for p in part if p.size),
                            name + ' (large): no cell of one half of the data'
                            ' is in the test set', axis=ax, shape=shape)
            R.eval((name, shape, dens, miss, split))
            R.count('states')
