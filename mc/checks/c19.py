"""
C19: simulated noise flips every observed cell independently with exactly the
given probability (for ones / minus ones), nothing else, not in place, and is
a function of the seed if one is given.
"""
import itertools

import numpy as np

from mc import env, rng
from mc.common import aux, relaid, signs, tris

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('one evaluation = all random outcomes of one call with exact'
        ' probabilities, or one pair of calls with seeds; non-trivial ='
        ' distinct (function, data, probabilities)')
ASSUMPTIONS = ['random numbers are ideal']
BOUNDS = {'quick': 'all data 1x3, 2x2, 3x1, (boolean) 2x1x2, 1x2x2;'
                   ' probabilities {0,2e-6,.0004,.1,.5,.8,.9997,1}; up to 300 cells with every single'
                   ' deviating random number',
          'thorough': 'additionally 2x3 and 2x2x2'}
P = (0., 2e-6, .0004, .1, .5, .8, .9997, 1.)


def cases(tier):
    t = tier == 'thorough'
    out = []
    for shape in [(1, 3), (2, 2), (3, 1)] + ([(2, 3)] if t else []):
        for p in P:
            out.append(dict(kind='plain', shape=shape, p=p))
            out.append(dict(kind='biased', shape=shape, p=p))
    for shape in [(2, 1, 2), (1, 2, 2), (3, 1, 1)] + (
            [(2, 2, 2)] if t else []):
        for p in P:
            out.append(dict(kind='tensor', shape=shape, p=p))
    out.append(dict(kind='seeds'))
    for shape in [(2, 150), (150, 2), (1, 300), (300, 1), (17, 17)] + (
            [(3, 530), (530, 3), (40, 40)] if t else []):
        out.append(dict(kind='deviation', shape=shape))
    for shape in [(2, 70, 2), (150, 1, 2), (3, 2, 50)]:
        out.append(dict(kind='deviation', shape=shape))
    for shape in [(1031, 2), (2, 1031), (300, 300), (1031, 1, 2),
                  (2, 1031, 1), (1, 2, 1031)]:
        out.append(dict(kind='big', shape=shape))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def compare(R, X, call, probs, flip, what, **d):
    """probs: flip probability of every cell"""
    X0 = X.copy()
    eng = rng.Dfs()
    Y = relaid(X0)

    def go():
        Y[...] = X0
        out = call(Y)
        R.check(np.array_equal(Y, X0) and not np.shares_memory(out, Y),
                what + ': works in place', data=X0, now=Y)
        R.check(out.shape == X0.shape, what + ': shape')
        return np.ascontiguousarray(out.astype(X0.dtype)).tobytes()
    dist = eng.distribution(go)
    R.count('transitions', eng.paths)
    R.count('traces_validated_against_impl', eng.paths)
    R.count('states')
    exp = {}
    for bits in itertools.product((0, 1), repeat=X0.size):
        Y = X0.copy()
        w = 1.
        for i, b in zip(np.ndindex(*X0.shape), bits):
            w *= probs[i] if b else 1 - probs[i]
            if b:
                Y[i] = flip(Y[i])
        if w:
            exp[Y.tobytes()] = exp.get(Y.tobytes(), 0) + w
    worst = max(set(dist) | set(exp),
                key=lambda k: abs(dist.get(k, 0) - exp.get(k, 0)))
    R.check(abs(dist.get(worst, 0) - exp.get(worst, 0)) < 1e-9,
            what + ': wrong probability of an outcome', data=X0,
            outcome=np.frombuffer(worst, dtype=X0.dtype).reshape(X0.shape),
            probability=dist.get(worst, 0), expected=exp.get(worst, 0), **d)
    R.eval((what, X0.tobytes(), X0.shape, tuple(sorted(d.items()))))


def plain(case, R):
    fct = env.seam(aux, 'add_bernoulli_noise_2d')
    p = case['p']
    for X in tris(tuple(case['shape'])):
        # missing cells have nothing to flip
        probs = np.where(X == 0, 0., p)
        for seed in (None, 3):
            compare(R, X, lambda Y: fct(Y, p, seed=seed), probs,
                    lambda v: -v, 'noise', p=p, seed=str(seed))
    R.sample(dict(data=X, p=p))


def biased(case, R):
    fct = env.seam(aux, 'add_bernoulli_noise_2d_biased')
    for p_minus in P:
        for X in tris(tuple(case['shape'])):
            probs = np.where(X == 1, case['p'],
                             np.where(X == -1, p_minus, 0.))
            compare(R, X, lambda Y: fct(Y, case['p'], p_minus, seed=None),
                    probs, lambda v: -v, 'biased noise', p_plus=case['p'],
                    p_minus=p_minus)


def tensor(case, R):
    fct = env.seam(aux, 'add_bernoulli_noise')
    for X in signs(tuple(case['shape'])):
        B = X == 1
        compare(R, B, lambda Y: fct(Y, case['p']),
                np.full(B.shape, case['p']), lambda v: not v, 'tensor noise',
                p=case['p'])
    for X in tris(tuple(case['shape'])):
        compare(R, X, lambda Y: fct(Y, case['p']),
                np.where(X == 0, 0., case['p']), lambda v: -v,
                'tensor noise', p=case['p'])


def deviation(case, R):
    """larger data: one random number deviates from all others; for every one
    of them (nothing but) one cell is different, and every cell is different
    for exactly one of them"""
    shape = tuple(case['shape'])
    i = np.arange(int(np.prod(shape))).reshape(shape)
    X = np.where(i * i % 7 < 3, -1, 1).astype(np.int8)
    if len(shape) == 2:
        X[i % 11 == 5] = 0
        calls = [('noise', X, lambda Y: aux.add_bernoulli_noise_2d(
                     Y, .3, seed=None), .3, .3),
                 ('biased noise', X, lambda Y:
                     aux.add_bernoulli_noise_2d_biased(Y, .6, .2, seed=None),
                     .6, .2)]
    else:
        calls = [('tensor noise', x, lambda Y: aux.add_bernoulli_noise(
            Y, .3), .3, .3) for x in (X == 1, X)]
    for what, data, call, p1, p0 in calls:
        flips = (lambda v: ~v) if data.dtype == bool else (lambda v: -v)
        for rest, one in ((.95, .05), (.05, .95)):
            # all cells flip or no cell flips
            count = rng.Policy(rest)
            base = np.asarray(count.run(lambda: call(data.copy())))
            flipped = np.where(X == 0, data, flips(data)) \
                if len(shape) == 2 else flips(data)
            R.check(np.array_equal(base, flipped) or
                    np.array_equal(base, data), what + ': the same random'
                    ' number for all cells does not flip all or none of them',
                    shape=shape, random=rest)
            hit = np.zeros(shape, dtype=int)
            for k in range(count.calls):
                out = rng.Policy(lambda j: one if j == k else rest).run(
                    lambda: call(data.copy()))
                new = np.argwhere(np.asarray(out) != base)
                R.check(len(new) <= 1, what + ': several cells depend on the'
                        ' same random number', shape=shape,
                        cells=[c.tolist() for c in new[:4]])
                for c in new:
                    hit[tuple(c)] += 1
                R.count('transitions')
                R.count('traces_validated_against_impl')
            R.check(np.array_equal(hit, (data != 0) if len(shape) == 2 else
                                   np.ones(shape)),
                    what + ': cells that depend on no random number, or on'
                    ' several', shape=shape,
                    cells=[c.tolist() for c in np.argwhere(
                        hit != (data != 0))[:4]])
            R.eval((what, shape, rest))
            R.count('states', count.calls)


def big(case, R):
    """a random number below the probability flips, one above does not,
    wherever the cell is"""
    shape = tuple(case['shape'])
    i = np.arange(int(np.prod(shape))).reshape(shape)
    X = np.where(i * i % 7 < 3, -1, 1).astype(np.int8)
    calls = [('noise', lambda Y: aux.add_bernoulli_noise_2d(
                 Y, .5, seed=None)),
             ('biased noise', lambda Y: aux.add_bernoulli_noise_2d_biased(
                 Y, .6, .4, seed=None))]
    if len(shape) == 3:
        calls = [('tensor noise', lambda Y: aux.add_bernoulli_noise(Y, .5))]
    for what, call in calls:
        outs = [np.asarray(rng.Policy(u).run(lambda: call(X.copy())))
                for u in (.05, .95)]
        same = [np.argwhere(o == X) for o in outs]
        R.check(sorted(len(s) for s in same) == [0, X.size], what +
                ': cells that do not follow their random number',
                shape=shape, unchanged=[s[:4].tolist() for s in same])
        R.eval((what, shape))
        R.count('states')
        R.count('transitions', 2)
        R.count('traces_validated_against_impl', 2)


def seeds(case, R):
    """with a seed the result does not depend on the state of the generator,
    and different seeds and no seed are different noise"""
    X = np.ones((12, 10), dtype=np.int8)
    for name, call in (
            ('add_bernoulli_noise_2d',
             lambda s: aux.add_bernoulli_noise_2d(X, .3, seed=s)),
            ('add_bernoulli_noise_2d_biased',
             lambda s: aux.add_bernoulli_noise_2d_biased(X, .3, .2, seed=s))):
        seen = {}
        for s in (0, 1, 2, 7, 123, 2**31):
            res = []
            for before in (0, 5, 99):
                np.random.seed(before)
                np.random.rand(before)
                res.append(call(s))
            R.check(all(np.array_equal(res[0], r) for r in res),
                    name + ': result is not determined by the seed', seed=s)
            R.check(seen.setdefault(res[0].tobytes(), s) == s,
                    name + ': two seeds give the same noise', seed=s,
                    other=seen[res[0].tobytes()])
            R.eval((name, s))
        res = set()
        for before in range(6):
            np.random.seed(before)
            a, b = call(None), call(None)
            res |= {a.tobytes(), b.tobytes()}
            R.eval((name, 'none', before))
        R.check(len(res) >= 6, name + ': without a seed the noise is always'
                ' the same', different=len(res))
        R.check(not set(res) <= set(seen), name + ': seed is ignored')
