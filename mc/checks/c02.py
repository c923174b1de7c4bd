"""
C02: the output for independent Bernoulli factor entries is the exact
probability of a one.

The exact probability is a polynomial of degree one in every entry, so that
agreement on three values of every entry (all combinations) is agreement
everywhere for code that computes a polynomial of degree <= 2 per entry.
"""
import itertools

import numpy as np

from mc import ref
from mc.common import aux, lom, machine, relaid

ID = 'C02'
LEVEL = 'exploration'
RULE = ('one evaluation = one output cell compared with the sum over all'
        ' binary factor entries; distinct = distinct (entry point, model,'
        ' grid); non-trivial = entries strictly between 0 and 1 occur')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'entries are independent']
BOUNDS = {'quick': 'grid {0,.3,1}: K=2,L<=3; K=3,L<=2; {.3,1} K=3,L=3;'
                   ' K=4,L=1; constant rows with one deviation for L<=12',
          'thorough': 'grid {0,.3,.8,1}: K=2,L<=3; K=3,L<=2; {0,.3,1} K=2,L=4'
                      ' and K=3,L=3'}


def grid_rows(values, L):
    return np.array(list(itertools.product(values, repeat=L)))


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS:
        g = [0., .3, .8, 1.] if t else [0., .3, 1.]
        for K, L, v in [(2, 1, g), (2, 2, g), (2, 3, g), (3, 1, g),
                        (3, 2, g), (3, 3, [.3, 1.]), (4, 1, g),
                        (4, 2, [.3, 1.]), (2, 4, [0.2, .9]),
                        (5, 1, [0., .3, 1.]), (6, 1, [.3, .9]),
                        (5, 2, [.4, 1.]), (2, 3, [.002, .9]),
                        (3, 2, [.02, .995])] + (
                [(2, 4, [0., .3, 1.]), (3, 3, [0., .3, 1.])] if t else []):
            out.append(dict(kind='grid', model=model, K=K, L=L, values=v))
        out.append(dict(kind='shapes', model=model))
        out.append(dict(kind='long', model=model))
    return out


def entry_points(model, K):
    yield 'lom_generate_data_fast(fuzzy)', \
        lambda fs: aux.lom_generate_data_fast(fs, model, fuzzy=True)
    yield 'lom_generate_data_fuzzy', \
        lambda fs: .5 * (1 + aux.lom_generate_data_fuzzy(fs, model))
    if model in ref.MODELS and K < 4:
        for tech in ('factor_mean', 'factor_mean_old'):
            yield 'layer.output(%s)' % tech, \
                lambda fs, tech=tech: layer_output(fs, model, tech)


def layer_output(fs, model, tech):
    m, data, layer = machine(model, np.ones([f.shape[0] for f in fs],
                                            dtype=np.int8), fs[0].shape[1])
    for f, v in zip(layer.factors, fs):
        f.val = relaid(2 * v - 1)      # the mean of a matrix without samples
    return layer.output(technique=tech)


def compare(R, model, fs):
    tabs = [tuple(tuple(float(v) for v in r) for r in f) for f in fs]
    expected = np.empty([len(t) for t in tabs])
    for idx in np.ndindex(*expected.shape):
        expected[idx] = ref.f_prob(model, ref.rows_of(tabs, idx))
    for name, fn in entry_points(model, len(fs)):
        args = [relaid(2 * f - 1 if name == 'lom_generate_data_fuzzy' else f)
                for f in fs]
        before = [a.tobytes() for a in args]
        got = np.asarray(fn(args))
        R.check([a.tobytes() for a in args] == before,
                'computing probabilities modifies the factors', model=model,
                entry_point=name)
        R.count('evaluations', expected.size)
        R.distinct.add(hash((name, tuple(tabs))))
        if got.shape != expected.shape:
            R.violation('probabilities have the wrong shape', model=model,
                        entry_point=name, shape=got.shape,
                        expected=expected.shape)
            continue
        bad = np.argwhere(~(np.abs(got - expected) < 1e-9))
        if len(bad):
            i = tuple(int(v) for v in bad[0])
            R.violation('output is not the probability of a one', model=model,
                        entry_point=name, rows=ref.rows_of(tabs, i),
                        got=got[i], expected=expected[i],
                        wrong_cells=len(bad), cells=expected.size)
        R.sample(dict(entry_point=name, shape=expected.shape,
                      mean=float(expected.mean())))


def run(case, R):
    model = case['model']
    if case['kind'] == 'grid':
        compare(R, model, [grid_rows(case['values'], case['L'])] * case['K'])
    elif case['kind'] == 'shapes':
        g = np.random.RandomState(2)
        for shape in ((1, 1), (1, 4), (3, 2), (1, 2, 3), (3, 1, 2), (2, 3, 1)):
            for L in (1, 2, 5):
                compare(R, model, [g.rand(n, L) for n in shape])
        # many objects or features
        for shape in ((1031, 2), (2, 1031), (131, 2, 2), (2, 131, 2),
                      (2, 2, 131)):
            compare(R, model, [g.rand(n, 2) for n in shape])
    else:
        # many dimensions, almost all of them (un)certain alike
        for K, L in ((2, 17), (2, 40), (2, 130), (3, 20)):
            rows = []
            for b in (.003, .997):
                for l in ((), (0,), (L - 1,), (0, L - 1), (L // 2,)):
                    r = np.full((1, L), b)
                    r[0, list(l)] = .55 if b > .5 else .4
                    rows.append(r)
            compare(R, model, [np.vstack(rows)] * K)
        for K, L in ((2, 6), (2, 10), (3, 5)):
            rows = []
            for k in range(K):
                r = np.vstack([np.full((L + 1, L), b) for b in (.1, 1., .9)])
                for j in range(3):
                    for l in range(L):
                        r[j * (L + 1) + l, l] = .4 + .1 * k
                rows.append(r[:: 1 if K == 2 else 4])
            compare(R, model, rows)
