"""
C07: lambda is set to the logit of the posterior mean (Beta prior) of the
fraction of correctly reconstructed observed cells, at least 0.
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import (PM, chunks, factors, lbda_fct, lom, machine, relaid,
                       signs, snapshot, tris)

ID = 'C07'
LEVEL = 'exploration'
RULE = ('one evaluation = one update of lambda compared with the reference;'
        ' non-trivial = distinct (model, factors, data, prior) with an'
        ' observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)']
BOUNDS = {'quick': 'all factors and data in {-1,0,1} up to 2x2 and 1x2x2 with'
                   ' L <= 2; counts up to 90000; 12 priors',
          'thorough': 'additionally 2x3 and 2x2x2 (L=1), 3x2 with L=2'}
PRIORS = ((1, 1), (10, 2), (.5, .5), (1, 40), (3., 1.), (100, 100), (1, .25),
          (2, 7), (1, 1e-4), (.01, .02), (5., 1e-7), (1e-5, 3))
MODELS = ref.MODELS + ('OR-AND-IBP', 'qL-AND')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in MODELS:
        for shape, L in [((1, 1), 1), ((1, 1), 3), ((1, 2), 2), ((2, 1), 2),
                         ((2, 2), 1), ((2, 2), 2)] + (
                [((2, 3), 1), ((3, 2), 2)] if t else []):
            out.append(dict(kind='all', model=model, shape=shape, L=L))
        if model in ref.MODELS:
            for shape, L in [((1, 1, 1), 2), ((1, 2, 1), 2), ((2, 1, 2), 1),
                             ((2, 2, 1), 1)] + (
                    [((2, 2, 2), 1), ((1, 2, 2), 2)] if t else []):
                out.append(dict(kind='all', model=model, shape=shape, L=L))
        out.append(dict(kind='large', model=model))
        out.append(dict(kind='infer', model=model))
    out.append(dict(kind='levels'))
    return out


def counts(model, mats, X, q):
    P = ND = 0
    base = 'OR-AND' if model == 'OR-AND-IBP' else model
    for idx in itertools.product(*[range(len(m)) for m in mats]):
        x = int(X[idx])
        if not x:
            continue
        ND += 1
        rows = ref.rows_of(mats, idx)
        if model == 'qL-AND':
            k = sum(1 for a, b in zip(*rows) if a == 1 and b == 1)
            f = 1 if k >= q[idx[1]] else -1
        else:
            f = ref.f(base, rows)
        P += f == x
    return P, ND


def expected(P, ND, prior):
    a, b = prior
    return max(0.0, math.log((P + a) / (ND - P + b)))


def slack(want):
    """rounding; accuracies close to one differ from it in few digits"""
    return 1e-9 * (1 + want) + 1e-15 * math.exp(min(want, 60))


def compare(R, model, layer, fct, P, ND, prior, key, **detail):
    layer.lbda.beta_prior = prior
    layer.lbda.val = .123
    before = snapshot(layer.child.val, *[f.val for f in factors(layer)])
    fct(layer.lbda)
    want = expected(P, ND, prior)
    got = layer.lbda.val
    R.eval(key if ND else None)
    if np.ndim(got) or not abs(float(got) - want) <= slack(want):
        R.violation('lambda is not the posterior mean accuracy', model=model,
                    correct=P, observed=ND, prior=prior, got=got,
                    expected=want, **detail)
    if snapshot(layer.child.val, *[f.val for f in factors(layer)]) != before:
        R.violation('update of lambda changes matrices', model=model)
    R.sample(dict(model=model, correct=P, observed=ND, prior=prior, got=got))


def run_all(case, R):
    model, shape, L = case['model'], tuple(case['shape']), case['L']
    m, data, layer = machine(model, np.ones(shape, dtype=np.int8), L)
    fct = lbda_fct(layer.lbda)
    n = sum(shape) * L
    q = [1] * shape[1]
    i = 0
    few = n + int(np.prod(shape)) * 1.5 > 13
    for flat in signs((n,)):
        at = 0
        for f, k in zip(factors(layer), shape):
            f.val = relaid(flat[at:at + k * L].reshape(k, L))
            at += k * L
        mats = [ref.tup(f.val) for f in factors(layer)]
        if model == 'qL-AND':
            q = [1 + (i + d) % 3 for d in range(shape[1])]
            layer.q.val[0, :] = q
        for X in tris(shape):
            data.val = relaid(X)
            P, ND = counts(model, mats, X, q)
            priors = PRIORS if not few else [PRIORS[i % len(PRIORS)]]
            i += 1
            for prior in priors:
                compare(R, model, layer, fct, P, ND, prior,
                        (flat.tobytes(), X.tobytes(), prior),
                        factors=mats, data=X)


def run_large(case, R):
    """counts beyond 8 and 16 bit, data and factors with structure"""
    model = case['model']
    for shape in ((1, 127), (128, 1), (16, 16), (300, 1), (1, 300), (1031, 1),
                  (1, 1031), (183, 182), (300, 300)) + (
                      ((5, 6, 7), (131, 2, 2), (2, 131, 2), (2, 2, 131),
                       (20, 41, 41)) if model in ref.MODELS else ()):
        for L in (1, 2) if np.prod(shape) < 1000 else (1,):
            m, data, layer = machine(model, np.ones(shape, dtype=np.int8), L)
            fct = lbda_fct(layer.lbda)
            for pattern in range(4 if np.prod(shape) < 1000 else 2):
                for f in factors(layer):
                    k = np.arange(f.val.size).reshape(f.val.shape)
                    f.val = np.where(k % (pattern + 2) == 0, -1, 1).astype(
                        np.int8)
                mats = [ref.tup(f.val) for f in factors(layer)]
                k = np.arange(np.prod(shape)).reshape(shape)
                X = np.where(k % 7 == 0, 0, np.where(k % 3 == 0, -1, 1)) \
                    .astype(np.int8)
                if pattern == 1:
                    X = np.ones(shape, dtype=np.int8)
                data.val = X
                q = [1] * shape[1]
                if model == 'qL-AND':
                    q = [1 + d % 2 for d in range(shape[1])]
                    layer.q.val[0, :] = q
                P, ND = counts(model, mats, X, q)
                for prior in PRIORS[:2]:
                    compare(R, model, layer, fct, P, ND, prior,
                            (shape, L, pattern, prior), shape=shape)
                if max(shape) not in (1031, 131):
                    continue
                # mostly correct predictions, so that lambda is not clipped
                X = np.ones(shape, dtype=np.int8)
                for idx in np.ndindex(*shape):
                    one = counts(model, [(mat[i],) for mat, i in
                                         zip(mats, idx)],
                                 np.ones((1,) * len(shape)),
                                 [q[idx[1]]])[0]
                    X[idx] = (1 if one else -1) * (
                        -1 if sum(idx) % 7 == 0 else 1)
                data.val = X
                P, ND = counts(model, mats, X, q)
                compare(R, model, layer, fct, P, ND, PRIORS[0],
                        (shape, L, pattern, 'right'), shape=shape)


    # all cells the same: counts beyond 16 bit numbers, of either kind
    for shape in ((182, 182), (257, 257)) + (
            ((33, 33, 33), (41, 41, 41)) if model in ref.MODELS else ()):
        m, data, layer = machine(model, np.ones(shape, dtype=np.int8), 1)
        fct = lbda_fct(layer.lbda)
        for base, x in itertools.product(PM, PM):
            if x == -1 and shape[0] in (41, 257) and base == 1:
                continue
            for f in factors(layer):
                f.val = np.full(f.val.shape, base, dtype=np.int8)
            X = np.full(shape, x, dtype=np.int8)
            X.reshape(-1)[:7] = -x
            data.val = X
            q = [1] * shape[1]
            if model == 'qL-AND':
                layer.q.val[0, :] = q
            one = [((base,),) for _ in shape]
            fx = 1 if counts(model, one, np.ones((1,) * len(shape)),
                             [1])[0] else -1
            ND = X.size
            P = ND - 7 if fx == x else 7
            compare(R, model, layer, fct, P, ND, (1, 1), (shape, base, x),
                    shape=shape)


def run_infer(case, R):
    """the value that inference ends with refers to the final factors"""
    model = case['model']
    if model == 'OR-AND-IBP':
        return
    g = np.random.RandomState(0)
    for fixed in itertools.product((True, False), repeat=2):
        for rep in range(12):
            X = np.array(g.randint(-1, 2, (3, 2)), dtype=np.int8)
            m, data, layer = machine(model, X, 2)
            for f, b in zip(factors(layer), fixed):
                f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                 dtype=np.int8)
                f.fixed = b
            if model == 'qL-AND':
                layer.q.fixed = True
            layer.lbda.beta_prior = PRIORS[rep % len(PRIORS)]
            eng = rng.Policy(lambda i: (i * .37 + rep * .11) % 1)
            n = 1 + rep % 3
            eng.run(lambda: m.infer(no_samples=n, burn_in_min=rep % 2,
                                    burn_in_max=0))
            mats = [ref.tup(f.val) for f in factors(layer)]
            q = layer.q.val[0].tolist() if model == 'qL-AND' else None
            P, ND = counts(model, mats, X, q)
            want = expected(P, ND, layer.lbda.beta_prior)
            R.eval((fixed, rep))
            if abs(layer.lbda.val - want) > slack(want) or \
                    abs(layer.lbda.trace[-1] - want) > 1e-5 + slack(want) or \
                    len(layer.lbda.trace) != n:
                R.violation('lambda after inference is not the posterior mean '
                            'accuracy of the final factors', model=model,
                            got=layer.lbda.val, trace=layer.lbda.trace,
                            expected=want, factors=mats, data=X)


def run_levels(case, R):
    """lambda of a layer above: its child is a factor"""
    g = np.random.RandomState(2)
    for a, b in itertools.product(ref.MODELS, repeat=2):
        for axis in (0, 1):
            X = np.array(g.randint(-1, 2, (3, 2)), dtype=np.int8)
            m, data, l1 = machine(a, X, 2)
            l2 = m.add_layer(latent_size=2, child=l1.factors[axis], model=b)
            l1.lbda.beta_prior = (3, 2)
            for rep in range(3):
                for l in (l1, l2):
                    for f in l.factors:
                        f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                         dtype=np.int8)
                for l, model in ((l1, a), (l2, b)):
                    l.lbda.sampling_fct = None
                    P, ND = counts(model, [ref.tup(f.val) for f in l.factors],
                                   l.child.val, None)
                    compare(R, model, l, lbda_fct(l.lbda), P, ND,
                            l.lbda.beta_prior, (a, b, axis, rep, model),
                            models=(a, b))


def run(case, R):
    dict(all=run_all, large=run_large, infer=run_infer,
         levels=run_levels)[case['kind']](case, R)
