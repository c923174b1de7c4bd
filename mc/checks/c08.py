"""
C08: missing data (0) have no influence.  Adding objects, features or slices
of which nothing is observed changes neither the update of any other factor
entry, nor lambda, nor thresholds, whatever the factors of the added parts
are; the added parts themselves follow their prior.
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import (PM, balance_ok, factors, frozen, implied, lbda_fct,
                       machine, relaid, signs, site_rates, state_dist, tris,
                       update_fct)

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('one evaluation = one pair of machines (without / with unobserved'
        ' rows), exact distributions compared; non-trivial = distinct (model,'
        ' axes, factors, data, added rows)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'random numbers are ideal']
BOUNDS = {'quick': 'L=2, base data 1x2 / 2x1 / 1x1x2, one added row per axis,'
                   ' all factors, all data in {-1,0,1}',
          'thorough': 'base data 2x2 and two added rows'}
ALL = ref.MODELS + ('MAX-AND', 'qL-AND')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ALL:
        Ks = (2, 3) if model in ref.MODELS else (2,)
        for K in Ks:
            for grow in range(K):
                shapes = [(1, 2), (2, 1)] if K == 2 else [(1, 1, 2)]
                if t:
                    shapes += [(2, 2)] if K == 2 else [(1, 2, 1), (2, 1, 1)]
                for shape in shapes:
                    out.append(dict(model=model, K=K, grow=grow, shape=shape,
                                    extra=1))
                out.append(dict(model=model, K=K, grow=grow,
                                shape=[1] * K, extra=2))
                # so many missing cells that they would dominate
                out.append(dict(model=model, K=K, grow=grow, shape=[1] * K,
                                extra=140, some=True))
    return out


def lam(model, L):
    return np.array([.9, .6, .75][:L] + [.15]) if model == 'MAX-AND' else .8


def close(a, b, tol):
    keys = set(a) | set(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) < tol for k in keys)


def run(case, R):
    model, K, grow = case['model'], case['K'], case['grow']
    shape, extra, L = tuple(case['shape']), case['extra'], 2
    big = list(shape)
    big[grow] += extra
    tol = 1e-5 if model == 'MAX-AND' else 1e-9
    ms, ds, ls = machine(model, np.ones(shape, dtype=np.int8), L)
    mb, db, lb = machine(model, np.ones(big, dtype=np.int8), L)
    fs, fb = factors(ls), factors(lb)
    up_s, up_b = [update_fct(f) for f in fs], [update_fct(f) for f in fb]
    lf_s, lf_b = lbda_fct(ls.lbda), lbda_fct(lb.lbda)
    for f in fs + fb:
        f.bernoulli_prior = .5 if model == 'MAX-AND' else .3
    ls.lbda.beta_prior = lb.lbda.beta_prior = (2, 1)
    n = sum(shape) * L
    for j, flat in enumerate(signs((n,))):
        if case.get('some') and j % 3:
            continue
        at = 0
        vals = []
        for k in shape:
            vals.append(flat[at:at + k * L].reshape(k, L))
            at += k * L
        for i, X in enumerate(tris(shape)):
            if K == 3 and i % 2:
                continue
            XX = np.zeros(big, dtype=np.int8)
            XX[tuple(slice(0, k) for k in shape)] = X
            if extra == 1:
                adds = [np.array(a, dtype=np.int8).reshape(1, L)
                        for a in itertools.product(PM, repeat=L)]
            else:
                adds = [np.full((extra, L), v, dtype=np.int8) for v in PM]
                if extra == 2:
                    adds.append(np.array([[1, -1], [-1, 1]], dtype=np.int8))
            small = None
            for add in adds:
                ds.val, db.val = relaid(X), relaid(XX)
                ls.lbda.val, lb.lbda.val = lam(model, L), lam(model, L)
                if model == 'qL-AND':
                    ls.q.val[:] = 1 + i % 2
                    lb.q.val[:] = 1 + (i + 1) % 2
                    lb.q.val[0, :shape[1]] = ls.q.val[0]

                def reset():
                    for a, (f, g, v) in enumerate(zip(fs, fb, vals)):
                        f.val = v.copy()
                        g.val = np.vstack([v, add]) if a == grow else v.copy()
                reset()
                for a in range(K):
                    if a == grow and extra > 2:
                        continue
                    reset()
                    d0, e0 = state_dist(fs[a], up_s[a], vals[a])
                    start = fb[a].val.copy()
                    if a == grow:       # only the rows that have data
                        fb[a].fixed_entries = np.zeros(start.shape, np.int8)
                        fb[a].fixed_entries[-extra:] = 1
                    d1, e1 = state_dist(fb[a], up_b[a], start)
                    fb[a].fixed_entries = np.zeros(start.shape, np.int8)
                    if a == grow:
                        cut = {}
                        for k, p in d1.items():
                            k = np.frombuffer(k, dtype=np.int8).reshape(
                                start.shape)
                            k = np.ascontiguousarray(k[:-extra]).tobytes()
                            cut[k] = cut.get(k, 0) + p
                        d1 = cut
                    R.count('states', 2)
                    R.count('transitions', len(d0) + len(d1))
                    R.count('traces_validated_against_impl',
                            e0.paths + e1.paths)
                    R.eval((a, j, i, add.tobytes()))
                    if not close(d0, d1, tol if not (e0.approx or e1.approx)
                                 else .1):
                        R.violation(
                            'unobserved data change the update of a factor',
                            model=model, axis=a, added_axis=grow, added=add[:3],
                            n_added=extra, data=X, factors=vals,
                            without={str(list(np.frombuffer(k, np.int8))): p
                                     for k, p in d0.items()},
                            with_added={str(list(np.frombuffer(k, np.int8))): p
                                        for k, p in d1.items()})
                reset()
                lf_s(ls.lbda)
                lf_b(lb.lbda)
                R.eval(('lambda', j, i, add.tobytes()))
                if not np.allclose(ls.lbda.val, lb.lbda.val, atol=1e-9):
                    R.violation('unobserved data change lambda', model=model,
                                data=X, factors=vals, added=add[:3],
                                n_added=extra, without=ls.lbda.val,
                                with_added=lb.lbda.val)
                ls.lbda.val, lb.lbda.val = lam(model, L), lam(model, L)
            # the added rows follow the prior
            if j % 4 == 0 and extra < 3:
                reset()
                g = fb[grow]
                for site in ((shape[grow], 0), (big[grow] - 1, 1)):
                    frozen(g)
                    g.fixed_entries[site] = 0
                    rates = site_rates(R, g, up_b[grow], g.val.copy(), site,
                                       'update of an unobserved row',
                                       model=model)
                    target = ref.logit(g.bernoulli_prior)
                    R.eval(('prior', j, i, site))
                    if rates and not balance_ok(rates, target, tol):
                        R.violation('entries without any data do not follow '
                                    'their prior', model=model, data=XX,
                                    site=site, **implied(rates))
                    reset()
                g.fixed_entries = np.zeros(g.val.shape, dtype=np.int8)
    R.sample(dict(model=model, shape=shape, enlarged=big))
