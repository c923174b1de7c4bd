"""
C22: OR-AND-IBP.

 update  - exact distribution of one update of the first factor (columns are
           resampled, dropped and born) against a reference distribution
 second  - conditional of the second factor, also after the number of columns
           has changed
 traces  - scripted histories of numbers of columns through infer
 many, wide - many objects, many features: what is left of the distribution
           when the data determine all else
 later   - the same distribution through infer, after alpha, lambda, the prior
           or the data have been changed between two calls of it
 live    - sequences of updates under adversarial random numbers: consistency
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import (num, PM, aux, balance_ok, factors, implied, lom, machine,
                       relaid, signs, site_rates, tris, update_fct)

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('one evaluation = exact distribution of one update from one state, or'
        ' one history of columns through infer; non-trivial = distinct'
        ' (factors, data, alpha, lambda, prior) with an observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'random numbers are ideal',
               'at most two new columns per object and update, as in the code',
               'columns that only the present object uses explain data while'
               ' its other columns are resampled, and are dropped afterwards']
BOUNDS = {'quick': 'N=1 L<=2 D<=2; N=2, L<=1, D=1; every n-th state of N=2, L=2,'
                   ' D=1 and N=2, L<=1, D=2; histories of 1..13 columns, length <= 3;'
                   ' 128..300 objects of which 2..299 use a column; one object with up to'
                   ' 303 features, priors .0005 to .9995',
          'thorough': 'N=2, L<=2, D=2; N=3, L<=1, D=1'}
PARMS = [(3., .9, .5), (.7, 2., .2), (1.5, .0, .6), (4., .4, .8), (.7, 60., .5)]


def cases(tier):
    t = tier == 'thorough'
    out = []
    sizes = [(1, 0, 1, 1), (1, 1, 1, 1), (1, 2, 1, 1), (1, 0, 2, 1),
             (1, 1, 2, 1), (2, 0, 1, 1), (2, 1, 1, 1), (2, 2, 1, 13),
             (2, 0, 2, 9), (2, 1, 2, 91), (1, 0, 3, 1)] + (
        [(2, 2, 1, 1), (2, 0, 2, 1), (2, 1, 2, 3), (2, 2, 2, 997), (3, 0, 1, 2),
         (3, 1, 1, 5)] if t else [])
    for N, L, D, step in sizes:
        for parm in PARMS:
            out.append(dict(kind='update', N=N, L=L, D=D, step=step,
                            parm=parm))
    for N, L, D, step in sizes[:6]:
        out.append(dict(kind='update', N=N, L=L, D=D, step=step,
                        parm=(2., -.6, .4)))
    for L in (1, 2, 3):
        out.append(dict(kind='second', L=L, N=2 if L < 3 else 1))
    for n in (1, 2, 3):
        out.append(dict(kind='traces', n=n))
    out.append(dict(kind='live'))
    for N in (128, 130, 200, 257, 258, 300) + ((33000,) if t else ()):
        out.append(dict(kind='many', N=N))
    for q in (.0005, .004, .009, .03, .2, .5, .9, .99, .9995):
        out.append(dict(kind='wide', q=q))
    for k in range(len(PARMS)):
        out.append(dict(kind='later', k=k, step=1 if t else 3))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


# ------------------------------------------------------------- reference
def covers(zrow, urow):
    return any(a == 1 and b == 1 for a, b in zip(zrow, urow))


def loglik(zrow, ucols, xrow, lam):
    """ucols: list of columns (tuples over features)"""
    s = 0.
    for d, x in enumerate(xrow):
        if x:
            on = any(z == 1 and c[d] == 1 for z, c in zip(zrow, ucols))
            s += math.log(ref.sigmoid(lam * int(x) * (1 if on else -1)))
    return s


def ref_row(state, n, X, lam, p_on, alpha):
    """state: list of columns (zcol, ucol); distribution after object n"""
    N, D = X.shape
    live = [({}, 1.)]
    # resample the columns that others use, one after the other
    dist = {tuple(state): 1.}
    for l, (zc, uc) in enumerate(state):
        m = sum(1 for i, v in enumerate(zc) if i != n and v == 1)
        if m == 0:
            continue
        new = {}
        for st, w in dist.items():
            zrow = [c[0][n] for c in st]
            us = [c[1] for c in st]
            zrow[l] = 1
            a = loglik(zrow, us, X[n], lam) + math.log(m / N)
            zrow[l] = -1
            b = loglik(zrow, us, X[n], lam) + math.log(1 - m / N)
            p = ref.sigmoid(a - b)
            for v, pv in ((1, p), (-1, 1 - p)):
                c = list(st)
                z = list(c[l][0])
                z[n] = v
                c[l] = (tuple(z), c[l][1])
                c = tuple(c)
                new[c] = new.get(c, 0.) + w * pv
        dist = new
    # drop the columns without other users
    new = {}
    for st, w in dist.items():
        c = tuple(c for c in st if any(v == 1 for i, v in enumerate(c[0])
                                       if i != n))
        new[c] = new.get(c, 0.) + w
    # new columns
    out = {}
    for st, w in new.items():
        zrow = [c[0][n] for c in st]
        us = [c[1] for c in st]
        logw = []
        for k in range(3):
            s = k * math.log(alpha / N) - math.lgamma(k + 1)
            for d in range(D):
                x = int(X[n, d])
                if x and not any(z == 1 and c[d] == 1
                                 for z, c in zip(zrow, us)):
                    off = (1 - p_on)**k
                    s += math.log((1 - off) * ref.sigmoid(lam * x) +
                                  off * ref.sigmoid(-lam * x))
            logw.append(s)
        mx = max(logw)
        ws = [math.exp(v - mx) for v in logw]
        for k in range(3):
            births(list(st), k, n, X, lam, p_on, w * ws[k] / sum(ws), out)
    return out


def births(st, k, n, X, lam, p_on, w, out):
    """k new columns, their features resampled one after the other, starting
    from inactive ones"""
    N, D = X.shape
    z = tuple(1 if i == n else -1 for i in range(N))
    base = len(st)
    st = st + [(z, (-1,) * D)] * k
    dist = {tuple(st): w}
    for l in range(base, base + k):
        for d in range(D):
            new = {}
            for s, ws in dist.items():
                x = int(X[n, d])
                others = any(c[0][n] == 1 and c[1][d] == 1
                             for i, c in enumerate(s) if i != l)
                logit = ref.logit(p_on) + (0 if others else lam * x)
                p = ref.sigmoid(logit)
                for v, pv in ((1, p), (-1, 1 - p)):
                    c = list(s)
                    u = list(c[l][1])
                    u[d] = v
                    c[l] = (c[l][0], tuple(u))
                    c = tuple(c)
                    new[c] = new.get(c, 0.) + ws * pv
            dist = new
    for s, ws in dist.items():
        out[s] = out.get(s, 0.) + ws


def ref_update(Z, U, X, lam, p_on, alpha):
    start = tuple((tuple(Z[:, l]), tuple(U[:, l])) for l in range(Z.shape[1]))
    dist = {start: 1.}
    for n in range(len(Z)):
        new = {}
        for st, w in dist.items():
            for s, p in ref_row(st, n, X, lam, p_on, alpha).items():
                new[s] = new.get(s, 0.) + w * p
        dist = new
    # the order of the columns does not matter
    out = {}
    for s, w in dist.items():
        s = tuple(sorted(s))
        out[s] = out.get(s, 0.) + w
    return out


def build(X, L, alpha=None):
    m, d, layer = machine('OR-AND-IBP', X, max(L, 1))
    if alpha is not None:
        layer.alpha = num(alpha)
    return m, d, layer


def update(case, R):
    N, L, D = case['N'], case['L'], case['D']
    alpha, lam, p_on = case['parm']
    m, d, layer = build(np.ones((N, D), dtype=np.int8), L, alpha)
    layer.lbda.val = num(lam)
    z, u = factors(layer)
    u.bernoulli_prior = num(p_on)
    fct = update_fct(z)
    i = 0
    for Z in signs((N, L)) if L else [np.ones((N, 0), dtype=np.int8)]:
        for U in signs((D, L)) if L else [np.ones((D, 0), dtype=np.int8)]:
            for X in tris((N, D)):
                i += 1
                if (i + int(10 * abs(case['parm'][1]))) % case['step']:
                    continue
                d.val = relaid(X)

                def go():
                    z.val, u.val = Z.copy(), U.copy()
                    fct(z)
                    a, b = z(), u()
                    R.check(a.shape[0] == N and b.shape[0] == D and
                            a.shape[1] == b.shape[1], 'IBP: factors have'
                            ' different numbers of columns', Z=Z, U=U, data=X,
                            shapes=[a.shape, b.shape])
                    R.check(all(np.shape(f.fixed_entries) == f().shape
                                for f in (z, u)), 'IBP: fixed entries do not'
                            ' have the shape of the factor')
                    return tuple(sorted(
                        (tuple(map(int, a[:, l])), tuple(map(int, b[:, l])))
                        for l in range(a.shape[1])))
                eng = rng.Dfs()
                dist = eng.distribution(go)
                exp = ref_update(Z, U, X, lam, p_on, alpha)
                R.count('states')
                R.count('transitions', len(dist))
                R.count('traces_validated_against_impl', eng.paths)
                R.eval((i,) if X.any() else None)
                worst = max(set(dist) | set(exp), key=lambda k:
                            abs(dist.get(k, 0) - exp.get(k, 0)))
                R.check(abs(dist.get(worst, 0) - exp.get(worst, 0)) < 1e-6,
                        'IBP: probability of a result of one update',
                        Z=Z, U=U, data=X, alpha=alpha, lbda=lam, prior=p_on,
                        result_columns=worst, got=dist.get(worst, 0),
                        expected=exp.get(worst, 0))
                R.check(np.array_equal(d(), X) and layer.alpha == alpha,
                        'IBP: update changes data or alpha')
    R.sample(dict(Z=Z, U=U, data=X, outcomes=len(dist)))


def many(case, R):
    """
    many objects: all but one are determined by their data, that one has
    nothing but the number of users to go by
    """
    N = case['N']
    for users in sorted({2, N // 2, 127, 128, 129, 255, 256, 257, 32768,
                         N - 2, N - 1}):
        if users > N - 1:
            continue
        for n0 in {0, N // 2, N - 1} if N < 1000 else (5,):
            others = [n for n in range(N) if n != n0]
            X = np.full((N, 2), -1, dtype=np.int8)
            X[others[:users], 0] = 1
            X[n0, 0] = 0
            m, d, layer = build(X, 1, 1e-15)
            layer.lbda.val = 50.
            z, u = factors(layer)
            fct = update_fct(z)
            for start in PM:
                Z = np.where(X[:, :1] == 1, 1, -1).astype(np.int8)
                Z[n0] = start

                def go():
                    z.val = Z.copy()
                    u.val = np.array([[1], [-1]], dtype=np.int8)
                    fct(z)
                    a = z()
                    if a.shape != (N, 1) or u().shape != (2, 1):
                        return 'columns: %d' % a.shape[1]
                    if not np.array_equal(a[others], Z[others]):
                        return 'another object'
                    return int(a[n0, 0])
                eng = rng.Dfs(negligible=1e-9)
                dist = eng.distribution(go)
                exp = {1: users / N, -1: 1 - users / N}
                R.count('states')
                R.count('transitions', len(dist))
                R.count('traces_validated_against_impl', eng.paths)
                R.eval((N, users, n0, start))
                R.check(set(dist) <= {1, -1} and all(
                    abs(dist.get(v, 0) - exp[v]) < 1e-6 for v in exp),
                    'IBP: probability of using a column with many users',
                    objects=N, users=users, object=n0, before=start,
                    got={str(k): v for k, v in dist.items()}, expected=exp)


def wide(case, R):
    """
    one object with many features, which are (all but) determined by the
    data: the number of columns that are born
    """
    q, lam = case['q'], 45.
    for plus, minus, miss, alpha in itertools.product(
            (0, 1, 2), (0, 1, 7, 60, 300), (0, 1), (.002, .05, 1., 9., 70.)):
        X = np.array([[1] * plus + [0] * miss + [-1] * minus], dtype=np.int8)
        D = X.shape[1]
        if not D:
            continue
        m, d, layer = build(X, 1, alpha)
        layer.lbda.val = num(lam)
        z, u = factors(layer)
        u.bernoulli_prior = num(q)
        fct = update_fct(z)

        def go():
            # its only column is used by nobody else and replaced
            z.val = np.array([[-1]], dtype=np.int8)
            u.val = np.full((D, 1), -1, dtype=np.int8)
            fct(z)
            if z().shape[1] != u().shape[1] or not np.all(z() == 1):
                return 'columns'
            if u()[plus + miss:].max(initial=-1) > -1 or (
                    u().shape[1] and u()[:plus].max(initial=1) < 1):
                return 'features'
            return u().shape[1]
        eng = rng.Dfs(negligible=1e-9)
        dist = eng.distribution(go)
        logw = []
        for k in range(3):
            off = (1 - q)**k
            logw.append(
                k * math.log(alpha) - math.lgamma(k + 1) +
                plus * math.log((1 - off) * ref.sigmoid(lam) +
                                off * ref.sigmoid(-lam)) +
                minus * math.log((1 - off) * ref.sigmoid(-lam) +
                                 off * ref.sigmoid(lam)))
        ws = [math.exp(v - max(logw)) for v in logw]
        exp = {k: w / sum(ws) for k, w in enumerate(ws)}
        R.count('states')
        R.count('transitions', len(dist))
        R.count('traces_validated_against_impl', eng.paths)
        R.eval((plus, minus, miss, alpha))
        R.check(set(dist) <= set(exp) and all(
            abs(dist.get(k, 0) - exp[k]) < 1e-6 for k in exp),
            'IBP: number of new columns of an object with many features',
            ones=plus, zeros=minus, missing=miss, alpha=alpha, prior=q,
            got={str(k): v for k, v in dist.items()}, expected=exp)


def later(case, R):
    """settings are changed after inference has been called once"""
    new = PARMS[case['k']]
    old = PARMS[(case['k'] + 1) % len(PARMS)]
    i = 0
    for (N, L, D), which in itertools.product(
            ((1, 1, 1), (1, 0, 2), (2, 1, 1), (2, 2, 1)),
            ((0,), (1,), (2,), (0, 1, 2), ('data',), ())):
        m, d, layer = build(np.ones((N, D), dtype=np.int8), L, old[0])
        z, u = factors(layer)
        u.fixed = layer.lbda.fixed = True
        parm = list(old)

        def setting(p):
            layer.alpha, layer.lbda.val, u.bernoulli_prior = p

        def sweep():
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
        setting(parm)
        rng.Policy(.3).run(sweep)
        for k in which:
            if k == 0:
                parm[0] = layer.alpha = new[0]
            elif k == 1:
                parm[1] = layer.lbda.val = new[1]
            elif k == 2:
                parm[2] = u.bernoulli_prior = new[2]
            else:
                d.val = np.ones((N, D), dtype=np.int8)
        for Z in signs((N, L)) if L else [np.ones((N, 0), dtype=np.int8)]:
            for X in tris((N, D)):
                i += 1
                if i % case['step'] and N > 1:
                    continue
                U = np.where(np.arange(D * L).reshape(D, L) % 2 == i % 2, 1,
                             -1).astype(np.int8)
                if 'data' in which:
                    d.val = X.copy()
                else:
                    d.val[:] = X

                def go():
                    z.val, u.val = Z.copy(), U.copy()
                    z.fixed_entries = np.zeros(Z.shape, dtype=np.int8)
                    u.fixed_entries = np.zeros(U.shape, dtype=np.int8)
                    sweep()
                    a, b = z(), u()
                    return tuple(sorted(
                        (tuple(map(int, a[:, l])), tuple(map(int, b[:, l])))
                        for l in range(a.shape[1])))
                eng = rng.Dfs()
                dist = eng.distribution(go)
                alpha, lam, p_on = parm
                exp = ref_update(Z, U, X, lam, p_on, alpha)
                R.count('states')
                R.count('transitions', len(dist))
                R.count('traces_validated_against_impl', eng.paths)
                R.eval((i,) if X.any() else None)
                worst = max(set(dist) | set(exp), key=lambda k:
                            abs(dist.get(k, 0) - exp.get(k, 0)))
                R.check(abs(dist.get(worst, 0) - exp.get(worst, 0)) < 1e-6,
                        'IBP: an update after settings have changed does not'
                        ' follow the present ones', Z=Z, U=U, data=X,
                        alpha=alpha, lbda=lam, prior=p_on, changed=which,
                        result_columns=worst, got=dist.get(worst, 0),
                        expected=exp.get(worst, 0))
    R.sample(dict(Z=Z, U=U, data=X, changed=which, outcomes=len(dist)))


def second(case, R):
    """one feature; all states; columns added or removed before"""
    L, N = case['L'], case['N']
    m, d, layer = build(np.ones((N, 1), dtype=np.int8), L + 1, 2.)
    z, u = factors(layer)
    fct = update_fct(u)
    i = 0
    for Z in signs((N, L)):
        for X in tris((N, 1)):
            for row in signs((1, L)):
                for l in range(L):
                    if row[0, l] == 1:
                        continue
                    i += 1
                    lam, p = ((.8, .5), (.8, .5), (1.7, .3), (0., .8))[i % 4]
                    layer.lbda.val = num(lam)
                    z.val, d.val, u.val = relaid(Z), relaid(X), row.copy()
                    z.fixed_entries = np.zeros((N, L), dtype=np.int8)
                    u.fixed_entries = np.ones((1, L), dtype=np.int8)
                    u.fixed_entries[0, l] = 0
                    u.bernoulli_prior = p
                    rates = site_rates(R, u, fct, row, (0, l),
                                       'IBP second factor')
                    s = ref.score('OR-AND', [ref.tup(Z), ref.tup(row)], X, 1,
                                  0, l)
                    logit = lam * s + ref.logit(p)
                    R.eval((i,) if X.any() else None)
                    if rates is None:
                        return
                    R.check(balance_ok(rates, logit), 'IBP: second factor is'
                            ' not drawn from its conditional', Z=Z, U=row,
                            data=X, entry=l, lbda=lam, prior=p,
                            expected_log_odds=logit, **implied(rates))


def traces(case, R):
    n = case['n']
    N, D, L0 = 2, 2, 2
    sizes = (1, 2, 3, 12, 13, 25)
    for hist in itertools.product(sizes, repeat=n):
        for bmax, order in itertools.product((0, 2), ('zu', 'uz', 'mixed')):
            m, d, layer = build(np.ones((N, D), dtype=np.int8), L0, 2.)
            z, u = factors(layer)
            values, calls = [], []

            def fz(mat):
                k = len(calls)
                calls.append(k)
                # during burn-in: other sizes
                t = k - (bmax + 0)
                size = hist[t] if 0 <= t < n else 4
                i = np.arange(N * size).reshape(N, size)
                j = np.arange(D * size).reshape(D, size)
                z.val = np.where((i * 7 + k) % 3 == 0, 1, -1).astype(np.int8)
                u.val = np.where((j * 5 + k) % 2 == 0, 1, -1).astype(np.int8)

            def record(lbda):
                values.append((z().copy(), u().copy()))
                lbda.val = .5

            def fu(mat):
                u.val = u.val.copy()
                u.val[0, 0] *= -1
            z.sampling_fct, u.sampling_fct = fz, fu
            sweeps = []

            def perm(k):
                """either factor may be updated first"""
                sweeps.append(k)
                back = order == 'uz' or order == 'mixed' and len(sweeps) % 2
                return list(range(k))[::-1 if back else 1]
            layer.lbda.sampling_fct = record
            rng.Policy(.5, perm=perm).run(lambda: m.infer(
                no_samples=n, convergence_window=50, burn_in_min=0,
                burn_in_max=bmax))
            # the last n sweeps are the samples
            for k, f in enumerate((z, u)):
                tr = f.trace
                ok = R.check(tr.shape[0] == n and tr.shape[1] ==
                             f().shape[0] and tr.shape[2] >= max(
                                 v[k].shape[1] for v in values[-n:]),
                             'IBP: shape of the trace', history=hist,
                             shape=tr.shape)
                if not ok:
                    return
                for t in range(n):
                    v = values[-n:][t][k]
                    R.check(np.array_equal(tr[t][:, :v.shape[1]], v) and
                            np.all(tr[t][:, v.shape[1]:] == -1),
                            'IBP: trace is not the sample padded with'
                            ' inactive columns', history=hist, sample=t,
                            got=tr[t], expected=v)
            out = layer.output(technique='mc')
            exp = np.mean([[[1. if covers(a[i], b[j]) else 0.
                             for j in range(D)] for i in range(N)]
                           for a, b in values[-n:]], axis=0)
            R.check(np.allclose(out, exp), 'IBP: Monte Carlo output',
                    history=hist, got=out, expected=exp)
            R.check(layer.model == 'OR-AND-IBP', 'IBP: computing the output'
                    ' changes the model')
            R.eval((hist, bmax, order))
            R.count('states', n)
            R.count('transitions', n)
            R.count('traces_validated_against_impl')
    R.sample(dict(history=hist))


def live(case, R):
    tables = [lambda i: .001, lambda i: .999, lambda i: (i * .618) % 1,
              lambda i: (i * i * .37 + .2) % 1, lambda i: (.02, .98)[i % 2]]
    for (N, D), ti, alpha, xi in itertools.product(
            ((1, 1), (4, 3), (12, 9), (3, 30)), range(len(tables)),
            (None, .2, 8.), range(3)):
        i = np.arange(N * D).reshape(N, D)
        X = (np.where(i % 3 == 0, 1, -1), np.ones((N, D)),
             np.where(i % 5 == 0, 0, 1))[xi].astype(np.int8)
        m, d, layer = build(X, 3, alpha)
        rng.Policy(tables[ti]).run(lambda: m.infer(
            no_samples=3, convergence_window=2, burn_in_min=1,
            burn_in_max=4))
        z, u = factors(layer)
        R.check(z().shape[1] == u().shape[1] == layer.size and
                z().shape[0] == N and u().shape[0] == D,
                'IBP: shapes after inference', shapes=[z().shape, u().shape])
        R.check(np.isin(z(), PM).all() and np.isin(u(), PM).all() and
                z().dtype == np.int8 and u().dtype == np.int8,
                'IBP: entries other than +-1 after inference')
        R.check(all(np.shape(f.fixed_entries) == f().shape for f in (z, u)),
                'IBP: fixed entries after inference')
        R.check(np.array_equal(d(), X), 'IBP: data changed')
        for f in (z, u):
            R.check(f.trace.shape[0] == 3 and np.isin(f.trace, PM).all() and
                    np.array_equal(f.trace[-1][:, :f().shape[1]], f()) and
                    np.all(f.trace[-1][:, f().shape[1]:] == -1),
                    'IBP: last sample is not the final state')
        if N > 1:
            # columns without users do not survive, except for those whose
            # last user left them in the same sweep
            pass
        for tech in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            out = layer.output(technique=tech)
            R.check(out.shape == (N, D) and out.min() > -1e-9 and
                    out.max() < 1 + 1e-9, 'IBP: output', technique=tech)
        R.check(layer.alpha == (3 if alpha is None else alpha),
                'IBP: alpha', got=layer.alpha)
        R.eval((N, D, ti, str(alpha), xi))
        R.count('states')
