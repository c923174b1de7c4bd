"""
C21: qL-AND.  A cell is predicted one iff at least q_d dimensions are active
in both factors.

 site   - transition of every entry of both factors against the conditional
 q      - exact distribution of the thresholds after one update
 output - all rows and thresholds
 sweep  - one call of infer leaves the exact joint posterior invariant
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import (num, PM, balance_ok, chunks, deviations, factors, frozen,
                       implied, lom, machine, relaid, signs, site_rates,
                       snapshot, state_dist, tris, update_fct)

ID = 'C21'
LEVEL = 'model_checking'
RULE = ('one evaluation = exact transition of one factor entry or of the'
        ' thresholds by the real sampler, or one output row; non-trivial ='
        ' distinct (factors, thresholds, data, site, lambda, prior) with an'
        ' observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'random numbers are ideal',
               'thresholds are limited to 1..5 as in the code']
BOUNDS = {'quick': 'factors: L<=4, D<=2, thresholds 1..5, all rows and data;'
                   ' thresholds: N,D<=2, L<=3, all states and data; large'
                   ' N up to 900; output L<=5',
          'thorough': 'factors L<=5, D<=3 (L*D<=8); thresholds N<=3'}
PARMS = ((.7, .5), (1.3, .2), (0., .7), (40., .5), (.4, .97), (.9, .0005),
         (.2, .9998), (-.8, .4))


def cases(tier):
    t = tier == 'thorough'
    out = []
    for axis in (0, 1):
        for L, D in [(1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2)] + (
                [(3, 2), (5, 1), (2, 3)] if t else []):
            for q in range(1, 6):
                out.append(dict(kind='site', axis=axis, L=L, D=D, q=q))
        if not t:
            for q in (1, 2, 3):
                out.append(dict(kind='site', axis=axis, L=3, D=2, q=q,
                                step=5))
        out.append(dict(kind='largesite', axis=axis))
        out.append(dict(kind='many', axis=axis))
        out.append(dict(kind='rows', axis=axis))
        out.append(dict(kind='tall', axis=axis))
    for N, D, L in [(1, 1, 1), (1, 1, 3), (2, 1, 2), (1, 2, 1), (2, 2, 1)] + (
            [(1, 2, 2), (3, 1, 2)] if t else []):
        for parm in ((.7, 1.), (2., .4), (0., 3.), (750., .9)):
            out.append(dict(kind='q', N=N, D=D, L=L, parm=parm))
    out.append(dict(kind='largeq'))
    for L in range(1, 6 if t else 5):
        out.append(dict(kind='output', L=L))
    out.append(dict(kind='sweep', N=1, D=1, L=2))
    out.append(dict(kind='sweep', N=2, D=1, L=1))
    if t:
        out.append(dict(kind='sweep', N=1, D=2, L=1))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def f(z, u, q):
    return 1 if sum(a == 1 and b == 1 for a, b in zip(z, u)) >= q else -1


def build(X, L):
    m, d, layer = machine('qL-AND', X, L)
    for x in factors(layer):
        x.fixed = True
    layer.q.fixed = True
    return m, d, layer


def entry(R, layer, mat, fct, row, other, X_row, qs, l, parm, what, key):
    """transition of entry l of the only row"""
    lam, prior = parm
    layer.lbda.val = num(lam)
    mat.bernoulli_prior = num(prior)
    frozen(mat)
    mat.fixed_entries[0, l] = 0
    start = np.array([row], dtype=np.int8)
    rates = site_rates(R, mat, fct, start, (0, l), what)
    R.eval(key)
    if rates is None:
        return
    on, off = list(row), list(row)
    on[l], off[l] = 1, -1
    s = sum(int(x) * (f(on, o, q) - f(off, o, q)) // 2
            for x, o, q in zip(X_row, other, qs))
    logit = lam * s + ref.logit(prior)
    R.check(balance_ok(rates, logit), what + ': update is not a draw from the'
            ' conditional', row=row, other=[list(map(int, o)) for o in other],
            data=X_row, thresholds=qs, entry=l, lbda=lam, prior=prior,
            expected_log_odds=logit, **implied(rates))


def site(case, R):
    """axis 0: one object, D features with thresholds; axis 1: one feature"""
    axis, L, D, q = case['axis'], case['L'], case['D'], case['q']
    shape = (1, D) if axis == 0 else (D, 1)
    m, d, layer = build(np.ones(shape, dtype=np.int8), L)
    mat, sib = factors(layer)[axis], factors(layer)[1 - axis]
    fct = update_fct(mat)
    qvecs = ([q] if axis == 1 else
             [[q] + list(r) for r in itertools.product((1, 2, 3),
                                                       repeat=D - 1)])
    i = 0
    for qs in qvecs:
        layer.q.val[0, :] = qs
        qrow = qs if axis == 0 else [q] * D
        for other in signs((D, L)):
            sib.val = relaid(other)
            for X in tris(shape):
                d.val = relaid(X)
                for row in itertools.product(PM, repeat=L):
                    for l in range(L):
                        if row[l] == 1:
                            continue
                        i += 1
                        if i % case.get('step', 1):
                            continue
                        parm = PARMS[i % len(PARMS)] if i % 3 else PARMS[0]
                        keep = snapshot(sib.val, d.val, layer.q.val)
                        entry(R, layer, mat, fct, row, other, X.ravel(), qrow,
                              l, parm, 'qL-AND factor %d' % axis,
                              i if X.any() else None)
                        if snapshot(sib.val, d.val, layer.q.val) != keep:
                            R.violation('qL-AND: update changes data,'
                                        ' thresholds or the other factor')
    R.sample(dict(other=other, data=X, thresholds=qs, row=row))


def rows(case, R):
    """several rows: every one has its own data and threshold; only free
    entries change"""
    axis = case['axis']
    N, L = 2, 2
    D = 1
    shape = (N, D) if axis == 0 else (D, N)
    m, d, layer = build(np.ones(shape, dtype=np.int8), L)
    mat, sib = factors(layer)[axis], factors(layer)[1 - axis]
    fct = update_fct(mat)
    lam = .8
    layer.lbda.val = num(lam)
    mat.fixed_entries[:] = 0
    i = 0
    qvecs = [[1], [2]] if axis == 0 else \
        list(itertools.product((1, 2), repeat=2))
    for qs, other, X in itertools.product(qvecs, signs((D, L)), tris(shape)):
        layer.q.val[0, :] = qs
        sib.val = relaid(other)
        d.val = relaid(X)
        i += 1
        if i % 3:
            continue
        starts = list(signs((N, L)))

        def weight(M):
            w = 0.
            for n in range(N):
                q = qs[0] if axis == 0 else qs[n]
                for dd in range(D):
                    x = X[n, dd] if axis == 0 else X[dd, n]
                    w += lam * int(x) * f(M[n], other[dd], q) / 2
            return math.exp(w)
        pi = {s.tobytes(): weight(s) for s in starts}
        tot = sum(pi.values())
        new = dict.fromkeys(pi, 0.)
        paths = 0
        for s in starts:
            dist, eng = state_dist(mat, fct, s)
            paths += eng.paths
            for k, p in dist.items():
                new[k] = new.get(k, 0) + pi[s.tobytes()] / tot * p
        worst = max(new, key=lambda k: abs(new[k] - pi.get(k, 0) / tot))
        R.check(abs(new[worst] - pi.get(worst, 0) / tot) < 1e-9,
                'qL-AND: update of a factor with several rows does not leave'
                ' the posterior invariant', axis=axis, thresholds=qs,
                other=other, data=X, state=np.frombuffer(worst, np.int8),
                expected=pi.get(worst, 0) / tot, got=new[worst])
        R.eval((i,))
        R.count('states', len(starts))
        R.count('traces_validated_against_impl', paths)


def tall(case, R):
    """one free entry, or one free threshold, anywhere among many"""
    axis, L = case['axis'], 2
    g = np.random.RandomState(9)
    for N, D in ((1031, 2), (300, 1), (70, 1)):
        shape = (N, D) if axis == 0 else (D, N)
        m, d, layer = build(np.ones(shape, dtype=np.int8), L)
        mat, sib = factors(layer)[axis], factors(layer)[1 - axis]
        fct = update_fct(mat)
        for rep in range(3):
            X = np.array(2 * g.randint(0, 2, (N, D)) - 1, dtype=np.int8)
            own = np.array(2 * g.randint(0, 2, (N, L)) - 1, dtype=np.int8)
            other = np.array(2 * g.randint(0, 2, (D, L)) - 1, dtype=np.int8)
            qs = g.randint(1, 3, shape[1])
            sib.val, d.val = relaid(other), relaid(X if axis == 0 else X.T)
            layer.q.val[0, :] = qs
            layer.lbda.val, mat.bernoulli_prior = num(.8), num(.4)
            for n in sorted({0, 41, 61, N // 2, N - 1}):
                qrow = qs if axis == 0 else [qs[n]] * D
                for l in range(L):
                    frozen(mat)
                    mat.fixed_entries[n, l] = 0
                    rates = site_rates(R, mat, fct, own, (n, l),
                                       'qL-AND factor (many rows)')
                    R.eval((N, D, rep, n, l))
                    if rates is None:
                        continue
                    s = 0
                    for x, o, q in zip(X[n], other, qrow):
                        on, off = own[n].copy(), own[n].copy()
                        on[l], off[l] = 1, -1
                        s += int(x) * (f(on, o, q) - f(off, o, q)) // 2
                    logit = .8 * s + ref.logit(.4)
                    R.check(balance_ok(rates, logit), 'qL-AND factor (many'
                            ' rows): update is not a draw from the'
                            ' conditional', axis=axis, rows=N, entry=(n, l),
                            expected_log_odds=logit, **implied(rates))
            # the output, and the thresholds of as many features
            mat.val = relaid(own)
            Z, U = (own, other) if axis == 0 else (other, own)
            want = np.array([[f(z, u, q) for u, q in zip(U, qs)] for z in Z])
            got = np.asarray(layer.output(technique='point_estimate'))
            R.check(np.array_equal(2 * got - 1, want), 'qL-AND output of many'
                    ' rows or columns', shape=shape)
            if axis == 1:
                many_q(R, layer, Z, U, layer.child.val, .8, 1.2)


def many_q(R, layer, Z, U, X, lam, gamma):
    """every threshold follows its random number: the same for all features
    gives the quantile of every feature's own distribution"""
    layer.lbda.val, layer.gamma = num(lam), num(gamma)
    layer.q.fixed = False
    fct = update_fct(layer.q)
    exp = np.array([q_probs(Z, U[k], X[:, k], lam, gamma)
                    for k in range(len(U))])
    kinds = {}
    for u in (.03, .31, .52, .77, .96):
        layer.q.val[:] = 3
        rng.Policy(u).run(lambda: fct(layer.q))
        for k in range(len(U)):
            kinds.setdefault(exp[k].round(9).tobytes(), {}).setdefault(
                u, {}).setdefault(int(layer.q.val[0, k]), []).append(k)
    for v in kinds.values():
        for u, by in v.items():
            R.check(len(by) == 1, 'thresholds of features with the same data'
                    ' and factors do not follow their random number alike',
                    random=u, features={a: b[:3] for a, b in by.items()})
    R.eval((len(U), lam))
    layer.q.fixed = True


def largesite(case, R):
    axis = case['axis']
    for D, L, q in [(300, 3, 1), (300, 3, 2), (150, 6, 3), (40, 12, 5),
                    (300, 7, 5)]:
        shape = (1, D) if axis == 0 else (D, 1)
        m, d, layer = build(np.ones(shape, dtype=np.int8), L)
        mat, sib = factors(layer)[axis], factors(layer)[1 - axis]
        fct = update_fct(mat)
        layer.q.val[:] = q
        for base, xb in itertools.product(PM, PM):
            other = np.full((D, L), base, dtype=np.int8)
            other[::3, 0] = -base
            other[1::5, L - 1] = -base
            X = np.full(shape, xb, dtype=np.int8)
            X.ravel()[::7] = -xb
            X.ravel()[3::11] = 0
            sib.val, d.val = other, X
            for row in deviations((L,), 1, PM, 1):
                for l in (0, L - 1):
                    entry(R, layer, mat, fct, list(row), other, X.ravel(),
                          [q] * D, l, (.01, .5), 'qL-AND factor (large)',
                          (D, L, q, base, xb, row.tobytes(), l))


def q_probs(Z, U_d, X_d, lam, gamma):
    logp = []
    for q in range(1, 6):
        s = q * math.log(gamma) - gamma - math.lgamma(q + 1)
        for z, x in zip(Z, X_d):
            if x:
                s -= float(np.logaddexp(0, -lam * int(x) * f(z, U_d, q)))
        logp.append(s)
    mx = max(logp)
    w = [math.exp(v - mx) for v in logp]
    return [v / sum(w) for v in w]


def q_check(R, layer, fct, Z, U, X, lam, gamma, what, key):
    D = len(U)
    layer.lbda.val, layer.gamma = num(lam), num(gamma)
    exp = [q_probs(Z, U[k], X[:, k], lam, gamma) for k in range(D)]
    before = snapshot(Z, U, X)
    q = layer.q
    old = (layer.q.val.copy() * 0 + 3).astype(np.int8)
    dist, eng = state_dist(q, fct, old)
    R.count('traces_validated_against_impl', eng.paths)
    R.count('transitions', len(dist))
    R.count('states')
    R.eval(key)
    got = {}
    for k, p in dist.items():
        if p > 1e-9:
            v = tuple(np.frombuffer(k, dtype=np.int8).tolist())
            got[v] = got.get(v, 0) + p
    for v in itertools.product(range(1, 6), repeat=D):
        e = 1.
        for k in range(D):
            e *= exp[k][v[k] - 1]
        if not R.check(abs(e - got.pop(v, 0.)) < 1e-7,
                       what + ': wrong probability', thresholds=v, Z=Z, U=U,
                       data=X, lbda=lam, gamma=gamma, expected=e,
                       got=dist.get(np.array(v, dtype=np.int8).tobytes(), 0)):
            return
    R.check(not got, what + ': thresholds outside of 1..5', values=got)
    R.check(snapshot(layer.z(), layer.u(), layer.child()) == before,
            what + ': update changes factors or data')


def q(case, R):
    N, D, L = case['N'], case['D'], case['L']
    m, d, layer = build(np.ones((N, D), dtype=np.int8), L)
    layer.q.fixed = False
    fct = update_fct(layer.q)
    lam, gamma = case['parm']
    i = 0
    for Z in signs((N, L)):
        for U in signs((D, L)):
            for X in tris((N, D)):
                i += 1
                if D > 1 and N > 1 and i % 4:
                    continue
                layer.z.val, layer.u.val = relaid(Z), relaid(U)
                d.val = relaid(X)
                q_check(R, layer, fct, Z, U, X, lam, gamma, 'thresholds',
                        i if X.any() else None)
    R.sample(dict(Z=Z, U=U, data=X, lbda=lam, gamma=gamma))



def many(case, R):
    """more dimensions than a narrow integer can number"""
    axis = case['axis']
    for L in (127, 128, 130, 258):
        D = 2
        shape = (1, D) if axis == 0 else (D, 1)
        m, d, layer = build(np.ones(shape, dtype=np.int8), L)
        mat, sib = factors(layer)[axis], factors(layer)[1 - axis]
        fct = update_fct(mat)
        X = np.array([1, -1], dtype=np.int8).reshape(shape)
        d.val = relaid(X)
        for q, on in itertools.product((1, 2, 5), (0, 1, 2, 4, 5, L)):
            layer.q.val[:] = q
            other = np.ones((D, L), dtype=np.int8)
            other[1, L - 1] = -1
            sib.val = other
            row = np.full(L, -1, dtype=np.int8)
            row[L - on:] = 1
            for l in (0, 126, L - 1):
                entry(R, layer, mat, fct, list(row), other, X.ravel(), [q] * D,
                      l, (.7, .5), 'qL-AND factor (large)', ('many', L, q, on,
                                                            l))


def largeq(case, R):
    for N, D, L in [(300, 1, 6), (900, 2, 5), (200, 2, 7), (60, 2, 130),
                    (30, 1, 300), (30, 1, 259), (20, 2, 131), (40000, 1, 2)]:
        m, d, layer = build(np.ones((N, D), dtype=np.int8), L)
        layer.q.fixed = False
        fct = update_fct(layer.q)
        for base, xb, gamma, lam in itertools.product(
                PM, PM, (.01, 1., 4., 800.), (.005, 3.)):
            Z = np.full((N, L), base, dtype=np.int8)
            Z[::2, 0] = -base
            Z[::3, 1:3] = -base
            U = np.ones((D, L), dtype=np.int8)
            X = np.full((N, D), xb, dtype=np.int8)
            X[::5, 0] = -xb
            X[::4, D - 1] = 0
            layer.z.val, layer.u.val = relaid(Z), relaid(U)
            d.val = relaid(X)
            q_check(R, layer, fct, Z, U, X, lam, gamma, 'thresholds (large)',
                    (N, D, L, base, xb, gamma, lam))


def output(case, R):
    L = case['L']
    if L == 1:
        # many dimensions
        for n in (127, 128, 130, 258, 300):
            m, d, layer = machine('qL-AND', np.ones((4, 5), np.int8), n)
            layer.z.val[:] = 1
            layer.z.val[1, 4:] = -1
            layer.z.val[2, :-3] = -1
            layer.z.val[3] = -1
            layer.u.val[:] = 1
            layer.q.val[0, :] = [1, 2, 3, 4, 5]
            exp = [[1] * 5, [1] * 4 + [-1], [1] * 3 + [-1] * 2, [-1] * 5]
            out = layer.output(technique='point_estimate')
            R.check(np.array_equal(2 * out - 1, exp), 'qL-AND output',
                    L=n, got=out, expected=exp)
            R.eval(('many', n))
    rows = np.array(list(itertools.product(PM, repeat=L)), dtype=np.int8)
    D = len(rows)
    m, d, layer = machine('qL-AND', np.ones((D, D), dtype=np.int8), L)
    layer.z.val, layer.u.val = rows.copy(), rows.copy()
    for qv in itertools.chain([[k] * D for k in range(1, 7)],
                              [[1 + (i + s) % 5 for i in range(D)]
                               for s in range(5)]):
        layer.q.val[0, :] = qv
        exp = np.array([[f(z, u, qv[k]) for k, u in enumerate(rows)]
                        for z in rows])
        for tech in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            out = layer.output(technique=tech)
            R.check(np.array_equal(out, (1 + exp) / 2),
                    'qL-AND output', technique=tech, thresholds=qv, got=out)
            two = layer.output(technique=tech, map_to_probabilities=False)
            R.check(np.array_equal(two, exp), 'qL-AND output in +-1',
                    technique=tech, thresholds=qv)
        for lam in (.3, 2.):
            layer.lbda.val = num(lam)
            out = layer.output(noisy_emission=True)
            R.check(np.allclose(out, [[ref.sigmoid(lam * v) for v in r]
                                      for r in exp]),
                    'qL-AND output with noise', thresholds=qv)
        R.eval(tuple(qv), k=D * D)


def sweep(case, R):
    """one sweep of the machine (in all orders of the matrices) leaves the
    joint posterior of factors and thresholds invariant"""
    N, D, L = case['N'], case['D'], case['L']
    lam, gamma, prior = .9, 1.5, (.3, .6)
    for X in tris((N, D)):
        if not X.any():
            continue
        states = [(z, u, qq) for z in signs((N, L)) for u in signs((D, L))
                  for qq in itertools.product((1, 2, 3, 4, 5), repeat=D)]

        def key(z, u, qq):
            return z.tobytes() + u.tobytes() + bytes(qq)
        pi = {}
        for z, u, qq in states:
            s = 0.
            for n in range(N):
                for k in range(D):
                    if X[n, k]:
                        s += math.log(ref.sigmoid(
                            lam * int(X[n, k]) * f(z[n], u[k], qq[k])))
            for mt, p in ((z, prior[0]), (u, prior[1])):
                s += sum(math.log(p if v == 1 else 1 - p)
                         for v in mt.ravel())
            s += sum(v * math.log(gamma) - math.lgamma(v + 1) for v in qq)
            pi[key(z, u, qq)] = math.exp(s)
        tot = sum(pi.values())
        new = {}
        m, d, layer = machine('qL-AND', X, L)
        layer.gamma = gamma
        for z, u, qq in states:
            def go():
                layer.z.val, layer.u.val = z.copy(), u.copy()
                layer.q.val = np.array([qq], dtype=np.int8)
                layer.z.bernoulli_prior, layer.u.bernoulli_prior = prior
                layer.lbda.val, layer.lbda.fixed = lam, True
                m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
                return key(layer.z(), layer.u(), layer.q()[0].tolist())
            eng = rng.Dfs(400000)
            for k, p in eng.distribution(go).items():
                new[k] = new.get(k, 0) + pi[key(z, u, qq)] / tot * p
            R.count('traces_validated_against_impl', eng.paths)
            R.count('states')
        worst = max(set(new) | set(pi),
                    key=lambda k: abs(new.get(k, 0) - pi.get(k, 0) / tot))
        R.check(abs(new.get(worst, 0) - pi.get(worst, 0) / tot) < 1e-7,
                'qL-AND: one sweep does not leave the posterior invariant',
                data=X, state=list(worst), got=new.get(worst, 0),
                expected=pi.get(worst, 0) / tot)
        R.eval((X.tobytes(),))
