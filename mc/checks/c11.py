"""
C11: the MAX-AND output is the probability of a one: the largest lambda among
active dimensions (clamped lambda if none); for factor means its expectation.
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import PM, deviations, factors, machine, relaid, signs

ID = 'C11'
LEVEL = 'exploration'
RULE = ('one evaluation = one output cell; distinct = distinct (lambdas, rows'
        ' or probabilities of rows)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'the clamped lambda is the smallest one',
               'factor entries are independent (factor mean)']
BOUNDS = {'quick': 'all rows L <= 4, all orders of lambda with ties; means on'
                   ' {0,.3,1} and {1e-3,.98,..} L <= 3 (L=4: {.3,1}); rows of'
                   ' up to 300 dimensions with <= 2 deviations',
          'thorough': 'all rows L <= 5; means {0,.3,.8,1} L <= 3'}
VALS = (.95, .8, .55, .3, .2)


def lambdas(L):
    out = [list(p) + [.05] for p in itertools.permutations(VALS[:L])]
    if L > 1:
        out += [[.7] * L + [.05], [.7] * L + [.7],
                [.6] + [.9] * (L - 1) + [.6]]
    return out


def cases(tier):
    t = tier == 'thorough'
    out = []
    for L in range(1, 6 if t else 5):
        for lam in lambdas(L)[::1 if L < 4 else 3 if L == 4 else 17]:
            out.append(dict(kind='rows', L=L, lbda=lam))
    for L in (1, 2, 3, 4):
        for lam in lambdas(L)[::1 if L < 4 else 5]:
            v = [0., .3, 1.] if L < 4 else [.3, 1.]
            if t and L < 4:
                v = [0., .3, .8, 1.]
            out.append(dict(kind='mean', L=L, lbda=lam, values=v))
            if L < 4:
                # almost always on, almost never on
                out.append(dict(kind='mean', L=L, lbda=lam, values=[
                    1e-3, .98, 1 - 1e-4] if L == 3 else
                    [1e-6, .02, .97, .999, 1.]))
    out.append(dict(kind='traces'))
    out.append(dict(kind='tall'))
    for L in (31, 65, 127, 128, 129, 200, 257, 300):
        out.append(dict(kind='long', L=L))
    return out


def expected_max(pz, pu, lam):
    """E[lambda of a cell], dimensions are active with probability z*u"""
    L = len(pz)
    act = [a * b for a, b in zip(pz, pu)]
    order = sorted(range(L), key=lambda l: -lam[l])
    none, s = 1.0, 0.0
    for l in order:
        s += none * act[l] * lam[l]
        none *= 1 - act[l]
    return s + none * lam[-1]


def brute(pz, pu, lam):
    L = len(pz)
    s = 0.0
    for bits in itertools.product((0, 1), repeat=L):
        w = 1.0
        for b, x, y in zip(bits, pz, pu):
            w *= x * y if b else 1 - x * y
        s += w * max([lam[l] for l in range(L) if bits[l]] or [lam[-1]])
    return s


def compare(R, got, want, what, **detail):
    R.count('evaluations', want.size)
    if np.shape(got) != want.shape:
        R.violation(what + ': wrong shape', got=np.shape(got))
        return
    bad = np.argwhere(~(np.abs(got - want) < 1e-9))
    if len(bad):
        i = tuple(bad[0])
        R.violation(what, index=i, got=got[i], expected=want[i],
                    wrong_cells=len(bad), cells=want.size, **detail)


def run(case, R):
    if case['kind'] == 'tall':
        return tall(R)
    if case['kind'] == 'traces':
        return traces(R)
    if case['kind'] == 'long':
        return long_rows(case['L'], R)
    L, lam = case['L'], case['lbda']
    if case['kind'] == 'rows':
        rows = np.array(list(itertools.product(PM, repeat=L)), dtype=np.int8)
        m, data, layer = machine('MAX-AND', np.ones((len(rows),) * 2,
                                                    dtype=np.int8), L)
        layer.lbda.val = np.array(lam)
        layer.factors[0].val = relaid(rows)
        layer.factors[1].val = relaid(rows[::-1])
        a, b = ref.tup(rows), ref.tup(rows[::-1])
        want = np.array([[ref.max_prob(z, u, lam) for u in b] for z in a])
        import lom._numba.max_machine_sampler as sampler
        fwd = getattr(sampler, 'maxmachine_forward_pass', None)
        if fwd is not None:     # binary coding
            zu = (rows + 1) // 2, (rows[::-1] + 1) // 2
            compare(R, fwd(zu[1], zu[0], np.array(lam)), want,
                    'maxmachine_forward_pass', lbda=lam)
            compare(R, fwd(zu[1][::2], zu[0], np.array(lam)), want[:, ::2],
                    'maxmachine_forward_pass', lbda=lam)
        for tech in ('point_estimate', 'factor_map', 'mc', 'factor_mean'):
            for probs in (True, False):
                got = layer.output(technique=tech, map_to_probabilities=probs)
                compare(R, got, want if probs else 2 * want - 1,
                        'MAX-AND output is not the largest active lambda',
                        technique=tech, lbda=lam, map_to_probabilities=probs)
                R.distinct.add(hash((tech, tuple(lam), probs)))
        ok = layer.lbda.val.tolist() == lam and \
            np.array_equal(layer.factors[0].val, rows)
        R.check(ok, 'MAX-AND output changes lambda or factors')
        # shapes
        for N, D in ((1, 3), (4, 1), (2, 5)):
            layer.factors[0].val = rows[:N].copy()
            layer.factors[1].val = np.resize(rows[::-1], (D, L))
            layer.child.val = np.ones((N, D), dtype=np.int8)
            a, b = [ref.tup(f.val) for f in layer.factors]
            want = np.array([[ref.max_prob(z, u, lam) for u in b] for z in a])
            compare(R, layer.output(technique='point_estimate'), want,
                    'MAX-AND output is not the largest active lambda',
                    lbda=lam)
        R.sample(dict(lbda=lam, values=sorted(set(want.reshape(-1)))[:5]))
    else:
        rows = np.array(list(itertools.product(case['values'], repeat=L)))
        m, data, layer = machine('MAX-AND', np.ones((len(rows),) * 2,
                                                    dtype=np.int8), L)
        layer.lbda.val = np.array(lam)
        for f in layer.factors:
            f.val = 2 * rows - 1
        want = np.array([[expected_max(z, u, lam) for u in rows]
                         for z in rows])
        assert abs(want[-2, -2] - brute(rows[-2], rows[-2], lam)) < 1e-12
        compare(R, layer.output(technique='factor_mean'), want,
                'MAX-AND output of factor means is not the expected lambda',
                lbda=lam)
        R.distinct.add(hash(tuple(lam)))
        R.sample(dict(lbda=lam, cells=want.size, mean=float(want.mean())))


def long_rows(L, R):
    """many dimensions: none, one, two or all but a few are active"""
    places = sorted({0, 1, L // 2, L - 2, L - 1} |
                    {k for k in (126, 127, 128, 255, 256) if k < L})
    active = [()] + [(i,) for i in places] + \
        list(itertools.combinations(places, 2))
    active += [tuple(set(range(L)) - set(a)) for a in active]
    on = np.zeros((len(active), L))
    for row, a in zip(on, active):
        row[list(a)] = 1
    up = np.linspace(.1, .9, L)
    for lam in (up, up[::-1], np.roll(up, L // 3), np.full(L, .4),
                np.where(np.arange(L) % 2, .8, .6)):
        lam = lam.tolist() + [.05]
        m, data, layer = machine('MAX-AND', np.ones((len(on), 3),
                                                    dtype=np.int8), L)
        layer.lbda.val = np.array(lam)
        other = np.ones((3, L))
        other[1, ::2] = 0
        other[2, L // 3:] = 0
        layer.z.val = relaid(np.array(2 * on - 1, dtype=np.int8))
        layer.u.val = relaid(np.array(2 * other - 1, dtype=np.int8))
        want = np.array([[max([lam[l] for l in np.flatnonzero(z * u)] or
                              [lam[-1]]) for u in other] for z in on])
        for tech in ('point_estimate', 'factor_map', 'mc', 'factor_mean'):
            compare(R, layer.output(technique=tech), want,
                    'MAX-AND output is not the largest active lambda',
                    technique=tech, L=L)
        # means: active almost surely, almost never, or half of the time
        pz = np.where(on == 1, .97, .01)
        pz[::3] = np.where(on[::3] == 1, .5, 0.)
        layer.z.val = relaid(2 * pz - 1)
        layer.u.val = relaid(2. * other - 1)
        want = np.array([[expected_max(z, u, lam) for u in other]
                         for z in pz])
        compare(R, layer.output(technique='factor_mean'), want,
                'MAX-AND output of factor means is not the expected lambda',
                L=L)
        R.distinct.add(hash(tuple(lam)))


def tall(R):
    """many objects or features"""
    g = np.random.RandomState(4)
    for shape in ((1031, 2), (2, 1031), (301, 3), (1, 140)):
        m, data, layer = machine('MAX-AND', np.ones(shape, dtype=np.int8), 2)
        for lam in ([.9, .5, .1], [.4, .8, .2]):
            layer.lbda.val = np.array(lam)
            for f in layer.factors:
                f.val = relaid(np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                        dtype=np.int8))
            z, u = [ref.tup(f.val) for f in layer.factors]
            want = np.array([[ref.max_prob(a, b, lam) for b in u] for a in z])
            for tech in ('point_estimate', 'factor_map', 'mc', 'factor_mean'):
                compare(R, layer.output(technique=tech), want,
                        'MAX-AND output is not the largest active lambda',
                        technique=tech, shape=shape)
            pz, pu = [g.randint(0, 5, f.val.shape) / 4 for f in layer.factors]
            layer.z.val, layer.u.val = relaid(2 * pz - 1), relaid(2 * pu - 1)
            want = np.array([[expected_max(a, b, lam) for b in pu]
                             for a in pz])
            compare(R, layer.output(technique='factor_mean'), want,
                    'MAX-AND output of factor means is not the expected'
                    ' lambda', shape=shape)
            R.distinct.add(hash((shape, tuple(lam))))


def traces(R):
    """recorded samples of factors and lambdas"""
    L = 2
    lams = [[.9, .5, .1], [.4, .8, .2], [.6, .6, .3]]
    g = np.random.RandomState(3)
    for T in (1, 2, 3):
        for rep in range(60):
            m, data, layer = machine('MAX-AND', np.ones((2, 3), np.int8), L)
            for f in layer.factors:
                f.trace = np.array(2 * g.randint(0, 2, (T,) + f.val.shape) - 1,
                                   dtype=np.int8)
                f.val = f.trace[-1].copy()
            lt = [lams[(rep + t) % 3] for t in range(T)]
            layer.lbda.trace = np.array(lt)
            layer.lbda.val = np.array(lt[-1])
            z, u = [f.trace for f in layer.factors]
            mc = np.mean([[[ref.max_prob(tuple(zz), tuple(uu), lt[t])
                            for uu in u[t].tolist()] for zz in z[t].tolist()]
                          for t in range(T)], axis=0)
            compare(R, layer.output(technique='mc'), mc,
                    'MAX-AND mc output is not the average over the samples')
            pz, pu = [(f.trace.mean(0) + 1) / 2 for f in layer.factors]
            lm = np.mean(lt, axis=0)
            want = np.array([[brute(a, b, lm) for b in pu] for a in pz])
            compare(R, layer.output(technique='factor_mean'), want,
                    'MAX-AND output of factor means is not the expected '
                    'lambda', lbda=lm)
            if T != 2:
                maps = [np.where(f.trace.mean(0) > 0, 1, -1)
                        for f in layer.factors]
                want = np.array([[ref.max_prob(tuple(a), tuple(b), lt[-1])
                                  for b in maps[1].tolist()]
                                 for a in maps[0].tolist()])
                compare(R, layer.output(technique='factor_map'), want,
                        'MAX-AND output of the factor MAP', lbda=lt[-1])
            R.distinct.add(hash((T, rep)))
    # many samples: means close to certainty, but not certain
    for T in (20, 50, 101, 200):
        for rep in range(12):
            m, data, layer = machine('MAX-AND', np.ones((2, 3), np.int8), L)
            for f in layer.factors:
                t = np.ones((T,) + f.val.shape, dtype=np.int8)
                few = g.randint(0, 4, f.val.shape)
                for i in np.ndindex(*f.val.shape):
                    t[:few[i], i[0], i[1]] = -1
                f.trace = t if rep % 3 else -t
                f.val = f.trace[-1].copy()
            lt = [lams[(rep + t) % 3] for t in range(T)]
            layer.lbda.trace = np.array(lt)
            layer.lbda.val = np.array(lt[-1])
            pz, pu = [(f.trace.mean(0) + 1) / 2 for f in layer.factors]
            lm = np.mean(lt, axis=0)
            want = np.array([[brute(a, b, lm) for b in pu] for a in pz])
            compare(R, layer.output(technique='factor_mean'), want,
                    'MAX-AND output of factor means is not the expected '
                    'lambda', lbda=lm)
            R.distinct.add(hash(('long', T, rep)))
