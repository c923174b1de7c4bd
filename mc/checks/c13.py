"""
C13: posterior summaries and outputs refer to exactly the recorded samples.
Scripted update functions make inference record every possible history of a
small machine; means, MAP and all output techniques are compared with the
samples that were recorded.
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import PM, aux, factors, lom, machine, relaid, signs

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('one evaluation = one history of samples, all summaries compared;'
        ' non-trivial = distinct (model, fixed members, history)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'posterior means of exactly 0 may be mapped to either value']
BOUNDS = {'quick': 'all histories of 1, 2 or 3 samples with up to 12 binary'
                   ' entries in total, K = 2, 3; subsets of fixed members;'
                   ' histories of 200, 300 and 33000 samples in which'
                   ' every factor changes at most once',
          'thorough': 'up to 14 binary entries, 4 samples'}
LAMS = (.3, 1.1, 2.4, .9)
LONG = (200, 300)


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.MODELS:
        for K, T, shape, L in [(2, 1, (2, 2), 2), (2, 2, (1, 2), 2),
                               (2, 3, (1, 2), 1), (2, 3, (1, 1), 2),
                               (2, 1, (1, 1), 3), (3, 2, (1, 1, 1), 2),
                               (3, 3, (1, 1, 2), 1), (3, 1, (2, 1, 1), 2)] + (
                [(2, 4, (1, 2), 1), (2, 2, (1, 2), 2), (3, 4, (1, 1, 1), 1)]
                if t else []):
            for fixed in [()] + [(0,), (K - 1,), ('l',), (0, 'l')]:
                out.append(dict(kind='history', model=model, T=T, shape=shape,
                                L=L, fixed=fixed))
        out.append(dict(kind='state', model=model))
    out.append(dict(kind='again'))
    for model in ref.MODELS + ('MAX-AND',):
        for K in (2, 3):
            if (model, K) != ('MAX-AND', 3):
                for T in LONG + ((517, 1030) if t else ()):
                    out.append(dict(kind='long', model=model, K=K, T=T,
                                    steps=[0, 1, 128, T - 1]))
    for model, K in (('OR-AND', 2), ('XOR-NAND', 3), ('MAX-AND', 2)):
        out.append(dict(kind='long', model=model, K=K, T=33000, steps=[0]))
    return out


class Script:
    def __init__(self, m, layer, fixed):
        self.m, self.layer = m, layer
        self.free = []
        for i, f in enumerate(layer.factors):
            f.fixed = i in fixed
            if not f.fixed:
                self.free.append(f)
                f.sampling_fct = self.step
        self.lam_free = 'l' not in fixed
        layer.lbda.fixed = not self.lam_free
        layer.lbda.sampling_fct = self.lam_step

    def step(self, mat):
        mat.val[:] = self.history[id(mat)][self.t[id(mat)]]
        self.t[id(mat)] += 1

    def lam_step(self, lam):
        v = LAMS[self.t['l'] % len(LAMS)]
        lam.val = np.array([v / 3, v / 9]) if lam.layer.model == 'MAX-AND' \
            else v
        self.t['l'] += 1

    def play(self, history, T):
        self.history = {id(f): h for f, h in zip(self.free, history)}
        self.t = {id(f): 0 for f in self.free}
        self.t['l'] = 0
        rng.Policy(.5).run(lambda: self.m.infer(
            no_samples=T, burn_in_min=0, burn_in_max=0))


def f_table(model, mats):
    out = np.empty([len(x) for x in mats])
    for i in np.ndindex(*out.shape):
        out[i] = ref.f(model, ref.rows_of(mats, i))
    return out


def p_table(model, mats):
    out = np.empty([len(x) for x in mats])
    for i in np.ndindex(*out.shape):
        out[i] = ref.f_prob(model, ref.rows_of(mats, i))
    return out


def compare(R, got, want, what, tol=1e-9, **detail):
    got = np.asarray(got)
    if got.shape != want.shape or not np.all(np.abs(got - want) <= tol):
        R.violation(what, got=got, expected=want, **detail)


def summaries(R, model, layer, samples, lams, detail):
    """samples: per factor list of arrays, lams: list"""
    T = max(len(s) for s in samples)
    means = [np.mean(s, axis=0) for s in samples]
    for f, mu in zip(layer.factors, means):
        compare(R, f.mean(), mu, 'factor mean is not the average of the '
                'recorded samples', **detail)
    pm = np.mean(lams)
    compare(R, layer.lbda.mean(), np.float64(pm), 'mean of lambda is not the '
            'average of the recorded values', tol=1e-6, **detail)
    now = f_table(model, [ref.tup(f.val) for f in layer.factors])
    mc = sum(f_table(model, [ref.tup(s[min(t, len(s) - 1)]) for s in samples])
             for t in range(T)) / T
    fm = p_table(model, [tuple(tuple((1 + float(v)) / 2 for v in r)
                               for r in mu) for mu in means])
    want = dict(point_estimate=(now + 1) / 2, mc=(mc + 1) / 2, factor_mean=fm,
                factor_mean_old=fm)
    maps = [np.where(mu > 0, 1, np.where(mu < 0, -1, 0)) for mu in means]
    ties = [(k, i) for k, mu in enumerate(maps) for i in np.ndindex(*mu.shape)
            if mu[i] == 0]
    if not ties:
        want['factor_map'] = (f_table(model, [ref.tup(x) for x in maps]) +
                              1) / 2
    elif len(ties) <= 6:
        # entries that are on and off equally often: of either value, but of
        # the same one for all of the output
        possible = []
        for vals in itertools.product((-1, 1), repeat=len(ties)):
            for (k, i), v in zip(ties, vals):
                maps[k][i] = v
            possible.append((f_table(model, [ref.tup(x) for x in maps]) + 1)
                            / 2)
        got = np.asarray(layer.output(technique='factor_map'))
        if not any(got.shape == w.shape and np.allclose(got, w)
                   for w in possible):
            R.violation('output (factor_map) is not that of a MAP estimate',
                        got=got, means=means, **detail)
    e = ref.sigmoid(pm)
    for tech, w in want.items():
        compare(R, layer.output(technique=tech), w,
                'output (%s) does not follow from the samples' % tech,
                **detail)
        compare(R, layer.output(technique=tech, noisy_emission=True),
                w * e + (1 - w) * (1 - e), 'output (%s) with noisy emission '
                'does not follow from the samples' % tech, tol=1e-6, **detail)
        compare(R, layer.output(technique=tech, map_to_probabilities=False),
                2 * w - 1, 'output (%s) in [-1,1] does not follow from the '
                'samples' % tech, **detail)
    last = layer.output(technique='mc')
    compare(R, layer.output(technique='point_estimate', lazy=True), last,
            'lazy output is not the previous one', **detail)
    fresh = layer.output(technique='point_estimate', lazy=False)
    compare(R, fresh, want['point_estimate'], 'output that is not lazy is not '
            'computed', **detail)
    return means


def run(case, R):
    if case['kind'] == 'state':
        return state(case, R)
    if case['kind'] == 'again':
        return again(R)
    if case['kind'] == 'long':
        return long(case, R)
    model, T, L = case['model'], case['T'], case['L']
    shape = tuple(case['shape'])
    fixed = tuple(case['fixed'])
    m, data, layer = machine(model, np.ones(shape, dtype=np.int8), L)
    S = Script(m, layer, fixed)
    sizes = [f.val.size for f in S.free]
    g = np.random.RandomState(5)
    step = 7 if T * sum(sizes) > 10 else 1
    if T * sum(sizes) > 10 and len(fixed):
        return
    for j, flat in enumerate(signs((T * sum(sizes),))):
        if step > 1 and j % step and len(shape) == 3:
            continue
        at = 0
        hist = []
        for f in S.free:
            k = f.val.size
            hist.append([x.reshape(f.val.shape).copy() for x in
                         np.split(flat[at:at + T * k], T)])
            at += T * k
        for f in layer.factors:
            if f.fixed:
                f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                 dtype=np.int8)
        lam = (.7, -1.1)[j // step % 2]
        layer.lbda.val = lam
        S.play(hist, T)
        it = iter(hist)
        samples = [[f.val.copy()] if f.fixed else next(it)
                   for f in layer.factors]
        lams = list(LAMS[:T]) if S.lam_free else [lam]
        R.count('states', T)
        R.count('transitions', T * len(S.free))
        R.count('traces_validated_against_impl')
        R.eval((fixed, flat.tobytes()))
        detail = dict(model=model, samples=samples, fixed=fixed)
        means = summaries(R, model, layer, samples, lams, detail)
        R.sample(dict(model=model, samples=samples, fixed=fixed))
        # MAP estimate
        for f, mu in zip(layer.factors, means):
            f.set_to_map()
            ok = f.val.dtype == np.int8 and f.val.shape == mu.shape and \
                np.all((f.val == np.where(mu > 0, 1, -1)) | (mu == 0)) and \
                set(np.unique(f.val)) <= {-1, 1}
            if not ok:
                R.violation('MAP estimate is not the sign of the mean',
                            mean=mu, got=f.val, **detail)


def long(case, R):
    """
    long histories: every factor is constant up to some sample and constant
    from there on
    """
    model, K, T = case['model'], case['K'], case['T']
    m, data, layer = machine(model, np.ones((1,) * K, dtype=np.int8), 1)
    S = Script(m, layer, ())
    kinds = list(itertools.product(PM, repeat=2)) if T < 1000 else \
        [(1, 1), (-1, -1)]
    for k in case['steps']:
        for vals in itertools.product(kinds, repeat=2):
            vals = vals + vals[:K - 2]
            if T > 1000 and vals[0] != vals[1]:
                continue
            hist = [[np.full((1, 1), a if t < k else b, dtype=np.int8)
                     for t in range(T)] for a, b in vals]
            S.play(hist, T)
            lams = [LAMS[t % len(LAMS)] for t in range(T)]
            R.count('states', T)
            R.count('transitions', T * K)
            R.count('traces_validated_against_impl')
            R.eval((model, K, T, k, vals))
            detail = dict(model=model, samples='%d samples, factors change '
                          'from/to %r at sample %d' % (T, vals, k))
            if model != 'MAX-AND':
                summaries(R, model, layer, hist, lams, detail)
                continue
            p = [(1 + np.mean([h[0, 0] for h in x])) / 2 for x in hist]
            for f, q in zip(layer.factors, p):
                compare(R, f.mean(), np.full((1, 1), 2 * q - 1), 'factor mean '
                        'is not the average of the recorded samples', **detail)
            mu = np.mean(lams) * np.array([1 / 3, 1 / 9])
            compare(R, layer.lbda.mean(), mu, 'mean of lambda is not the '
                    'average of the recorded values', tol=1e-6, **detail)
            on = [a[0, 0] == 1 and b[0, 0] == 1 for a, b in zip(*hist)]
            mc = np.mean([v / 3 if x else v / 9 for v, x in zip(lams, on)])
            for tech, w in (('mc', mc), ('factor_mean', p[0] * p[1] * mu[0] +
                                         (1 - p[0] * p[1]) * mu[1])):
                compare(R, layer.output(technique=tech), np.full((1, 1), w),
                        'output (%s) does not follow from the samples' % tech,
                        tol=1e-6, **detail)


def state(case, R):
    """without inference: everything refers to the current state"""
    model = case['model']
    for shape, L in (((2, 2), 2), ((1, 2, 1), 2)):
        m, data, layer = machine(model, np.ones(shape, dtype=np.int8), L)
        for flat in signs((sum(shape) * L,)):
            at = 0
            for f in layer.factors:
                k = f.val.size
                f.val = relaid(flat[at:at + k].reshape(f.val.shape))
                at += k
            for lam in (.7, -1.1):
                layer.lbda.val = lam
                R.count('states')
                R.eval((shape, flat.tobytes(), lam))
                summaries(R, model, layer,
                          [[f.val.copy()] for f in layer.factors], [lam],
                          dict(model=model, lbda=lam))


def again(R):
    """a second call of infer replaces the samples of the first one"""
    model, shape, L = 'XOR-AND', (1, 2), 1
    subsets = [(), (0,), (1,), ('l',), (0, 'l')]
    g = np.random.RandomState(6)
    for fix1, fix2 in itertools.product(subsets, repeat=2):
        for T1, T2 in itertools.product((1, 2, 3), repeat=2):
            m, data, layer = machine(model, np.ones(shape, dtype=np.int8), L)
            for fixed, T in ((fix1, T1), (fix2, T2)):
                S = Script(m, layer, fixed)
                hist = [[np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                  dtype=np.int8) for _ in range(T)]
                        for f in S.free]
                if not S.lam_free:
                    layer.lbda.val = .7
                S.play(hist, T)
                it = iter(hist)
                samples = [[f.val.copy()] if f.fixed else next(it)
                           for f in layer.factors]
                lams = list(LAMS[:T]) if S.lam_free else [.7]
                R.count('states', T)
                R.count('traces_validated_against_impl')
                R.eval((fix1, fix2, T1, T2, fixed))
                summaries(R, model, layer, samples, lams,
                          dict(fixed_first=fix1, fixed_then=fix2,
                               samples=samples))
