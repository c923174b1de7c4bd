"""
C24: held-out accuracy is computed on the held-out cells only.

 predict  - the real LOM_predictive with inference replaced by a script that
            notes what it was given and writes every history of samples of a
            bounded size; all models, all masks
 whole    - the real inference under fixed tables of random outcomes, the
            accuracy recomputed from the returned posterior means
 grid     - the grid search with every configuration recorded
 pool     - the real parallel_function on a pool of workers that starts and
            completes its tasks in any order; tasks without a result
 sparse   - the grid search on data with few ones, so that the first splits
            are not possible
"""
import itertools
import pickle

import numpy as np

from mc import env, ref, rng
from mc.common import aux, experiments, lom, relaid, signs, tris

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('one evaluation = one experiment; non-trivial = distinct (model, data,'
        ' mask, history of samples, settings)')
ASSUMPTIONS = ['hidden cells are observed', 'a probability of exactly 1/2 may'
               ' be rounded either way']
BOUNDS = {'quick': '36 models, K = 2, 3; all masks of 4 cells, 8 matrices of'
                   ' data, every n-th of all histories of 1 or 2 samples;'
                   ' whole: 8 models x 2',
          'thorough': 'all 81 matrices of data, 8 times as many histories'}


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS:
        for K in (2, 3):
            out.append(dict(kind='predict', model=model, K=K,
                            n=60 if t else 8, data=1 if t else 10))
    for model in ref.ALL_MODELS if t else ref.MODELS + ('AND-OR', 'NOR-XOR'):
        for anneal in (False, True):
            out.append(dict(kind='whole', model=model, anneal=anneal))
    for model in ('OR-AND', 'AND-AND', 'XOR-NAND'):
        for shape in ((25, 20), (300, 2), (2, 300), (9, 8, 7)) + (
                ((260, 130), (200, 340)) if model == 'OR-AND' else ()):
            out.append(dict(kind='large', model=model, shape=shape))
    out.append(dict(kind='grid'))
    for n in range(5 if t else 4):
        out.append(dict(kind='pool', n=n))
    out.append(dict(kind='sparse'))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def mean_of(samples):
    return np.mean(np.array(samples, dtype=float), axis=0)


def relation(model, canon, L, K):
    """(sign, invert): canon(rows) == sign * model(invert * rows)"""
    for sign, inv in itertools.product((1, -1), repeat=2):
        for bits in itertools.product((-1, 1), repeat=L * K):
            rows = tuple(bits[k * L:(k + 1) * L] for k in range(K))
            other = tuple(tuple(inv * b for b in r) for r in rows)
            if ref.f(canon, rows) != sign * ref.f(model, other):
                break
        else:
            return sign, inv
    return None


def expected(model, canon, means, L, K, shape):
    """probability that the datum is 1, in terms of the requested model; from
    the means of the factors the library reports"""
    rel = relation(model, canon, L, K)
    if rel is None:
        return None
    _, inv = rel
    P = np.zeros(shape)
    for i in np.ndindex(*shape):
        rows = tuple(tuple(float(.5 * (inv * v + 1)) for v in means[k][i[k]])
                     for k in range(K))
        P[i] = ref.f_prob(model, rows)
    return P


def accuracies(P, X, mask):
    """all accuracies possible by rounding of 1/2"""
    cells = [tuple(i) for i in np.argwhere(mask)]
    sure = sum((P[i] > .5) == (X[i] == 1) for i in cells
               if abs(P[i] - .5) > 1e-9)
    open_ = sum(abs(P[i] - .5) <= 1e-9 for i in cells)
    return [(sure + k) / len(cells) for k in range(open_ + 1)]


def predict(case, R):
    model, K = case['model'], case['K']
    fct = env.seam(experiments, 'LOM_predictive')
    shape = (2, 2) if K == 2 else (2, 1, 2)
    seen = {}

    def infer(self, *a, **kw):
        layer = self.layers[0]
        seen.update(machine=self, layer=layer, model=layer.model,
                    size=layer.size, data=layer.child().copy(),
                    lbda=layer.lbda(), anneal=self.anneal, kw=kw,
                    fixed=(layer.child.fixed, layer.lbda.fixed,
                           [f.fixed for f in layer.factors]),
                    entries=[f.fixed_entries.any() for f in layer.factors],
                    prior=[f.bernoulli_prior for f in layer.factors],
                    beta=tuple(layer.lbda.beta_prior),
                    layers=len(self.layers), members=len(self.members))
        for f, tr in zip(layer.factors, seen['script']):
            f.trace = np.array(tr, dtype=np.int8)
            f.val = f.trace[-1].copy()
        layer.lbda.trace = np.full(len(seen['script'][0]), 1.3)
    orig = lom.Machine.infer
    lom.Machine.infer = infer
    try:
        datas = [X for X in tris(shape)][::case['data']]
        masks = [np.array(b, dtype=bool).reshape(shape)
                 for b in itertools.product((False, True), repeat=4)][1:]
        number = 0
        for X, mask in itertools.product(datas, masks):
            if np.any(X[mask] == 0):
                continue
            for L, T in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)):
                n = sum(shape) * L * T
                for j in range(max(1, case['n'] // (2 if T == 2 else 4))):
                    number += 1
                    # spread over all 2^n histories
                    h = (number * 2654435761 + j * 40503) % 2**n
                    bits = np.array([1 if h >> b & 1 else -1
                                     for b in range(n)], dtype=np.int8)
                    script, at = [], 0
                    for s in shape:
                        script.append(bits[at:at + s * L * T].reshape(T, s, L))
                        at += s * L * T
                    once(R, case, fct, seen, X, mask, L, script,
                         (.3, 1.7)[number % 2], number % 3 == 0,
                         number % 4 < 2)
    finally:
        lom.Machine.infer = orig
    R.sample(dict(model=model, data=X, mask=mask))


def once(R, case, fct, seen, X, mask, L, script, lbda, anneal, full):
    model, K, shape = case['model'], case['K'], X.shape
    X, X_train, mask = relaid(X), relaid(X), relaid(mask)
    X_train[mask] = 0
    keep = X.copy(), X_train.copy(), mask.copy()
    seen.clear()
    seen['script'] = script
    res = fct((X, X_train, mask, model, L, 0, lbda, anneal), full)
    d = dict(model=model, data=X, mask=mask, L=L, anneal=anneal)
    if 'layer' not in seen:
        R.violation('nothing was trained', **d)
        return
    R.check(np.array_equal(X, keep[0]) and np.array_equal(X_train, keep[1])
            and np.array_equal(mask, keep[2]), 'the experiment changes its'
            ' data', **d)
    rel = relation(model, seen['model'], L, K)
    R.check(rel is not None, 'another model is trained', got=seen['model'],
            **d)
    sign = rel[0] if rel is not None else 1
    if relation(model, seen['model'], 2, K) is not None:
        sign = relation(model, seen['model'], 2, K)[0]
    R.check(np.array_equal(seen['data'], sign * keep[1]),
            'trained on something else than the training data',
            got=seen['data'], **d)
    R.check(seen['size'] == L and seen['layers'] == 1,
            'size of the trained machine', got=seen['size'], **d)
    R.check(np.ndim(seen['lbda']) == 0 and abs(seen['lbda'] - lbda) < 1e-12,
            'initial lambda', got=seen['lbda'], wanted=lbda, **d)
    R.check(bool(seen['anneal']) == anneal, 'annealing', got=seen['anneal'],
            **d)
    R.check(seen['fixed'][0] is True and seen['fixed'][1] is False and
            not any(x is not False for x in seen['fixed'][2]) and
            not any(seen['entries']),
            'what is fixed in training', got=seen['fixed'], **d)
    R.check(all(p == .5 for p in seen['prior']) and seen['beta'] == (1, 1),
            'priors of the training', got=[seen['prior'], seen['beta']], **d)
    if anneal:
        R.check(seen['kw'].get('fix_lbda_iters', 0) == 0,
                'annealing with a fixed lambda', **d)
    head, means = (res[0], res[1]) if full else (res, None)
    m = [mean_of(s) for s in script]
    P = expected(model, seen['model'], m, L, K, shape)
    if P is not None:
        acc = accuracies(P, X, mask)
        R.check(any(abs(head[0] - a) < 1e-9 for a in acc),
                'accuracy is not the fraction of correct held-out cells',
                got=head[0], wanted=acc, probability=P, **d)
    R.check(head[1] == model and head[2] == L, 'labels of the result',
            got=head[1:], **d)
    if full:
        R.check(len(means) == K and all(
            np.allclose(a, b) for a, b in zip(means, m)),
            'reported factors are not the posterior means', **d)
    R.eval((X.tobytes(), mask.tobytes(), L, lbda, anneal,
            b''.join(s.tobytes() for s in script)))
    R.count('states')
    R.count('transitions')
    R.count('traces_validated_against_impl')


def large(case, R):
    """hundreds (thousands) of held-out cells; every fraction of them
    predicted correctly"""
    model, shape = case['model'], tuple(case['shape'])
    K, size = len(shape), int(np.prod(shape))
    fct = env.seam(experiments, 'LOM_predictive')
    script, seen = [], {}

    def infer(self, *a, **kw):
        layer = seen['layer'] = self.layers[0]
        for f, s in zip(layer.factors, script):
            f.val, f.trace = s.copy(), s[None].copy()
        layer.lbda.trace = np.full(1, 1.3)
    orig = lom.Machine.infer
    lom.Machine.infer = infer
    i = np.arange(size).reshape(shape)
    try:
        for right, hold in itertools.product(
                (0, 1, 3, 4) if size < 10000 else (0, 1), (1, 2, 5)):
            script[:] = [np.array([[1 if (n * n + 3 * k) % 5 < 3 else -1]
                                   for n in range(s)], dtype=np.int8)
                         for k, s in enumerate(shape)]
            # any data first, to learn the form of the model
            probe = np.where(i % 2 == 0, 1, -1).astype(np.int8)
            mask = i % hold == 0
            fct((probe, np.where(mask, 0, probe), mask, model, 1, 0, .5,
                 False))
            rel = relation(model, seen['layer'].model, 2, K)
            if rel is None:
                R.violation('another model is trained',
                            got=seen['layer'].model, model=model)
                return
            inv = rel[1]
            table = {bits: ref.f(model, tuple((inv * b,) for b in bits))
                     for bits in itertools.product((-1, 1), repeat=K)}
            truth = np.empty(shape, dtype=np.int8)
            for bits, v in table.items():
                where = np.ones(shape, dtype=bool)
                for k, b in enumerate(bits):
                    where &= (script[k][:, 0] == b).reshape(
                        [-1 if q == k else 1 for q in range(K)])
                truth[where] = v
            X = np.where(i // hold % 4 < right, truth, -truth).astype(np.int8)
            out = fct((X, np.where(mask, 0, X).astype(np.int8), mask, model,
                       1, 0, .5, False))
            want = np.mean((i // hold % 4 < right)[mask])
            R.check(abs(out[0][0] - want) < 1e-9, 'accuracy is not the'
                    ' fraction of correct held-out cells', got=out[0][0],
                    wanted=want, shape=shape, held_out=int(mask.sum()))
            R.eval(('large', right, hold))
            R.count('states')
            R.count('transitions')
            R.count('traces_validated_against_impl')
    finally:
        lom.Machine.infer = orig


TABLES = [lambda i: (i * .6180339887 + .21) % 1,
          lambda i: (i * i * .4142135623 + .77) % 1]


def whole(case, R):
    """everything real"""
    model = case['model']
    fct = env.seam(experiments, 'LOM_predictive')
    for K, shape in ((2, (4, 3)), (3, (2, 2, 2))):
        i = np.arange(int(np.prod(shape))).reshape(shape)
        X = np.where(i * 5 % 7 < 3, -1, 1).astype(np.int8)
        for mod, tab in itertools.product((2, 3), TABLES):
            mask = i % mod == 1
            X_train = X.copy()
            X_train[mask] = 0
            for L in (1, 2):
                made = []
                init = lom.Machine.add_layer

                def add(self, *a, **k):
                    l = init(self, *a, **k)
                    made.append(l)
                    return l
                lom.Machine.add_layer = add
                try:
                    head, means = rng.Policy(tab).run(
                        lambda: fct((X, X_train, mask, model, L, 0, .7,
                                     case['anneal'])))
                finally:
                    lom.Machine.add_layer = init
                canon = made[0].model
                P = expected(model, canon, means, L, K, shape)
                if P is None:
                    R.violation('another model is trained', got=canon)
                    continue
                acc = accuracies(P, X, mask)
                R.check(any(abs(head[0] - a) < 1e-9 for a in acc),
                        'accuracy is not the fraction of correct held-out'
                        ' cells', got=head[0], wanted=acc, model=model, K=K,
                        anneal=case['anneal'])
                R.check(head[1] == model and head[2] == L,
                        'labels of the result', got=head[1:])
                R.eval(('whole', K, mod, L, tab is TABLES[0]))
                R.count('states')
                R.count('transitions')
                R.count('traces_validated_against_impl')
    R.sample(dict(model=model, accuracy=head[0]))


def grid(case, R):
    """every configuration once, all with the same split"""
    fct = env.seam(experiments, 'LOM_hyperparms_parallel_gridsearch')
    env.seam(experiments, 'parallel_function')
    env.seam(experiments, 'LOM_predictive')
    try:
        import pandas                                  # noqa: F401
    except ImportError:
        R.note('pandas is not installed')
        return
    seen = []

    def fake(e):
        seen.append(e)
        return [[.125 * (len(seen) % 8), e[3], e[4]], [len(seen)]]
    o1, o2 = experiments.parallel_function, experiments.LOM_predictive
    experiments.parallel_function = lambda f: (lambda s: [f(x) for x in s])
    experiments.LOM_predictive = fake
    i = np.arange(48).reshape(8, 6)
    X = np.where(i * 5 % 7 < 3, -1, 1).astype(np.int8)
    try:
        for machines, Ls, idx, lbda, bal, anneal, s in itertools.product(
                (['OR-AND'], ['XOR-AND', 'AND-OR'], None), ([2], [1, 3]),
                ([0], [0, 1]), (.1, .9), (False, True), (False, True), (0, 1)):
            seen.clear()
            np.random.seed(s)
            try:
                tab, extra = fct(X.copy(), machines=machines, L_inits=Ls,
                                 random_idxs=idx, lbda_init=lbda,
                                 balanced=bal, anneal=anneal)
            except (pickle.PicklingError, AttributeError) as e:
                if 'pickle' not in str(e):
                    raise
                R.note('the grid search does not go through'
                       ' parallel_function')
                return
            d = dict(machines=machines, L_inits=Ls, random_idxs=idx)
            ms = machines
            if machines is None:
                ms = sorted(set(e[3] for e in seen))
                R.check(set(ms) == set(aux.canonical_loms()),
                        'default models of the grid search', got=ms)
            want = sorted((m, l, r) for m in ms for l in Ls for r in idx)
            R.check(sorted((e[3], e[4], e[5]) for e in seen) == want,
                    'configurations of the grid search',
                    got=[(e[3], e[4], e[5]) for e in seen][:9], **d)
            for e in seen:
                R.check(np.array_equal(e[0], X), 'data of the grid search',
                        **d)
                R.check(e[6] == lbda and e[7] is anneal,
                        'settings of the grid search', got=e[6:], **d)
                R.check(np.array_equal(e[1], np.where(e[2], 0, X)),
                        'training data of the grid search', **d)
                R.check(np.array_equal(e[2], seen[0][2]) and e[2].any(),
                        'splits of the grid search', **d)
            rows = [tuple(r) for r in tab.values]
            R.check(len(rows) == len(seen) and all(
                (r[1], r[2]) == (e[3], e[4]) and
                r[0] == .125 * ((k + 1) % 8)
                for k, (r, e) in enumerate(zip(rows, seen))),
                'table of the grid search', got=rows[:5], **d)
            R.check(extra == [[k + 1] for k in range(len(seen))],
                    'factors of the grid search', **d)
            R.eval((str(machines), str(Ls), str(idx), lbda, bal, anneal, s))
            R.count('states', len(seen))
            R.count('transitions', len(seen))
            R.count('traces_validated_against_impl')
    finally:
        experiments.parallel_function, experiments.LOM_predictive = o1, o2
    R.sample(dict(machines=machines, table=rows[:3]))


class Pool:
    """workers that take and complete tasks in a given order"""
    order, used = (), 0

    def __init__(self, *a, **k):
        Pool.used += 1
        self.pending = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.join()

    def _run(self, f, args):
        args = [pickle.loads(pickle.dumps(a)) for a in args]
        out = {}
        for i in [i for i in Pool.order if i < len(args)] + \
                list(range(len(Pool.order), len(args))):
            out[i] = f(*args[i])
        return out

    def map(self, f, seq, chunksize=None):
        seq = [(x,) for x in seq]
        out = self._run(f, seq)
        return [out[i] for i in range(len(seq))]

    def starmap(self, f, seq, chunksize=None):
        seq = [tuple(x) for x in seq]
        out = self._run(f, seq)
        return [out[i] for i in range(len(seq))]

    def imap(self, f, seq, chunksize=1):
        return iter(self.map(f, seq))

    def imap_unordered(self, f, seq, chunksize=1):
        return iter(list(self._run(f, [(x,) for x in seq]).values()))

    def map_async(self, f, seq, chunksize=None, callback=None, **k):
        res = self.map(f, seq)
        if callback is not None:
            callback(res)
        return _Done(self, None, res)

    def apply(self, f, args=(), kwds={}):
        return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, callback=None, **k):
        job = _Done(self, (f, args, kwds, callback), None)
        self.pending.append(job)
        return job

    def _flush(self):
        jobs, self.pending = self.pending, []
        for i in [i for i in Pool.order if i < len(jobs)] + \
                list(range(len(Pool.order), len(jobs))):
            f, args, kwds, callback = jobs[i].job
            jobs[i].res = f(*args, **kwds)
            if callback is not None:
                callback(jobs[i].res)

    def close(self):
        self._flush()

    def join(self):
        self._flush()

    def terminate(self):
        pass


class _Done:
    def __init__(self, pool, job, res):
        self.pool, self.job, self.res = pool, job, res

    def get(self, timeout=None):
        self.pool._flush()
        return self.res

    def wait(self, timeout=None):
        self.pool._flush()

    def ready(self):
        return True

    def successful(self):
        return True


def pool(case, R):
    import multiprocessing
    import multiprocessing.pool
    make = env.seam(experiments, 'parallel_function')
    places = [(m, 'Pool', getattr(m, 'Pool')) for m in
              (multiprocessing, multiprocessing.pool, experiments)
              if hasattr(m, 'Pool')]
    n = case['n']
    items = [[k, np.full((2, 2), k), 'm%d' % k] for k in range(n)]
    try:
        for m, name, _ in places:
            setattr(m, name, Pool)
        for order in itertools.permutations(range(n)):
            for none in itertools.product((False, True), repeat=n):
                Pool.order, Pool.used = order, 0
                calls = []

                def f(x):
                    calls.append(x)
                    if none[x[0]]:
                        return None
                    # values that count as false are results as well
                    return ([], 0, (x[0], x[2]))[x[0] % 3]
                try:
                    out = make(f)(list(items))
                except (pickle.PicklingError, AttributeError) as e:
                    if 'pickle' not in str(e):
                        raise
                    R.note('parallel_function does not use a Pool')
                    return
                d = dict(order=order, without_result=none)
                R.check(sorted(x[0] for x in calls) == list(range(n)),
                        'every configuration is run exactly once',
                        got=[x[0] for x in calls], **d)
                R.check(all(x[2] == items[x[0]][2] and
                            np.array_equal(x[1], items[x[0]][1])
                            for x in calls), 'tasks get other arguments', **d)
                R.check(list(out) == [([], 0, (k, 'm%d' % k))[k % 3]
                                      for k in range(n) if not none[k]],
                        'results are not those of the tasks in the order of'
                        ' the tasks', got=out, **d)
                R.eval((order, none))
                R.count('states')
                R.count('transitions', n)
                R.count('schedules')
                R.count('traces_validated_against_impl')
    finally:
        for m, name, orig in places:
            setattr(m, name, orig)
    R.sample(dict(tasks=n))


def sparse(case, R):
    """the held-out part shrinks until the split is possible"""
    fct = env.seam(experiments, 'LOM_hyperparms_parallel_gridsearch')
    env.seam(experiments, 'parallel_function')
    env.seam(experiments, 'LOM_predictive')
    try:
        import pandas                                  # noqa: F401
    except ImportError:
        R.note('pandas is not installed')
        return
    seen = []

    def fake(e):
        seen.append(e)
        return [[.5, e[3], e[4]], [len(seen)]]
    o1, o2 = experiments.parallel_function, experiments.LOM_predictive
    experiments.parallel_function = lambda f: (lambda s: [f(x) for x in s])
    experiments.LOM_predictive = fake
    try:
        for shape, few, one, missing in itertools.product(
                ((20, 20), (10, 8, 5)), (1, 2, 3, 5, 19, 20), (1, -1),
                (0, 1)):
            X = np.full(shape, -one, dtype=np.int8)
            flat = X.reshape(-1)
            flat[np.arange(few) * 17 % 400] = one
            if missing:
                flat[np.arange(50) * 7 % 391 + 8] *= np.where(
                    np.arange(50) % 2, 0, 1).astype(np.int8)
            seen.clear()
            np.random.seed(few)
            res = fct(X.copy(), machines=['OR-AND'], L_inits=[2],
                      balanced=True)
            d = dict(shape=shape, ones_or_zeros=few, missing=missing)
            if not R.check(len(seen) == 1 and len(res[0]) == 1,
                           'configurations of the grid search', **d):
                continue
            _, train, mask = seen[0][:3]
            k, z = np.sum(X[mask] == 1), np.sum(X[mask] == -1)
            R.check(k == z and k + z == mask.sum(),
                    'held-out cells are not balanced', ones=k, zeros=z, **d)
            R.check(np.array_equal(train, np.where(mask, 0, X)),
                    'training data of the grid search', **d)
            R.check(np.array_equal(seen[0][0], X),
                    'data of the grid search', **d)
            R.eval((shape, few, one, missing))
            R.count('states')
            R.count('transitions')
            R.count('traces_validated_against_impl')
    finally:
        experiments.parallel_function, experiments.LOM_predictive = o1, o2
    R.sample(dict(held_out=int(mask.sum()), ones=k, zeros=z))
