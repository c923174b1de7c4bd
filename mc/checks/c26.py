"""
C26: the area under the ROC curve is that of exactly the held-out entries: the
fraction of pairs of a held-out one and a held-out zero in which the one has
the higher prediction, ties count half.

 auc      - all binary matrices, held-out sets and weak orders of predictions
            of the held-out entries up to a size, with misleading predictions
            for the other entries
 large    - larger matrices with few held-out entries
 pipeline - all random outcomes of the split that is made by the library
"""
import itertools

import numpy as np

from mc import env, rng
from mc.common import aux, relaid, signs

ID = 'C26'
LEVEL = 'model_checking'
RULE = ('one evaluation = one (data, held-out entries, predictions, coding);'
        ' non-trivial = distinct data, held-out entries and predictions')
ASSUMPTIONS = ['fully observed data; there is a held-out one and a held-out'
               ' zero; finite predictions']
BOUNDS = {'quick': 'matrices of up to 6 entries with up to 4 held-out entries'
                   ' (5 for 5 entries), all weak orders; 40 x 7 with all'
                   ' triples of some entries; splits of all matrices of up to'
                   ' 6 entries',
          'thorough': 'up to 5 held-out entries of up to 6 entries'}


def cases(tier):
    t = tier == 'thorough'
    out = []
    for shape in ((1, 2), (2, 1), (1, 3), (2, 2), (1, 4), (5, 1), (2, 3)):
        for part in range(4 if np.prod(shape) > 4 else 1):
            out.append(dict(kind='auc', shape=shape, part=part,
                            parts=4 if np.prod(shape) > 4 else 1,
                            held=5 if t or np.prod(shape) == 5 else 4))
    out.append(dict(kind='large'))
    for shape in ((2, 2), (1, 5), (2, 3), (3, 2)):
        out.append(dict(kind='pipeline', shape=shape))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def area(labels, scores):
    """from the definition"""
    labels = np.array(labels, dtype=bool)
    scores = np.array(scores, dtype=float)
    wins, n0 = 0., scores[~labels]
    for s in scores[labels]:
        wins += np.sum(s > n0) + .5 * np.sum(s == n0)
    return wins / (labels.sum() * n0.size)


def weak_orders(n):
    """all rankings with ties of n things"""
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            yield r


# of different magnitudes, nearly the same, tiny, log odds
VALUES = ((0., .001, .3, .75, 1.),
          (.5 - 1e-9, .5, .5 + 1e-13, .5 + 1e-9, .5 + 1e-6),
          (0., 1e-300, 1e-30, 1e-12, 2e-12),
          (-800., -1e-3, 0., 36., 1e5))


def compare(R, fct, X, held, scores, other, coding, **d):
    """scores of the held-out cells, `other` for the rest"""
    train = X.copy()
    pred = np.array([other(int(i), X.flat[i]) for i in range(X.size)],
                    dtype=float).reshape(X.shape)
    for i, s in zip(held, scores):
        train.flat[i] = 0
        pred.flat[i] = s
    data = {'sign': X, 'binary': (X + 1) // 2, 'float': X.astype(float)}[
        coding]
    data, train, pred = [relaid(a) for a in (data, train, pred)]
    keep = [a.copy() for a in (data, train, pred)]
    got = fct(data, train, pred)
    want = area([X.flat[i] == 1 for i in held], scores)
    R.check(np.ndim(got) == 0 and abs(float(got) - want) < 1e-9,
            'area under the curve of held-out entries', data=data,
            train=train, prediction=pred, got=got, wanted=want,
            coding=coding, **d)
    R.check(all(np.array_equal(a, b) for a, b in
                zip(keep, (data, train, pred))),
            'the area under the curve changes its arguments')
    R.eval((X.tobytes(), X.shape, tuple(held), tuple(scores)))
    R.count('states')
    R.count('transitions')
    R.count('traces_validated_against_impl')


OTHERS = [lambda i, x: .5 + .6 * x,          # better than any held-out one
          lambda i, x: .5 - .6 * x,          # worse
          lambda i, x: .3]                   # ties


def auc(case, R):
    fct = env.seam(aux, 'get_roc_auc')
    shape = tuple(case['shape'])
    k = 0
    for j, X in enumerate(signs(shape)):
        if j % case['parts'] != case['part']:
            continue
        for n in range(2, min(case['held'], X.size) + 1):
            for held in itertools.combinations(range(X.size), n):
                if len({int(X.flat[i]) for i in held}) < 2:
                    continue
                for order in weak_orders(n):
                    k += 1
                    compare(R, fct, X, held, [VALUES[k % 4][o] for o in order],
                            OTHERS[k // 4 % 3],
                            ('sign', 'binary', 'float')[k // 12 % 3])
    R.sample(dict(data=X, shape=shape))


def large(case, R):
    fct = env.seam(aux, 'get_roc_auc')
    N, D = 40, 7
    X = np.array([1 if (3 * i + i // 7) % 5 < 2 else -1
                  for i in range(N * D)], dtype=np.int8).reshape(N, D)
    cells = [0, 1, 6, 7, 48, 139, 140, 200, 272, 273, 278, 279]
    for n in (3, len(cells)):
        for held in itertools.combinations(cells, n):
            if len({int(X.flat[i]) for i in held}) < 2:
                continue
            for c in range(3):
                scores = [((i * 7 + c * 3) % 11) / 10. for i in held]
                compare(R, fct, X, held, scores, OTHERS[c],
                        ('sign', 'binary', 'float')[c])
    # everything is held out
    for c in range(4):
        scores = [((i * 7 + c * i * i) % (5 + 60 * c)) / 10.
                  for i in range(X.size)]
        compare(R, fct, X, range(X.size), scores, OTHERS[0], 'sign')
    # more than 2^8, 2^15, 2^16 held-out entries
    for shape, every in (((30, 30), 2), ((300, 130), 1), ((280, 300), 1),
                         ((2, 300), 1), ((300, 2), 3)):
        X = np.array([1 if i * i % 7 < 3 or i > .8 * np.prod(shape) else -1
                      for i in range(int(np.prod(shape)))],
                     dtype=np.int8).reshape(shape)
        held = range(0, X.size, every)
        scores = [(i * 7919 % 10007) * 1e-7 + .3 + .0002 * X.flat[i]
                  for i in held]
        compare(R, fct, X, held, scores, OTHERS[0], 'sign')
    R.sample(dict(shape=X.shape, cells=cells))


def pipeline(case, R):
    fct = env.seam(aux, 'get_roc_auc')
    split = env.seam(aux, 'split_test_train')
    shape = tuple(case['shape'])
    for X in signs(shape):
        ones = int(np.sum(X == 1))
        # two ones and two zeros at most (the split needs enough of them)
        for h in (1, 2):
            if min(ones, X.size - ones) < h:
                continue
            p = (2 * h + .2) / X.size

            def go():
                train = split(X, p)
                out = []
                for pred in (X * 1., -X * 1., X * 0. + .3,
                             np.arange(X.size).reshape(shape) / 10.):
                    out.append(float(fct(X, train, pred)))
                return tuple(int(t) for t in train.ravel()), tuple(out)
            eng = rng.Dfs()
            for train, out in eng.distribution(go):
                held = [i for i in range(X.size) if train[i] == 0]
                lab = [X.flat[i] == 1 for i in held]
                ok = sum(lab) == h and len(held) == 2 * h
                R.check(ok, 'split of the data', data=X, train=train)
                want = (1., 0., .5, area(lab, held)) if ok else out
                R.check(np.allclose(out, want, atol=1e-9), 'area under the'
                        ' curve of a perfect, an opposite, a constant or an'
                        ' increasing prediction', data=X, train=train,
                        got=out, wanted=want)
                R.eval((X.tobytes(), h, train))
                R.count('states')
            R.count('transitions', eng.paths)
            R.count('traces_validated_against_impl', eng.paths)
    R.sample(dict(data=X))
