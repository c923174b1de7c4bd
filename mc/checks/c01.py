"""
C01: the deterministic product of binary factor matrices is the logical
product named by the model.

Factors whose rows run through *all* sign patterns make one call produce all
argument combinations at once.
"""
import itertools

import numpy as np

from mc import ref
from mc.common import PM, aux, deviations, machine, relaid, rng

ID = 'C01'
LEVEL = 'exploration'
RULE = ('one evaluation = one output cell compared with the operator table;'
        ' distinct = distinct (entry point, model, rows of factors); all are'
        ' non-trivial as both output values occur')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)']
BOUNDS = {'quick': 'all rows for K=2,L<=4; K=3,L<=3; K=4,L<=2; up to two'
                   ' deviations from constant rows for L in 5..300;'
                   ' sequences of 3 calls',
          'thorough': 'all rows for K=2,L<=7; K=3,L<=4; K=4,L<=3'}


def all_rows(L):
    return np.array(list(itertools.product(PM, repeat=L)), dtype=np.int8)


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS:
        out.append(dict(kind='rows', model=model,
                        sizes=[[2, L] for L in range(1, 8 if t else 5)] +
                        [[3, L] for L in range(1, 5 if t else 4)] +
                        [[4, L] for L in range(1, 4 if t else 3)] +
                        [[5, 1], [5, 2], [6, 1], [7, 1]]))
        out.append(dict(kind='shapes', model=model))
        out.append(dict(kind='calls', model=model))
    for model in ref.ALL_MODELS:
        for K in (2, 3):
            out.append(dict(kind='long', model=model, K=K))
    return out


def entry_points(model, K):
    yield 'lom_generate_data', lambda fs: aux.lom_generate_data(fs, model)
    yield 'lom_generate_data_fast', \
        lambda fs: aux.lom_generate_data_fast(fs, model)
    if model == 'OR-AND' and K == 3:
        yield 'boolean_tensor_product', lambda fs: 2 * np.array(
            aux.boolean_tensor_product(*[f == 1 for f in fs]),
            dtype=np.int8) - 1
    if model in ref.MODELS and K < 4:
        yield 'layer.output(point_estimate)', \
            lambda fs: layer_output(fs, model)


def layer_output(fs, model):
    m, data, layer = machine(model, np.ones([f.shape[0] for f in fs],
                                            dtype=np.int8), fs[0].shape[1])
    for f, v in zip(layer.factors, fs):
        f.val = np.array(v, dtype=np.int8)
    return 2 * layer.output(technique='point_estimate') - 1


types = [0]


def compare(R, model, fs, names=None):
    K = len(fs)
    tabs = [ref.tup(f) for f in fs]
    expected = np.empty([len(t) for t in tabs], dtype=int)
    for idx in np.ndindex(*expected.shape):
        expected[idx] = ref.f(model, ref.rows_of(tabs, idx))
    for name, fn in entry_points(model, K):
        if names and name not in names:
            continue
        types[0] += 1
        dtype = (np.int8, np.int8, np.int64, np.float64)[types[0] % 4]
        args = [relaid(f).astype(dtype) for f in fs]
        before = [a.tobytes() for a in args]
        got = np.asarray(fn(args))
        R.count('evaluations', expected.size)
        R.distinct.add(hash((name, tuple(tabs))))
        if [a.tobytes() for a in args] != before:
            R.violation('product modifies its factors', model=model,
                        entry_point=name)
        if got.shape != expected.shape:
            R.violation('product has the wrong shape', model=model,
                        entry_point=name, shape=got.shape,
                        expected=expected.shape)
            continue
        bad = np.argwhere(~(got == expected))
        if len(bad):
            i = tuple(int(v) for v in bad[0])
            R.violation('wrong logical product', model=model, entry_point=name,
                        rows=ref.rows_of(tabs, i), got=got[i],
                        expected=expected[i], index=i,
                        wrong_cells=len(bad), cells=expected.size)
        R.sample(dict(entry_point=name, shape=expected.shape,
                      ones=int((expected == 1).sum())))


def calls(R, model):
    """sequences of calls with factors of the same and of other shapes: later
    calls do not change what earlier ones returned"""
    for shape, L in itertools.product(((2, 3), (3, 3), (2, 3, 2), (2, 2, 2),
                                       (2, 1, 2, 2)), (1, 2, 3)):
        K = len(shape)
        g = np.random.RandomState(2)
        space = [[np.array(2 * g.randint(0, 2, (n, L)) - 1, dtype=np.int8)
                  for n in shape] for _ in range(2)]
        space.append([np.ones((n, L), dtype=np.int8) for n in shape[::-1]])
        for name, fn in entry_points(model, K):
            for seq in itertools.product(range(3), repeat=3):
                seen = []
                for s in seq:
                    args = [f.copy() for f in space[s]]
                    got = fn(args)
                    want = np.empty([len(f) for f in args], dtype=int)
                    tabs = [ref.tup(f) for f in args]
                    for idx in np.ndindex(*want.shape):
                        want[idx] = ref.f(model, ref.rows_of(tabs, idx))
                    seen.append((got, want, args))
                    for got, want, _ in seen:
                        R.check(np.array_equal(got, want), 'a product is'
                                ' wrong after further calls', model=model,
                                entry_point=name, shape=shape, L=L,
                                calls=seq, got=got, expected=want)
                for (a, _, x), (b, _, y) in itertools.combinations(seen, 2):
                    R.check(not np.shares_memory(a, b), 'products of'
                            ' different calls share memory', model=model,
                            entry_point=name)
                R.check(not any(np.shares_memory(a, f) for a, _, x in seen
                                for f in x), 'product shares memory with its'
                        ' factors', model=model, entry_point=name)
                R.eval((name, shape, L, seq))


def in_place(R, model):
    """the same arrays with other content at every call"""
    for shape, L in itertools.product(((2, 3), (2, 2), (2, 3, 2),
                                       (2, 1, 2, 2)), (1, 2)):
        K = len(shape)
        g = np.random.RandomState(4)
        for name, fn in entry_points(model, K):
            args = [np.ones((n, L), dtype=np.int8) for n in shape]
            for step in range(6):
                for i, f in enumerate(args):
                    # all, or only one of the factors
                    if step % 2 == 0 or i == step % K:
                        f[:] = 2 * g.randint(0, 2, f.shape) - 1
                want = np.empty(shape, dtype=int)
                tabs = [ref.tup(f) for f in args]
                for idx in np.ndindex(*shape):
                    want[idx] = ref.f(model, ref.rows_of(tabs, idx))
                got = fn(list(args) if step % 2 else args)
                R.check(np.array_equal(got, want), 'a product of factors that'
                        ' were changed in place is wrong', model=model,
                        entry_point=name, factors=args, got=got,
                        expected=want)
                R.eval((name, shape, L, step, 'in place'))


def run(case, R):
    types[0] = 0
    model = case['model']
    if case['kind'] == 'calls':
        calls(R, model)
        return in_place(R, model)
    if case['kind'] == 'rows':
        for K, L in case['sizes']:
            compare(R, model, [all_rows(L)] * K)
            # same values, other memory layouts and number types
            if L == 2:
                rows = all_rows(L)
                compare(R, model, [np.asfortranarray(rows)] +
                        [rows[::-1].astype(np.int64)] * (K - 1),
                        ['lom_generate_data', 'lom_generate_data_fast'])
    elif case['kind'] == 'shapes':
        g = np.random.RandomState(1)
        for shape in ((1, 1), (1, 4), (5, 1), (3, 2), (2, 7), (1, 1, 1),
                      (1, 2, 3), (3, 1, 2), (2, 3, 1), (4, 2, 3),
                      (2, 1, 3, 2)):
            for L in (1, 3, 5):
                compare(R, model, [np.array(2 * g.randint(0, 2, (n, L)) - 1,
                                            dtype=np.int8) for n in shape])
        # many objects or features
        for shape in ((1031, 2), (2, 1031), (131, 2, 2), (2, 131, 2),
                      (2, 2, 131)):
            compare(R, model, [np.array(2 * g.randint(0, 2, (n, 2)) - 1,
                                        dtype=np.int8) for n in shape])
    else:
        K = case['K']
        for L in (5, 6, 9, 16):
            for base in itertools.product(PM, repeat=K):
                rows = []
                for b in base:
                    r = list(deviations((L,), b, PM, 1))
                    if K == 2 and L < 8:
                        r = list(deviations((L,), b, PM, 2))
                    if K == 3:
                        r = [r[0], r[1], r[2], r[-2], r[-1]]
                    rows.append(np.array(r))
                compare(R, model, rows)
        for L in (126, 127, 128, 129, 130, 255, 256, 257, 258, 300):
            for base in itertools.product(PM, repeat=K):
                rows = []
                for b in base:
                    r = np.full((4, L), b, dtype=np.int8)
                    r[1, 0] *= -1
                    r[2, -1] *= -1
                    r[3, -2:] *= -1
                    rows.append(r)
                compare(R, model, rows)
