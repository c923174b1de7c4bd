"""
C10: the MAX-AND lambda update is greedy: the dimension with the highest
(Laplace) rate of ones among the observed cells that are not explained yet is
next; the rest belongs to the clamped unit, which never exceeds the others.
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import (PM, factors, lbda_fct, machine, relaid, signs,
                       snapshot, tris)

ID = 'C10'
LEVEL = 'exploration'
RULE = ('one evaluation = one lambda update compared with all outcomes of the'
        ' greedy procedure (any tie-break); non-trivial = distinct (factors,'
        ' data) with an observed cell')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)']
BOUNDS = {'quick': 'all factors and data: 2x2 with L<=2, 1x2 L=3, 2x1 L=3,'
                   ' 1x1 L<=4, 1x3 L=2; large structured (up to 67600'
                   ' cells, 258 dimensions); overlapping dimensions whose'
                   ' rates differ by 1/(b*d), b, d <= 1021',
          'thorough': '2x2 L=3 (every 3rd data), 2x3 L=2'}


def cases(tier):
    t = tier == 'thorough'
    out = []
    sizes = [((1, 1), 1), ((1, 1), 4), ((1, 2), 2), ((2, 1), 2), ((2, 2), 1),
             ((1, 3), 2), ((3, 1), 2)]
    parts = [((2, 2), 2), ((1, 2), 3), ((2, 1), 3)] + (
        [((2, 3), 2), ((2, 2), 3)] if t else [])
    for shape, L in sizes:
        out.append(dict(kind='all', shape=shape, L=L, part=0, parts=1))
    for shape, L in parts:
        for p in range(6):
            out.append(dict(kind='all', shape=shape, L=L, part=p, parts=6))
    out.append(dict(kind='large'))
    out.append(dict(kind='many'))
    out.append(dict(kind='close'))
    out.append(dict(kind='infer'))
    return out


def outcomes(Z, U, X):
    """all possible results of the greedy procedure"""
    N, D, L = len(Z), len(U), len(Z[0])
    cells = [(n, d) for n in range(N) for d in range(D) if X[n, d]]
    cover = [frozenset(c for c in cells
                       if Z[c[0]][l] == 1 and U[c[1]][l] == 1)
             for l in range(L)]
    out = set()

    def rate(cs):
        tp = sum(1 for c in cs if X[c] == 1)
        return (tp + 1) / (len(cs) + 2)

    def go(left, done, lam):
        if not left:
            rest = [c for c in cells if c not in done]
            last = min([rate(rest)] + [lam[l] for l in range(L)])
            out.add(tuple(lam[l] for l in range(L)) + (last,))
            return
        r = {l: rate(cover[l] - done) for l in left}
        best = max(r.values())
        for l in left:
            if r[l] > best - 1e-12:
                go(left - {l}, done | cover[l], {**lam, l: r[l]})
    go(frozenset(range(L)), frozenset(), {})
    return out


def compare(R, layer, fct, key, start=.4):
    Z, U = [ref.tup(f.val) for f in factors(layer)]
    X = layer.child.val
    L = len(Z[0])
    layer.lbda.val = np.array([start] * L + [.01])
    before = snapshot(X, *[f.val for f in factors(layer)])
    fct(layer.lbda)
    got = np.array(layer.lbda.val, dtype=float)
    want = outcomes(Z, U, X)
    R.eval(key if np.any(X) else None)
    if got.shape != (L + 1,) or not any(
            np.allclose(got, w, rtol=0, atol=1e-9) for w in want):
        R.violation('MAX-AND lambdas are not the result of the greedy '
                    'procedure', z=Z, u=U, data=X if X.size < 50 else X.shape,
                    got=got, expected=sorted(want)[:4])
    if snapshot(X, *[f.val for f in factors(layer)]) != before:
        R.violation('MAX-AND lambda update changes matrices')
    R.sample(dict(z=Z if X.size < 20 else '', data=X.shape, got=got,
                  expected=sorted(want)[:2]))


def close(R):
    """two overlapping dimensions whose rates a/b and c/d are as close as the
    numbers of cells allow: a*d - b*c = -1, 0 or 1"""
    for b, d in ((22, 25), (102, 107), (402, 421), (1002, 1021)):
        nb, nd, both = b - 2, d - 2, b // 3
        N = nb + nd - both
        m, data, layer = machine('MAX-AND', np.ones((N, 1), dtype=np.int8), 2)
        fct = lbda_fct(layer.lbda)
        z, u = factors(layer)
        pairs = [(a, c) for a in range(1, b) for c in range(1, d)
                 if abs(a * d - b * c) <= 1][::1 if b < 100 else 3]
        for a, c in pairs:
            for shared in (0, both // 2, both):
                ones0, ones1 = a - 1 - shared, c - 1 - shared
                if not (0 <= ones0 <= nb - both and
                        0 <= ones1 <= nd - both):
                    continue
                for swap in (0, 1):
                    x = np.full((N, 1), -1, dtype=np.int8)
                    x[:ones0] = 1
                    x[nb - both:nb - both + shared] = 1
                    x[nb:nb + ones1] = 1
                    data.val = x
                    z.val = np.full((N, 2), -1, dtype=np.int8)
                    z.val[:nb, swap] = 1
                    z.val[nb - both:, 1 - swap] = 1
                    u.val = np.ones((1, 2), dtype=np.int8)
                    compare(R, layer, fct, (b, d, a, c, shared, swap))


def many(R):
    """many dimensions with cells of their own; many cells"""
    for L in (126, 127, 128, 129, 258):
        m, data, layer = machine('MAX-AND', np.ones((L + 1, 4), np.int8), L)
        fct = lbda_fct(layer.lbda)
        z, u = factors(layer)
        for s in range(3):
            z.val = np.full((L + 1, L), -1, dtype=np.int8)
            order = (np.arange(L) * (1, 5, 11)[s]) % L if L % 5 and L % 11 \
                else np.arange(L)[::1 - 2 * (s % 2)]
            z.val[order, np.arange(L)] = 1
            u.val = np.ones((4, L), dtype=np.int8)
            k = np.arange((L + 1) * 4).reshape(L + 1, 4)
            data.val = np.where(k * (s + 3) % 7 < 2, -1, np.where(
                k % 5 == 0, 0, 1)).astype(np.int8)
            want = []
            for n in list(order) + [L]:
                row = data.val[n].tolist()
                want.append((row.count(1) + 1) /
                            (row.count(1) + row.count(-1) + 2))
            want[-1] = min(want)
            layer.lbda.val = np.array([.4] * L + [.01])
            fct(layer.lbda)
            got = np.array(layer.lbda.val, dtype=float)
            R.eval(('many', L, s))
            R.check(got.shape == (L + 1,) and np.allclose(got, want, rtol=0,
                                                          atol=1e-9),
                    'MAX-AND lambdas of many dimensions', L=L, got=got,
                    expected=want)
    # more than 16 bit counts
    for N, D, k in ((182, 182, 0), (260, 260, 7), (1, 33000, 3)):
        m, data, layer = machine('MAX-AND', np.ones((N, D), np.int8), 2)
        fct = lbda_fct(layer.lbda)
        for x, on in itertools.product(PM, (0, 1, 2)):
            for f in factors(layer):
                f.val = np.full(f.val.shape, -1, dtype=np.int8)
                f.val[:, :on] = 1
            X = np.full((N, D), x, dtype=np.int8)
            X.reshape(-1)[:k] = -x
            data.val = relaid(X)
            layer.lbda.val = np.array([.4] * 2 + [.01])
            fct(layer.lbda)
            rate = (np.count_nonzero(X == 1) + 1) / (N * D + 2)
            # all cells belong to the first active dimension (or to the
            # clamped one), nothing is left for the others
            vals = [rate, .5, .5] if on else [.5, .5, rate]
            got = np.array(layer.lbda.val, dtype=float)
            wants = [vals, [vals[1], vals[0], vals[2]]]
            wants = [w[:2] + [min(w)] for w in wants]
            R.eval(('cells', N, D, x, on))
            R.check(any(np.allclose(got, w, rtol=0, atol=1e-9)
                        for w in (wants if on == 2 else wants[:1])),
                    'MAX-AND lambdas of many cells', shape=(N, D), x=x,
                    active=on, got=got, expected=wants)


def run(case, R):
    if case['kind'] == 'large':
        for N, D in ((1, 200), (20, 20), (300, 2), (1503, 1), (1, 1503)):
            for L in (1, 2, 3, 5):
                m, data, layer = machine('MAX-AND',
                                         np.ones((N, D), dtype=np.int8), L)
                fct = lbda_fct(layer.lbda)
                for pat in range(6):
                    for i, f in enumerate(factors(layer)):
                        k = np.arange(f.val.size).reshape(f.val.shape)
                        f.val = np.where((k * (pat + 1 + i)) % (pat + 3) < 2, 1,
                                         -1).astype(np.int8)
                    k = np.arange(N * D).reshape(N, D)
                    data.val = np.where(k % 7 == 0, 0, np.where(
                        k % (2 + pat) == 0, -1, 1)).astype(np.int8)
                    compare(R, layer, fct, (N, D, L, pat))
        return
    if case['kind'] == 'infer':
        g = np.random.RandomState(0)
        for rep in range(40):
            X = np.array(g.randint(-1, 2, (3, 3)), dtype=np.int8)
            m, data, layer = machine('MAX-AND', X, 1 + rep % 3)
            eng = rng.Policy(lambda i: (i * .37 + rep * .11) % 1)
            n = 1 + rep % 2
            eng.run(lambda: m.infer(no_samples=n, burn_in_min=rep % 3,
                                    burn_in_max=0))
            Z, U = [ref.tup(f.val) for f in factors(layer)]
            want = outcomes(Z, U, X)
            R.eval(rep)
            ok = [w for w in want if np.allclose(layer.lbda.val, w, atol=1e-9)]
            tr = layer.lbda.trace
            if not ok or tr.shape != (n, layer.size + 1) or \
                    not np.allclose(tr[-1], layer.lbda.val, atol=1e-6):
                R.violation('MAX-AND lambdas after inference do not belong to '
                            'the final factors', got=layer.lbda.val,
                            expected=sorted(want)[:3], trace=tr)
        return
    if case['kind'] == 'many':
        return many(R)
    if case['kind'] == 'close':
        return close(R)
    shape, L = tuple(case['shape']), case['L']
    m, data, layer = machine('MAX-AND', np.ones(shape, dtype=np.int8), L)
    fct = lbda_fct(layer.lbda)
    fs = factors(layer)
    for j, flat in enumerate(signs((sum(shape) * L,))):
        if j % case['parts'] != case['part']:
            continue
        fs[0].val = relaid(flat[:shape[0] * L].reshape(shape[0], L))
        fs[1].val = relaid(flat[shape[0] * L:].reshape(shape[1], L))
        for X in tris(shape):
            data.val = relaid(X)
            compare(R, layer, fct, (flat.tobytes(), X.tobytes()),
                    (.4, .99)[j % 2])
