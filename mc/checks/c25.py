"""
C25: generators of synthetic data have the documented properties.

 matrix   - random_machine_matrix: all random outcomes, exact distribution
 disjoint - the predicate on columns: all binary matrices up to a size
 product  - generate_orm_product: all first outcomes up to a number of bits
            (then a fixed sequence, as the generator tries until it succeeds)
 tensor   - generate_random_tensor: all random outcomes of small tensors
 reconstruct - tensorm_reconstruct: all small tensors in all codings, the same
            random numbers
"""
import itertools

import numpy as np

from mc import env, ref, rng
from mc.common import aux, experiments, relaid, signs

ID = 'C25'
LEVEL = 'model_checking'
RULE = ('one evaluation = one generated object (distribution, predicate,'
        ' product or reconstruction); non-trivial = distinct parameters or'
        ' random outcomes')
ASSUMPTIONS = ['random numbers are ideal']
BOUNDS = {'quick': 'matrices of up to 8 entries, 8 probabilities; predicate:'
                   ' up to 12 entries; product: first 9 random bits, 8 sizes,'
                   ' all random bits of the first attempt for 5 sizes;'
                   ' tensors of up to 4 entries',
          'thorough': 'up to 12 entries; predicate 16; product 13 bits;'
                      ' reconstruction of all tensors of 6 entries'}


def cases(tier):
    t = tier == 'thorough'
    out = [dict(kind='matrix', bits=12 if t else 8, p=p)
           for p in (0., .05, .25, .5, .6, .9, .999, 1.)]
    n = 16 if t else 12
    for K in range(1, n + 1):
        for L in range(1, 6):
            if K * L <= n:
                out.append(dict(kind='disjoint', K=K, L=L))
    for n in (127, 128, 129, 130, 255, 256, 257, 300):
        out.append(dict(kind='long', n=n))
    for N, D, L in ((2, 2, 2), (3, 2, 1), (2, 3, 2), (3, 3, 3), (4, 3, 2),
                    (3, 5, 3), (1, 1, 1), (6, 4, 3)):
        for part in range(8):
            out.append(dict(kind='product', N=N, D=D, L=L, part=part,
                            bits=13 if t else 9))
    for N, D, L in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 1), (3, 3, 2)) + (
            ((4, 3, 2), (3, 3, 3)) if t else ()):
        out.append(dict(kind='pairs', N=N, D=D, L=L))
    for dims in ((1, 1, 1), (1, 1, 2), (2, 1, 1), (1, 2, 1)) + (
            ((2, 2, 1), (1, 2, 2)) if t else ()):
        for L in (1, 2):
            for noise in (0, .2) + ((.001, .999) if sum(dims) == 3 else ()):
                for density in (.4, .05, .9, .001, .995) \
                        if sum(dims) == 3 else (.4,):
                    out.append(dict(kind='tensor', dims=dims, L=L,
                                    noise=noise, density=density))
    for L in (3,):
        for density in (.25, .7):
            out.append(dict(kind='tensor', dims=(1, 1, 1), L=L, noise=0,
                            density=density))
    for k in range(4):
        out.append(dict(kind='reconstruct', part=k,
                        shape=(2, 1, 3) if t else (2, 2, 1)))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def matrix(case, R):
    fct = env.seam(aux, 'random_machine_matrix')
    p = case['p']
    for shape in ((1,), (3,), (1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (2, 4),
                  (8, 1), (3, 4), (2, 2, 1), (2, 2, 2), (1, 3, 2)):
        n = int(np.prod(shape))
        if n > case['bits']:
            continue

        def go():
            m = fct(p, shape)
            return (m.shape, bool(np.all(np.abs(np.array(m, dtype=int)) == 1)),
                    tuple(int(x) for x in np.ravel(m)))
        eng = rng.Dfs()
        dist = eng.distribution(go)
        bad = [k for k in dist if k[0] != shape or not k[1]]
        R.check(not bad, 'random matrix is not +-1 of the requested shape',
                shape=shape, p=p, got=bad[:2])
        for bits in itertools.product((-1, 1), repeat=n):
            k = bits.count(1)
            want = p**k * (1 - p)**(n - k)
            got = dist.get((shape, True, bits), 0.)
            if abs(want - got) > 1e-9:
                R.violation('entries of a random matrix are not independent'
                            ' with the requested probability of ones',
                            shape=shape, p=p, matrix=bits, probability=got,
                            wanted=want)
                break
        R.eval((shape, p))
        R.count('states', len(dist))
        R.count('transitions', eng.paths)
        R.count('traces_validated_against_impl', eng.paths)
    R.sample(dict(p=p, shape=shape))


def contained(m):
    """is there a column whose ones are contained in those of another?"""
    sets = [frozenset(int(i) for i in np.flatnonzero(m[:, l] == 1))
            for l in range(m.shape[1])]
    return any(a <= b for a, b in itertools.permutations(sets, 2))


def disjoint(case, R):
    fct = env.seam(aux, 'all_columsn_are_disjoint')
    K, L = case['K'], case['L']
    for bits in itertools.product((0, 1), repeat=K * L):
        m = np.array(bits, dtype=np.int8).reshape(K, L)
        for name, x in (('binary', m), ('sign', 2 * m - 1)):
            x = relaid(x)
            keep = x.copy()
            got = bool(fct(x))
            R.check(got == (not contained(m)), 'predicate on contained'
                    ' columns', coding=name, matrix=m, got=got)
            R.check(np.array_equal(x, keep), 'predicate changes the matrix')
        R.eval(bits)
        R.count('states')
        R.count('transitions', 2)
        R.count('traces_validated_against_impl', 2)
    R.sample(dict(matrix=m, got=got))


def long(case, R):
    """many rows or latent dimensions"""
    fct = env.seam(aux, 'all_columsn_are_disjoint')
    n = case['n']
    # two or three columns: sizes of their parts and of the overlap
    for a, b, ab in itertools.product((0, 1, n), repeat=3):
        for more in (0, 1):
            parts = [[1, 0]] * a + [[0, 1]] * b + [[1, 1]] * ab
            m = np.array(parts + [[0, 0]], dtype=np.int8)
            if more:
                m = np.hstack([m, np.zeros((len(m), 1), dtype=np.int8)])
                m[-1, -1] = 1
            for x in (m, 2 * m - 1):
                got = bool(fct(x))
                R.check(got == (not contained(m)), 'predicate on contained'
                        ' columns', sizes=(a, b, ab), more=more, got=got)
            R.eval(('disjoint', n, a, b, ab, more))
            R.count('states')
            R.count('transitions', 2)
            R.count('traces_validated_against_impl', 2)
    prod = env.seam(aux, 'boolean_tensor_product')
    for shape in ((1, 1, 1), (1, 2, 2), (2, 2, 1)) + (
            ((1, 1, n), (n, 1, 1), (1, n, 1)) if n in (127, 300) else ()):
        for bits in itertools.product((0, 1, 2, 3), repeat=3):
            # rows: none, all, all but one, only the last
            L = n if max(shape) < 3 else 3
            row = [np.zeros(L, dtype=bool), np.ones(L, dtype=bool),
                   np.arange(L) < L - 1, np.arange(L) == L - 1]
            fs = [np.array([row[(b + k) % 4] for k in range(s)])
                  for b, s in zip(bits, shape)]
            want = np.array([[[np.any(z & u & v) for v in fs[2]]
                              for u in fs[1]] for z in fs[0]])
            for t in (bool, np.int8):
                got = prod(*[f.astype(t) for f in fs])
                R.check(np.array_equal(np.asarray(got, dtype=bool), want),
                        'Boolean product of three factors', L=L, rows=bits,
                        got=got, wanted=want)
            R.eval(('product', n, shape, bits))
            R.count('states')
            R.count('transitions', 2)
            R.count('traces_validated_against_impl', 2)


def mixed(i):
    """fixed sequence in [0,1) without structure (splitmix64)"""
    M = 2**64 - 1
    z = (i + 1) * 0x9E3779B97F4A7C15 & M
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9 & M
    z = (z ^ z >> 27) * 0x94D049BB133111EB & M
    return ((z ^ z >> 31) >> 11) / 2.**53


def product(case, R):
    fct = env.seam(aux, 'generate_orm_product')
    N, D, L, bits = case['N'], case['D'], case['L'], case['bits']
    per = 2**bits // 8
    for code in range(case['part'] * per, (case['part'] + 1) * per):
        def table(i):
            if i < bits:
                return .75 if code >> i & 1 else .25
            return mixed(i * 1009 + code)
        U, Z, X = rng.Policy(table).run(lambda: fct(N=N, D=D, L=L))
        d = dict(N=N, D=D, L=L, first_bits=code, U=U, Z=Z, X=X)
        R.check(U.shape == (D, L) and Z.shape == (N, L) and X.shape == (N, D),
                'shapes of a generated product', **d)
        if not all(np.all(np.abs(np.array(a, dtype=int)) == 1)
                   for a in (U, Z, X)):
            R.violation('a generated product is not coded as +-1', **d)
        want = np.array([[1 if any(Z[n, l] == 1 == U[k, l] for l in range(L))
                          else -1 for k in range(D)] for n in range(N)])
        R.check(np.array_equal(X, want), 'X is not the Boolean product of the'
                ' returned factors', wanted=want, **d)
        R.check(not contained(U) and not contained(Z),
                'ones of a column of a generated factor are contained in'
                ' another', **d)
        R.eval((N, D, L, U.tobytes(), Z.tobytes(), code))
        R.count('states')
        R.count('transitions', N * D)
        R.count('traces_validated_against_impl')
    R.sample(d)


class Ends(rng.Dfs):
    """all outcomes of the first choices, the others depend on these"""
    first = 12

    def choose(self, probs):
        if self.pos < self.first:
            return super().choose(probs)
        opts = [i for i, p in enumerate(probs) if p > 0]
        self.more = getattr(self, 'more', 0) + 1
        code = sum((k + 1) * 31**i for i, (_, k, _) in enumerate(self.trail))
        return opts[int(mixed(code + 7919 * self.more) * len(opts))]


def pairs(case, R):
    """factors are random: every pair that is allowed is generated"""
    fct = env.seam(aux, 'generate_orm_product')
    N, D, L = case['N'], case['D'], case['L']
    eng = Ends()
    eng.first = (N + D) * L
    seen = {}

    def go():
        eng.more = 0
        U, Z, X = fct(N=N, D=D, L=L)
        return U.tobytes(), Z.tobytes()
    for _, r in eng.explore(go):
        seen[r] = seen.get(r, 0) + 1
    U, Z = fct(N=N, D=D, L=L)[:2]
    for a in signs((D, L)):
        for b in signs((N, L)):
            if contained(a) or contained(b):
                continue
            R.eval((N, D, L, a.tobytes(), b.tobytes()))
            R.check((a.astype(U.dtype).tobytes(), b.astype(Z.dtype).tobytes())
                    in seen, 'a pair of factors is never generated', N=N, D=D,
                    L=L, U=a, Z=b)
    R.count('states', len(seen))
    R.count('transitions', eng.paths)
    R.count('traces_validated_against_impl', eng.paths)


def tensor(case, R):
    fct = env.seam(experiments, 'generate_random_tensor')
    dims, L, noise = tuple(case['dims']), case['L'], case['noise']
    density = case['density']

    def go():
        Xn, X, fs, dens = fct(L, dims, noise=noise, density=density)
        ok = (X.shape == dims and Xn.shape == dims and len(fs) == 3 and
              [f.shape for f in fs] == [(n, L) for n in dims])
        if not ok:
            return False, 0, None, None
        bits = tuple(bool(x) for f in fs for x in np.ravel(f == 1))
        prod = np.zeros(dims, dtype=bool)
        for i in np.ndindex(*dims):
            prod[i] = any(all(f[k, l] == 1 for f, k in zip(fs, i))
                          for l in range(L))
        same = np.array_equal(np.array(X == 1), prod)
        return (same, round(float(dens), 12), bits,
                tuple(bool(x) for x in np.ravel((Xn == 1) != (X == 1))))
    eng = rng.Dfs(3000000)
    dist = eng.distribution(go)
    R.check(all(k[0] for k in dist), 'tensor is not the Boolean product of'
            ' the returned factors', dims=dims, L=L)
    nb, nc = sum(dims) * L, int(np.prod(dims))
    for (ok, dens, bits, flips), p in dist.items():
        if not ok:
            continue
        k, f = sum(bits), sum(flips)
        want = dens**k * (1 - dens)**(nb - k) * noise**f * \
            (1 - noise)**(nc - f)
        if abs(p - want) > 1e-9:
            R.violation('factors or noise of a random tensor are not'
                        ' independent with the reported densities', dims=dims,
                        L=L, noise=noise, factors=bits, flips=flips,
                        probability=p, wanted=want)
            break
    R.check(abs(sum(dist.values()) - 1) < 1e-9, 'probabilities')
    # the factors are as dense as it takes for the tensor
    cells = {}
    for (ok, dens, bits, flips), p in dist.items():
        if not ok:
            continue
        fs = [np.array(b).reshape(n, L) for b, n in zip(
            np.split(np.array(bits), np.cumsum(dims)[:-1] * L), dims)]
        for i in np.ndindex(*dims):
            if any(all(f[k, l] for f, k in zip(fs, i)) for l in range(L)):
                cells[i] = cells.get(i, 0.) + p
    for i in np.ndindex(*dims):
        if not R.check(abs(cells.get(i, 0.) - density) < 1e-6, 'expected'
                       ' density of a random tensor is not the requested one',
                       dims=dims, L=L, cell=i, probability=cells.get(i, 0.),
                       wanted=density):
            break
    R.eval((dims, L, noise))
    R.count('states', len(dist))
    R.count('transitions', eng.paths)
    R.count('traces_validated_against_impl', eng.paths)
    R.sample(dict(dims=dims, L=L, noise=noise, outcomes=len(dist)))


TAB = [lambda i: (i * .6180339887 + .21) % 1,
       lambda i: (i * i * .4142135623 + .77) % 1]


def reconstruct(case, R):
    fct = env.seam(experiments, 'tensorm_reconstruct')
    shape = tuple(case['shape'])
    for j, X in enumerate(signs(shape)):
        if j % 4 != case['part']:
            continue
        codings = [('sign', X), ('binary', (X + 1) // 2),
                   ('bool', X == 1), ('float', (X + 1) / 2.),
                   ('sign int64', X.astype(np.int64)),
                   ('sign float', X.astype(float))]
        if np.all(X == 1):
            pass            # both codings coincide
        base = None
        tab = TAB[j % 2]
        L = 1 + j % 2
        for name, x in codings:
            x = relaid(x)
            keep = x.copy()
            out, fs, plug = rng.Policy(tab).run(lambda: fct(x, L))
            d = dict(coding=name, data=X, L=L)
            R.check(np.array_equal(x, keep), 'reconstruction changes the'
                    ' data', **d)
            R.check([f.shape for f in fs] == [(n, L) for n in shape],
                    'shapes of the factors of a reconstruction', **d)
            for i in np.ndindex(*shape):
                rows = tuple(tuple(.5 * (float(v) + 1) for v in f[k])
                             for f, k in zip(fs, i))
                if abs(out[i] - ref.f_prob('OR-AND', rows)) > 1e-6:
                    R.violation('reconstruction is not the probability of a'
                                ' one', got=out[i], cell=i,
                                wanted=ref.f_prob('OR-AND', rows), **d)
                    break
                if any(v == .5 for r in rows for v in r):
                    continue
                hard = tuple(tuple(1 if v > .5 else -1 for v in r)
                             for r in rows)
                want = ref.f('OR-AND', hard) == 1
                R.check((plug[i] > .5) == want, 'plug-in reconstruction is'
                        ' not that of the most frequent factors', cell=i,
                        got=plug[i], **d)
            res = [out.tobytes(), plug.tobytes()] + [f.tobytes() for f in fs]
            if base is None:
                base = res
                layer = rng.Policy(tab).run(
                    lambda: fct(x, L, return_layer=True))
                R.check([np.asarray(f.mean()).tobytes() for f in
                         layer.factors] == res[2:] and layer.size == L and
                        np.array_equal(layer.child(), X),
                        'the returned layer is not that of the'
                        ' reconstruction', **d)
            R.check(res == base, 'reconstruction depends on the coding of the'
                    ' data', **d)
            R.eval((X.tobytes(), name))
            R.count('states')
            R.count('transitions')
            R.count('traces_validated_against_impl')
    R.sample(dict(data=X, reconstruction=out))
