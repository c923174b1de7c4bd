"""helpers shared by the checks"""
import itertools
import math

import numpy as np

from mc import env, rng, ref

lom = env.load()
aux = env.sys.modules['lom.auxiliary_functions']
experiments = env.sys.modules['lom.experiments']

PM = (-1, 1)
TRI = (-1, 0, 1)


def signs(shape):
    """all +1/-1 int8 arrays of a shape, simplest first"""
    n = int(np.prod(shape))
    for t in itertools.product(PM, repeat=n):
        yield np.array(t, dtype=np.int8).reshape(shape)


def tris(shape):
    n = int(np.prod(shape))
    for t in itertools.product((1, -1, 0), repeat=n):
        yield np.array(t, dtype=np.int8).reshape(shape)


def deviations(shape, base, values, k):
    """all arrays that differ from the constant `base` in at most k places"""
    n = int(np.prod(shape))
    for r in range(k + 1):
        for pos in itertools.combinations(range(n), r):
            for vals in itertools.product([v for v in values if v != base],
                                          repeat=r):
                a = np.full(n, base, dtype=np.int8)
                for p, v in zip(pos, vals):
                    a[p] = v
                yield a.reshape(shape)


def machine(model, X, L, **kw):
    """a machine with one layer on observed data"""
    m = lom.Machine()
    data = m.add_matrix(np.array(X, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=L, child=data, model=model)
    return m, data, layer


def layouts(a):
    """the same values in different places"""
    yield 'C', np.ascontiguousarray(a)
    yield 'F', np.asfortranarray(a)
    yield 'transposed', np.ascontiguousarray(a.T).T
    big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
    view = big[tuple(slice(None, None, 2) for _ in a.shape)]
    view[...] = a
    yield 'strided', view
    rev = a[::-1].copy()[::-1]
    yield 'reversed', rev
    off = np.zeros(a.size + 1, dtype=a.dtype)[1:].reshape(a.shape)
    off[...] = a
    yield 'offset', off
    ro = a.copy()
    ro.flags.writeable = False
    yield 'read only', ro


_turn = [1]


def new_case():
    """layouts of `relaid` start from the beginning"""
    _turn[0] = 1


def relaid(a):
    """a copy in the next one of several memory layouts (half of the copies
    are plain)"""
    _turn[0] = (_turn[0] * 1103515245 + 12345) & 0x7fffffff
    k = (_turn[0] >> 16) % 10
    if k == 0:
        return np.array(a, order='F')
    if k == 1:
        return np.array(a.T, order='C').T
    if k == 2:
        big = np.zeros(tuple(2 * s for s in a.shape), dtype=a.dtype)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if k == 3:
        return np.array(a[::-1], order='C')[::-1]
    return np.array(a, order='C')


def num(v):
    """the same number as another one of the types that users pass"""
    _turn[0] = (_turn[0] * 1103515245 + 12345) & 0x7fffffff
    k = (_turn[0] >> 16) % 6
    if float(v).is_integer():
        return (int, np.int64, np.int32, np.float64, float, float)[k](v)
    return (float, np.float64)[k % 2](v)


def factors(layer):
    return list(layer.factors)


def update_fct(mat):
    """the function inference uses to resample a matrix"""
    from lom import matrix_update_wrappers as w
    fct = env.seam(w, 'get_sampling_fct')(mat)
    mat.sampling_fct = fct
    return fct


def lbda_fct(parm):
    from lom import lambda_update_wrappers as w
    fct = env.seam(w, 'get_update_fct')(parm)
    parm.sampling_fct = fct
    return fct


def frozen(mat):
    """pin every entry"""
    mat.fixed_entries = np.ones(mat.val.shape, dtype=np.int8)


def snapshot(*arrays):
    return tuple(np.asarray(a).tobytes() for a in arrays)


def state_dist(mat, fct, start, max_paths=200000):
    """exact distribution of the matrix after one update from `start`,
    as dict bytes -> probability; also the engine"""
    eng = rng.Dfs(max_paths)
    form = relaid(start)

    def go():
        mat.val = form
        mat.val[...] = start
        fct(mat)
        return np.ascontiguousarray(mat.val).tobytes()
    return eng.distribution(go), eng


def site_rates(R, mat, fct, start, site, what, **detail):
    """one free entry: rates off->on and on->off of the real update; anything
    else has to stay as it is.  None if a violation was reported."""
    rates = []
    n_paths = 0
    a, b = start.copy(), start.copy()
    a[site], b[site] = -1, 1
    ka, kb = a.tobytes(), b.tobytes()
    approx = False
    for s, other in ((a, kb), (b, ka)):
        dist, eng = state_dist(mat, fct, s)
        n_paths += eng.paths
        approx |= eng.approx
        for k in dist:
            if k != ka and k != kb:
                R.violation(what + ': changes other entries or leaves the '
                            'domain', start=s, site=site,
                            result=np.frombuffer(k, dtype=np.int8)
                            .reshape(start.shape), **detail)
                return None
        rates.append(dist.get(other, 0.0))
        R.count('transitions', len(dist))
    R.count('traces_validated_against_impl', n_paths)
    R.count('states', 2)
    return rates[0], rates[1], approx


def balance_ok(rates, logit, tol=1e-6):
    """do off->on / on->off rates leave the conditional with these log odds
    invariant, and can the entry move at all?"""
    up, down, approx = rates
    if approx:
        p = ref.sigmoid(max(-700, min(700, logit)))
        return abs((1 - p) * up - p * down) < .08
    if logit == math.inf or logit > 600:
        return down < 1e-200 and up > 0
    if logit == -math.inf or logit < -600:
        return up < 1e-200 and down > 0
    if abs(logit) > 24:
        # 1 - p cannot be told from 1 accurately in double precision
        likely, rare = (up, down) if logit > 0 else (down, up)
        return likely > 0 and rare <= 2e-10 * likely
    if up <= 0 or down <= 0:
        return False
    return abs(math.log(up) - math.log(down) - logit) <= tol * (1 + abs(logit)) + \
        4e-16 * math.exp(abs(logit))


def implied(rates):
    up, down, _ = rates
    if up <= 0 or down <= 0:
        return dict(off_to_on=up, on_to_off=down)
    return dict(off_to_on=up, on_to_off=down,
                implied_log_odds=math.log(up) - math.log(down))


def chunks(seq, n):
    seq = list(seq)
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]
