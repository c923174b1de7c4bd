"""
C16: cleaning up removes (or resets) exactly the latent dimensions that are
empty in a factor or repeat an earlier dimension in a factor; everything else
stays what and where it was, and everything that belongs to a dimension goes
with it.

 direct - all states: the clean-up routine against a reference
 infer  - all states: complete inference runs with auto_clean / auto_reset,
          scripted samplers, one or two layers
 live   - real samplers with clean-up, all combinations of adversaries:
          sizes of everything remain consistent
"""
import itertools

import numpy as np

from mc import env, ref, rng
from mc.common import aux, factors, lom, machine, relaid, signs

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('one evaluation = one clean-up (direct or in a complete call of infer)'
        ' of one state compared with the reference; non-trivial = distinct'
        ' (model, mode, state, fixed entries) in which a dimension goes')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'samples recorded before a clean-up are not adjusted']
BOUNDS = {'quick': 'all states: two factors with N*L, D*L: (1,1,L<=5),'
                   ' (2,1,L<=4), (2,2,L<=3); three factors (1,1,1,L<=4),'
                   ' (2,1,1,L<=3); one fixed entry at every place;'
                   ' structured up to 1000 rows or 258 dimensions',
          'thorough': '(2,2,4), (3,2,3), (2,2,1,3)'}

DIRECT = [(1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1)]


def cases(tier):
    t = tier == 'thorough'
    out = []
    for mode in ('clean', 'reset'):
        for shape, Ls in [((1, 1), (1, 2, 3, 4, 5)), ((2, 1), (1, 2, 3, 4)),
                          ((1, 2), (2, 3)), ((2, 2), (2, 3)),
                          ((1, 1, 1), (1, 2, 3, 4)), ((2, 1, 1), (2, 3)),
                          ((1, 1, 2), (3,))] + (
                [((2, 2), (4,)), ((3, 2), (3,)), ((2, 2, 1), (3,))]
                if t else []):
            for L in Ls:
                for model in (('OR-AND', 'MAX-AND') if len(shape) == 2
                              else ('OR-AND',)):
                    parts = 4 if sum(shape) * L >= 12 else 1
                    for p in range(parts):
                        out.append(dict(kind='direct', mode=mode, shape=shape,
                                        L=L, model=model, part=p,
                                        parts=parts))
        for shape, L in [((1, 1), 3), ((2, 1), 2), ((2, 1), 3), ((1, 2), 3),
                         ((1, 1, 1), 3)] + ([((2, 2), 3)] if t else []):
            for model in (('OR-AND', 'XOR-AND', 'MAX-AND')
                          if len(shape) == 2 else ('OR-AND',)):
                out.append(dict(kind='infer', mode=mode, shape=shape, L=L,
                                model=model))
        out.append(dict(kind='two', mode=mode))
        for model in ('OR-AND', 'XOR-AND', 'MAX-AND'):
            out.append(dict(kind='tall', mode=mode, model=model))
    for axis in (0, 1):
        for L in (1, 2, 3):
            out.append(dict(kind='above', axis=axis, L=L))
    for model in ref.MODELS + ('MAX-AND', 'qL-AND'):
        for K in (2, 3):
            if K == 3 and model not in ref.MODELS:
                continue
            out.append(dict(kind='live', model=model, K=K))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


# ------------------------------------------------------------ reference
def empty(mats, l):
    return any(all(v == -1 for v in m[:, l]) for m in mats)


def repeats(mats, a, b):
    return any((m[:, a] == m[:, b]).all() for m in mats)


def ref_clean(mats):
    """indices of the dimensions that stay"""
    keep = []
    for l in range(mats[0].shape[1]):
        if not empty(mats, l) and not any(repeats(mats, k, l) for k in keep):
            keep.append(l)
    return keep


def ref_reset(mats, fixed_entries, fixed):
    """new matrices, is any dimension concerned?"""
    mats = [m.copy() for m in mats]
    L = mats[0].shape[1]
    hit = False

    def wipe(l):
        for m, fe, fx in zip(mats, fixed_entries, fixed):
            if not fx:
                m[fe[:, l] != 1, l] = -1
    for l in range(L):
        if empty(mats, l):
            wipe(l)
            hit = True
    for a in range(L):
        for b in range(a + 1, L):
            if repeats(mats, a, b):
                wipe(b)
                hit = True
    return mats, hit


def all_states(shape, L):
    sizes = [n * L for n in shape]
    for bits in itertools.product((-1, 1), repeat=sum(sizes)):
        out, i = [], 0
        for n, s in zip(shape, sizes):
            out.append(np.array(bits[i:i + s], dtype=np.int8).reshape(n, L))
            i += s
        yield out


def build(model, shape, L):
    X = np.ones(shape, dtype=np.int8)
    return machine(model, X, L)


def marks(layer, where):
    """fixed entries that identify their column"""
    for k, f in enumerate(factors(layer)):
        f.fixed_entries = np.zeros(f.val.shape, dtype=np.int8)
        if where is not None and where[0] == k:
            f.fixed_entries[where[1], where[2]] = 1


def compare_clean(R, layer, state, fe0, lam0, model, what, **detail):
    keep = ref_clean(state)
    for k, f in enumerate(factors(layer)):
        if not R.check(f().shape == (state[k].shape[0], len(keep)) and
                       (f() == state[k][:, keep]).all(),
                       what + ': other dimensions than the empty and repeated'
                       ' ones are gone or changed', state=state, keep=keep,
                       factor=k, got=f(), **detail):
            return
        R.check(np.asarray(f.fixed_entries).shape == f().shape and
                (f.fixed_entries == fe0[k][:, keep]).all(),
                what + ': fixed entries not aligned with the dimensions',
                state=state, keep=keep, factor=k, got=f.fixed_entries,
                **detail)
        R.check(f().dtype == np.int8, what + ': data type changed')
    R.check(layer.size == len(keep), what + ': layer size', state=state,
            size=layer.size, **detail)
    if model == 'MAX-AND':
        R.check(np.array_equal(layer.lbda(), np.append(lam0[:-1][keep],
                                                       lam0[-1])),
                what + ': lambdas not aligned with the dimensions',
                state=state, keep=keep, got=layer.lbda(), **detail)


def direct(case, R):
    shape, L, model = tuple(case['shape']), case['L'], case['model']
    clean = case['mode'] == 'clean'
    fct = env.seam(aux, 'clean_up_codes')
    m, d, layer = build(model, shape, L)
    lam0 = np.array([.9 - .1 * l for l in range(L)] + [.05])
    sites = [None] + [(k, n, l) for k in range(len(shape))
                      for n in range(shape[k]) for l in range(L)]
    for i, state in enumerate(all_states(shape, L)):
        if i % case['parts'] != case['part']:
            continue
        some = sites if i % 7 == 0 else [None, sites[1 + i % (len(sites) - 1)]]
        for where in some:
            for f, s in zip(factors(layer), state):
                f.val = relaid(s)
                f.fixed = False
            marks(layer, where)
            fe0 = [f.fixed_entries.copy() for f in factors(layer)]
            if model == 'MAX-AND':
                layer.lbda.val = lam0.copy()
            got = fct(layer, reset=not clean, clean=clean)
            if clean:
                hit = len(ref_clean(state)) < L
                compare_clean(R, layer, state, fe0, lam0, model, 'clean-up',
                              fixed_entry=where)
            else:
                exp, hit = ref_reset(state, fe0, [False] * len(shape))
                for k, f in enumerate(factors(layer)):
                    R.check(np.array_equal(f(), exp[k]),
                            'reset: other dimensions than the empty and'
                            ' repeated ones changed, or they did not',
                            state=state, fixed_entry=where, factor=k,
                            got=f(), expected=exp[k])
                if model == 'MAX-AND':
                    R.check(np.array_equal(layer.lbda(), lam0),
                            'reset changes lambda', got=layer.lbda())
            R.check(bool(got) == hit, 'return value does not tell whether'
                    ' there were such dimensions', state=state, got=got,
                    mode=case['mode'])
            R.eval((i, where) if hit else None)
            R.count('states')
            R.count('transitions')
            R.count('traces_validated_against_impl')
    R.sample(dict(last_state=state, hit=hit))
    if not clean:               # a fixed matrix is never reset
        for i, state in enumerate(all_states(shape, L)):
            if i % (4 * case['parts']) != case['part']:
                continue
            for k0 in range(len(shape)):
                for k, (f, s) in enumerate(zip(factors(layer), state)):
                    f.val = relaid(s)
                    f.fixed = k == k0
                marks(layer, None)
                fe0 = [f.fixed_entries.copy() for f in factors(layer)]
                fct(layer, reset=True, clean=False)
                exp, hit = ref_reset(state, fe0, [k == k0 for k in
                                                  range(len(shape))])
                for k, f in enumerate(factors(layer)):
                    R.check(np.array_equal(f(), exp[k]),
                            'reset with a fixed factor', state=state,
                            fixed=k0, factor=k, got=f(), expected=exp[k])
                R.eval((i, 'fixed', k0) if hit else None)
                R.count('states')


def tall_columns(n):
    """columns of one factor: equal, opposite, nearly equal, nearly empty"""
    base = np.where(np.arange(n) % 3 == 0, 1, -1)
    none, one, last = np.full(n, -1), np.full(n, -1), np.full(n, -1)
    one[0], last[-1] = 1, 1
    near = base.copy()
    near[-1] *= -1
    half = base.copy()
    half[:n // 2] *= -1
    many = base.copy()
    many[:min(128, n)] *= -1
    return [base, -base, none, one, last, near, half, many, np.full(n, 1)]


def tall(case, R):
    """more entries of a factor than narrow integers can count, more latent
    dimensions than they can number"""
    clean, model = case['mode'] == 'clean', case['model']
    fct = env.seam(aux, 'clean_up_codes')
    states = []
    for n in (127, 128, 129, 255, 256, 257, 512, 1000):
        cols = tall_columns(n)
        other = [np.array(c) for c in ((1, 1, -1), (1, -1, 1), (-1, 1, 1))]
        for t in itertools.product(range(len(cols)), repeat=2):
            if (t[0] + t[1] + n) % 2:
                continue
            u = [other[0], other[1], other[2]]
            z = [cols[t[0]], cols[t[1]], cols[8]]
            states.append([np.array(z, dtype=np.int8).T.copy(),
                           np.array(u, dtype=np.int8).T.copy()])
    for L in (127, 128, 129, 258):
        # as many different columns, then some of them repeated or empty
        for rep in ((), (L - 1,), (1, L - 1), (L // 2, L - 2)):
            z = -np.ones((10, L), dtype=np.int8)
            for l in range(L):
                for b in range(9):
                    z[b, l] = 1 if l >> b & 1 else -1
            z[9] = 1
            u = np.ones((10, L), dtype=np.int8)
            u[:9] = z[:9][::-1]
            for r in rep:
                z[:, r] = -1 if r == 1 else z[:, 0]
            states.append([z, u])
            states.append([u.copy(), z.copy()])
    for i, state in enumerate(states):
        shape, L = [len(s) for s in state], state[0].shape[1]
        m, d, layer = build(model, shape, L)
        lam0 = np.linspace(.95, .05, L + 1)
        for f, s in zip(factors(layer), state):
            f.val = relaid(s)
        marks(layer, (i % 2, 0, L - 1) if i % 3 == 0 else None)
        if model == 'MAX-AND':
            layer.lbda.val = lam0.copy()
        fe0 = [f.fixed_entries.copy() for f in factors(layer)]
        got = fct(layer, reset=not clean, clean=clean)
        if clean:
            hit = len(ref_clean(state)) < L
            compare_clean(R, layer, state, fe0, lam0, model, 'clean-up')
        else:
            exp, hit = ref_reset(state, fe0, [False] * 2)
            R.check(all(np.array_equal(f(), e) for f, e in zip(
                factors(layer), exp)), 'reset: other dimensions than the empty'
                ' and repeated ones changed, or they did not', shape=shape,
                L=L, state=i)
        R.check(bool(got) == hit, 'return value does not tell whether there '
                'were such dimensions', shape=shape, L=L, got=got, state=i)
        R.eval(('tall', i) if hit else None)
        R.count('states')
        R.count('transitions')
        R.count('traces_validated_against_impl')


# ------------------------------------------------------------- inference
def stay(x):
    return None


def scripted(m):
    for mat in m.members:
        mat.sampling_fct = stay
    for lbda in m.lbdas:
        lbda.sampling_fct = stay


def expected_after_infer(state, fe, mode, rounds):
    """samplers do nothing and lambda is constant, so that every check of
    convergence succeeds"""
    if mode == 'clean':
        keep = ref_clean(state)
        return [s[:, keep] for s in state], keep
    for _ in range(rounds):
        state, hit = ref_reset(state, fe, [False] * len(state))
        if not hit:
            return state, list(range(state[0].shape[1]))
    keep = ref_clean(state)
    return [s[:, keep] for s in state], keep


def infer(case, R):
    shape, L, model = tuple(case['shape']), case['L'], case['model']
    lam0 = np.array([.9 - .1 * l for l in range(L)] + [.05])
    for i, state in enumerate(all_states(shape, L)):
        m, d, layer = build(model, shape, L)
        for f, s in zip(factors(layer), state):
            f.val = relaid(s)
        if model == 'MAX-AND':
            layer.lbda.val = lam0.copy()
        scripted(m)
        layer.auto_clean = case['mode'] == 'clean'
        layer.auto_reset = case['mode'] == 'reset'
        if case['mode'] == 'clean' and len(ref_clean(state)) == 0:
            continue            # nothing would be left
        rng.Policy(.5).run(lambda: m.infer(
            no_samples=2, convergence_window=2, burn_in_min=i % 2,
            burn_in_max=9))
        fe = [np.zeros(s.shape, dtype=np.int8) for s in state]
        exp, keep = expected_after_infer(state, fe, case['mode'], 3)
        moved = len(keep) < L or any((a != b).any()
                                     for a, b in zip(exp, state))
        for k, f in enumerate(factors(layer)):
            if not R.check(f().shape == exp[k].shape and
                           (f() == exp[k]).all(),
                           'infer with auto_%s: factors' % case['mode'],
                           model=model, state=state, factor=k, got=f(),
                           expected=exp[k]):
                break
            R.check(f.trace.shape == (2,) + exp[k].shape and
                    (f.trace == exp[k]).all(),
                    'infer with auto_%s: samples' % case['mode'], state=state,
                    got=f.trace)
            R.check(f.fixed_entries.shape == f().shape,
                    'infer with auto_%s: fixed entries' % case['mode'])
        if model == 'MAX-AND':
            R.check(np.array_equal(layer.lbda(), np.append(
                lam0[:-1][keep], lam0[-1])), 'infer with auto_%s: lambda' %
                case['mode'], state=state, got=layer.lbda())
        if keep:
            layer.output()
        R.eval((i,) if moved else None)
        R.count('states')
        R.count('transitions', 3)
        R.count('traces_validated_against_impl')
    R.sample(dict(state=state, expected=exp))


def two(case, R):
    """two independent layers on two data matrices, and a layer that is not
    to be cleaned"""
    L, shape = 2, (2, 1)
    states = list(all_states(shape, L))
    for i, (a, b) in enumerate(itertools.product(states, states)):
        m = lom.Machine()
        layers = []
        for s in (a, b, a):
            d = m.add_matrix(np.ones(shape, dtype=np.int8), fixed=True)
            layer = m.add_layer(latent_size=L, child=d, model='OR-AND')
            for f, v in zip(factors(layer), s):
                f.val = relaid(v)
            layers.append(layer)
        scripted(m)
        if case['mode'] == 'clean' and not (ref_clean(a) and ref_clean(b)):
            continue
        for layer in layers[:2]:
            layer.auto_clean = case['mode'] == 'clean'
            layer.auto_reset = case['mode'] == 'reset'
        rng.Policy(.5).run(lambda: m.infer(
            no_samples=1, convergence_window=2, burn_in_min=0,
            burn_in_max=9))
        fe = [np.zeros(s.shape, dtype=np.int8) for s in a]
        # burn-in goes on as long as one of the layers has such dimensions
        if case['mode'] == 'reset':
            sa, sb = a, b
            keep = [[0, 1], [0, 1]]
            for _ in range(3):
                sa, ha = ref_reset(sa, fe, [False, False])
                sb, hb = ref_reset(sb, fe, [False, False])
                if not (ha or hb):
                    break
            else:
                keep = [ref_clean(sa), ref_clean(sb)]
            exps = [[x[:, k] for x in s] for s, k in zip((sa, sb), keep)]
        else:
            exps = [expected_after_infer(s, fe, 'clean', 3)[0]
                    for s in (a, b)]
        exps.append(a)
        for n, (layer, exp) in enumerate(zip(layers, exps)):
            for k, f in enumerate(factors(layer)):
                R.check(f().shape == exp[k].shape and (f() == exp[k]).all(),
                        'clean-up with several layers', mode=case['mode'],
                        states=[a, b], layer=n, got=f(), expected=exp[k])
        R.eval((i,))
        R.count('states')
        R.count('traces_validated_against_impl')


def above(case, R):
    """layers above (and above these) lose the entries of the dimensions
    that are removed, layers below nothing"""
    L, axis, shape = case['L'], case['axis'], (2, 1)
    fct = env.seam(aux, 'clean_up_codes')
    for i, state in enumerate(all_states(shape, L)):
        for top in range(8):
            m, d, layer = build('OR-AND', shape, L)
            f = factors(layer)
            for x, s in zip(f, state):
                x.val = relaid(s)
            # next to the factor, and on both sides of its features
            up = m.add_layer(latent_size=2, child=f[axis], model='OR-AND')
            more = [m.add_layer(latent_size=2, child=f[axis],
                                model='XOR-AND')] if top & 1 else []
            more += [m.add_layer(latent_size=1, child=factors(up)[k],
                                 model='OR-AND')
                     for k in (0, 1)] if top & 2 else []
            ql = None
            if top & 4:         # one threshold per feature
                ql = m.add_layer(latent_size=2, child=f[axis],
                                 model='qL-AND')
                more.append(ql)
                j = np.arange(L)[None]
                ql.q.val = (1 + (j + i) % 2).astype(ql.q.val.dtype)
                ql.q.fixed_entries = (j % 2).astype(np.int8)
                oldq = ql.q.val.copy(), ql.q.fixed_entries.copy()
            rows = []       # (matrix, are its rows the dimensions?)
            for y in [up] + more:
                for k, x in enumerate(factors(y)):
                    dims = k == 1 if y.child is f[axis] else \
                        k == 0 and y.child is factors(up)[1]
                    rows.append((x, dims))
            for n, (x, _) in enumerate(rows):
                j = np.arange(x.val.size).reshape(x.val.shape)
                x.val = np.where((j * 7 + n) % 5 < 2, 1, -1).astype(np.int8)
                x.fixed_entries = ((j + n) % 3 == 0).astype(np.int8)
            old = [(x.val.copy(), x.fixed_entries.copy()) for x, _ in rows]
            keep = ref_clean(state)
            got = fct(layer, reset=False, clean=True)
            if not R.check(bool(got) == (len(keep) < L) and
                           all(np.array_equal(x(), s[:, keep])
                               for x, s in zip(f, state)),
                           'clean-up below other layers', state=state,
                           keep=keep):
                return
            for (x, dims), (v, fe) in zip(rows, old):
                want = (v[keep], fe[keep]) if dims else (v, fe)
                if not R.check(np.array_equal(x(), want[0]) and
                               np.array_equal(x.fixed_entries, want[1]),
                               'clean-up: the layers above do not lose exactly '
                               'the entries of the dimensions that go',
                               state=state, keep=keep, layers=top,
                               got=x(), expected=want[0]):
                    return
            if ql is not None:
                R.check(np.array_equal(ql.q(), oldq[0][:, keep]) and
                        np.array_equal(ql.q.fixed_entries,
                                       oldq[1][:, keep]), 'clean-up: the'
                        ' thresholds of a layer above do not lose exactly'
                        ' those of the dimensions that go', state=state,
                        keep=keep, got=ql.q(), expected=oldq[0][:, keep])
            R.eval((i, top) if len(keep) < L else None)
            R.count('states')
            R.count('transitions')
            R.count('traces_validated_against_impl')
            if keep and i % 5 == 0 and ql is None:
                rng.Policy(.5).run(lambda: m.infer(
                    no_samples=1, burn_in_min=1, burn_in_max=1))
                R.check(factors(up)[1]().shape[0] == len(keep),
                        'sizes of the layers above after inference')
            # nothing happens below a layer that is cleaned
            if keep and f[axis]().shape[1]:
                below = [x().copy() for x in f]
                fct(up, reset=False, clean=True)
                R.check(all(np.array_equal(a, x()) for a, x in zip(below, f)),
                        'clean-up changes the layer below', state=state)


def live(case, R):
    model, K = case['model'], case['K']
    shape = (3, 2) if K == 2 else (2, 2, 2)
    L0 = 3
    datas = [np.ones(shape, dtype=np.int8),
             -np.ones(shape, dtype=np.int8),
             np.array([1, -1] * (int(np.prod(shape)) // 2),
                      dtype=np.int8).reshape(shape)]
    tables = [lambda i: .001, lambda i: .999, lambda i: (i * .37 + .1) % 1,
              lambda i: (i * i * .61 + .05) % 1]
    for X, table, reset, bmax, n in itertools.product(
            datas, tables, (0, 1, 2), (0, 1, 7, 12), (1, 3)):
        m, d, layer = machine(model, X, L0)
        layer.auto_clean = reset in (0, 2)
        layer.auto_reset = reset in (1, 2)
        other_clean = (reset != 1)
        if other_clean and reset == 0 and bmax > 7:
            continue
        try:
            rng.Policy(table).run(lambda: m.infer(
                no_samples=n, convergence_window=2, convergence_eps=.5,
                burn_in_min=1, burn_in_max=bmax))
        except Exception:
            if layer.size == 0:
                continue        # all dimensions were useless
            raise
        if layer.size == 0:
            continue
        for k, f in enumerate(factors(layer)):
            R.check(f().shape == (shape[k], layer.size) and
                    f.fixed_entries.shape == f().shape and
                    f.trace.shape[0] == n and f.trace.shape[1:] == f().shape,
                    'sizes are inconsistent after clean-up', model=model,
                    shape=f().shape, size=layer.size)
            R.check(np.isin(f(), (-1, 1)).all() and
                    np.isin(f.trace, (-1, 1)).all(),
                    'factor entries other than +-1 after clean-up')
        if model == 'MAX-AND':
            R.check(np.shape(layer.lbda()) == (layer.size + 1,),
                    'lambdas inconsistent with the size after clean-up',
                    lbda=layer.lbda(), size=layer.size)
            R.check(layer.lbda.trace.shape == (n, layer.size + 1),
                    'lambda samples inconsistent with the size')
        for tech in ('factor_map', 'factor_mean', 'mc', 'point_estimate'):
            out = layer.output(technique=tech)
            R.check(out.shape == shape and np.all((out > -1e-9) &
                                                  (out < 1 + 1e-9)),
                    'output after clean-up', model=model, technique=tech)
        R.check(layer.size <= L0, 'more dimensions than before')
        R.eval((X.tobytes(), tables.index(table), reset, bmax, n))
        R.count('states')
