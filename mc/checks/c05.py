"""
C05: what the user holds fixed (a matrix, single entries, lambda, observed
data) is never changed by inference, and everything else can move.

 entries - all patterns of fixed entries, all start states, all outcomes of
           one update of the real code
 members - every subset of fixed members, complete calls of infer (burn-in,
           convergence, sampling, annealing, resetting of dimensions) under
           adversarial random numbers (always flip / never flip / mixed)
 history - all sequences of (un)fixing operations and calls of infer
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import (chunks, deviations, factors, lom, machine, signs,
                       state_dist, update_fct)

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('one evaluation = one (pattern of fixed entries, start state) with all'
        ' outcomes, or one complete inference run; non-trivial = something is'
        ' fixed and something is free')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'removing a latent dimension (auto_clean) and OR-AND-IBP, which'
               ' both change shapes, are not part of this check']
BOUNDS = {'quick': 'all patterns x all states of 2x2, 1x3 and 3x1 matrices;'
                   ' all subsets of members, 8 adversaries; histories <= 3',
          'thorough': 'additionally 2x3 matrices, histories <= 4'}

ALL = ref.MODELS + ('MAX-AND', 'qL-AND')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ALL:
        for K in (2, 3):
            if K == 3 and model not in ref.MODELS:
                continue
            for axis in range(K):
                for shape in [(2, 2), (1, 3), (3, 1)] + ([(2, 3)] if t else []):
                    out.append(dict(kind='entries', model=model, K=K,
                                    axis=axis, shape=shape))
            out.append(dict(kind='members', model=model, K=K))
        out.append(dict(kind='history', model=model, n=4 if t else 3))
    for model in ref.MODELS:
        for up, loose, K in ((1, True, 2), (2, True, 2), (1, False, 2),
                             (2, False, 2), (1, False, 3)):
            out.append(dict(kind='entries', model=model, K=K, axis=0,
                            shape=(2, 2), up=up, loose=loose))
    for model in ref.MODELS:
        out.append(dict(kind='latent', model=model))
    out.append(dict(kind='deep', models=['OR-AND', 'OR-AND']))
    out.append(dict(kind='deep', models=['XOR-AND', 'NAND-XOR']))
    return out


def build(model, K, shape, axis=0, L=None):
    g = np.random.RandomState(3)
    dims = [2] * K
    dims[axis] = shape[0]
    X = np.array(g.randint(-1, 2, dims), dtype=np.int8)
    X.reshape(-1)[0] = 1
    m, data, layer = machine(model, X, shape[1] if L is None else L)
    for f in factors(layer):
        f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1, dtype=np.int8)
    if model == 'MAX-AND':
        layer.lbda.val = np.array([.9, .7, .6, .8][:layer.size] + [.1])
    else:
        layer.lbda.val = .4
    return m, data, layer


def run_entries(case, R):
    shape, axis = tuple(case['shape']), case['axis']
    m, data, layer = build(case['model'], case['K'], shape, axis)
    mat = factors(layer)[axis]
    g = np.random.RandomState(7)
    if case.get('loose'):
        # a matrix without a child of its own
        mat = data
        data.fixed = False
        shape = data.val.shape
        data.val = np.array(2 * g.randint(0, 2, shape) - 1, dtype=np.int8)
    more = []
    for i in range(case.get('up', 0) - (1 if case.get('loose') else 0)):
        # further parents
        l = m.add_layer(latent_size=2, child=mat,
                        model=('XOR-NAND', 'OR-AND')[i])
        l.lbda.val = .3 + .2 * i
        for f in factors(l):
            f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                             dtype=np.int8)
        more.append(l)
    fct = update_fct(mat)
    others = [x for x in [data] + factors(layer) +
              [f for l in more for f in factors(l)] if x is not mat]
    n = shape[0] * shape[1]
    rest = [x.val.copy() for x in others]
    for pattern in itertools.product((0, 1), repeat=n):
        mask = np.array(pattern, dtype=np.int8).reshape(shape)
        moved = np.zeros(shape, dtype=bool)
        for start in signs(shape):
            mat.fixed_entries = mask.copy()
            dist, eng = state_dist(mat, fct, start)
            R.count('states')
            R.count('transitions', len(dist))
            R.count('traces_validated_against_impl', eng.paths)
            R.eval((pattern, start.tobytes()) if 0 < sum(pattern) < n
                   else None)
            for k in dist:
                res = np.frombuffer(k, dtype=np.int8).reshape(shape)
                if np.any((res != start) & (mask == 1)):
                    R.violation('a fixed entry was changed by an update',
                                model=case['model'], axis=axis, start=start,
                                fixed_entries=mask, result=res)
                if set(np.unique(res)) - {-1, 1}:
                    R.violation('update leaves the domain',
                                model=case['model'], result=res)
                moved |= res != start
        if np.any(moved != (mask == 0)):
            R.violation('an entry that is not fixed never moves',
                        model=case['model'], axis=axis, fixed_entries=mask,
                        moved=moved.astype(int))
        if not np.array_equal(mat.fixed_entries, mask):
            R.violation('the pattern of fixed entries was changed',
                        model=case['model'], fixed_entries=mask)
    for a, b in zip(rest, others):
        if not np.array_equal(a, b.val):
            R.violation('update of one factor changes something else',
                        model=case['model'], axis=axis)


ADVERSARIES = {
    'flip': 0.0, 'stay': 1 - 1e-12, 'half': .5,
    'alternate': lambda i: (0.0, 1 - 1e-12)[i % 2],
    'every third': lambda i: (0.0, .5, 1 - 1e-12)[i % 3],
}
RUNS = {
    'sample': dict(no_samples=2, burn_in_min=0, burn_in_max=0),
    'burn in': dict(no_samples=1, burn_in_min=2, burn_in_max=5,
                    convergence_window=2, fix_lbda_iters=1),
    'converge': dict(no_samples=1, burn_in_min=0, burn_in_max=20,
                     convergence_window=4, convergence_eps=2.),
    'anneal': dict(no_samples=1, burn_in_min=3, burn_in_max=3),
    'reset': dict(no_samples=1, burn_in_min=1, burn_in_max=4,
                  convergence_window=2, convergence_eps=2.),
}


FORMS = ((False, True), (np.False_, np.True_), (0, 1))
FORM_OF = {name: i for names in (RUNS, ADVERSARIES)
           for i, name in enumerate(names)}


def members_of(m):
    out = {}
    seen = set()
    for i, layer in enumerate(m.layers):
        for f in layer.factors:
            out['layer%d.factor%d' % (i, f.child_axis)] = f
            seen.add(id(f))
        out['layer%d.lambda' % i] = layer.lbda
        if layer.model == 'qL-AND':
            out['layer%d.q' % i] = layer.q
    for i, mat in enumerate(m.matrices):
        if id(mat) not in seen:
            out['matrix%d' % i] = mat
    return out


def val(x):
    return np.array(x.val, copy=True)


def one_run(R, m, fixed, partly, adversary, run, key, describe):
    """fixed: names of members; partly: name -> mask"""
    mem = members_of(m)
    for i, (name, x) in enumerate(mem.items()):
        # whatever is true (false) as a condition
        form = FORMS[(i + FORM_OF[run] + FORM_OF[adversary]) % len(FORMS)]
        x.fixed = form[1 if name in fixed else 0]
    for name, mask in partly.items():
        mem[name].fixed_entries = mask.copy()
    before = {name: val(x) for name, x in mem.items()}
    arrays = {name: id(x.val) for name, x in mem.items()}
    m.anneal = run == 'anneal'
    for layer in m.layers:
        layer.auto_reset = run == 'reset'
    held = [(name, x, None) for name, x in mem.items() if name in fixed] + \
        [(name, mem[name], mask) for name, mask in partly.items()]
    seen = []

    def draw(i):
        """random numbers; also looks whether what is fixed still holds"""
        for name, x, mask in held:
            a, b = before[name], x.val
            if np.shape(a) != np.shape(b):
                continue              # removal of dimensions, see below
            if mask is None and not np.array_equal(a, b) or \
                    mask is not None and np.any((a != b) & (mask == 1)):
                seen.append((i, name, np.array(b, copy=True)))
        u = ADVERSARIES[adversary]
        return u(i) if callable(u) else u
    eng = rng.Policy(draw)
    eng.run(lambda: m.infer(**RUNS[run]))
    R.count('traces_validated_against_impl')
    R.count('transitions', eng.calls)
    R.count('states', len(mem))
    R.eval(key if 0 < len(fixed) + len(partly) < len(mem) else None)
    if seen:
        R.violation('a fixed member changes in the course of inference',
                    member=seen[0][1], before=before[seen[0][1]],
                    then=seen[0][2], random_number=seen[0][0],
                    fixed=sorted(fixed), adversary=adversary, run=run,
                    **describe)
        return
    if run == 'reset' and m.layers[0].size != 2:
        # useless dimensions that were reset in vain are removed in the end
        removed(R, m, mem, before, fixed, partly, adversary, describe)
        return
    for name in fixed:
        if name not in mem:
            continue
        if not np.array_equal(before[name], mem[name].val):
            R.violation('a fixed member was changed by inference',
                        member=name, before=before[name], after=mem[name].val,
                        fixed=sorted(fixed), adversary=adversary, run=run,
                        **describe)
        if not bool(mem[name].fixed):
            R.violation('a fixed member is not fixed any more', member=name)
    for name, mask in partly.items():
        a, b = before[name], mem[name].val
        if np.any((a != b) & (mask == 1)):
            R.violation('a fixed entry was changed by inference', member=name,
                        before=a, after=b, mask=mask, fixed=sorted(fixed),
                        adversary=adversary, run=run, **describe)
        if not np.array_equal(mem[name].fixed_entries, mask):
            R.violation('the pattern of fixed entries was changed',
                        member=name, **describe)


def removed(R, m, mem, before, fixed, partly, adversary, describe):
    for keep in itertools.combinations(range(2), m.layers[0].size):
        keep = list(keep)
        ok = True
        for name in fixed:
            a, b = before[name], mem[name].val
            if 'factor' in name:
                ok &= np.array_equal(a[:, keep], b)
            elif 'lambda' in name and np.ndim(a):
                ok &= np.array_equal(a[keep + [-1]], b)
            else:
                ok &= np.array_equal(a, b)
        for name, mask in partly.items():
            a, b, k = before[name], mem[name].val, mask[:, keep]
            ok &= b.shape == k.shape and not np.any((a[:, keep] != b) &
                                                    (k == 1))
            ok &= np.array_equal(mem[name].fixed_entries, k)
        if ok:
            return
    R.violation('fixed values were changed when dimensions were removed',
                before=before, after={n: x.val for n, x in mem.items()},
                fixed=sorted(fixed), fixed_entries=partly,
                adversary=adversary, **describe)


def subsets(names):
    for r in range(len(names) + 1):
        yield from itertools.combinations(names, r)


def run_members(case, R):
    model, K = case['model'], case['K']
    runs = list(RUNS)
    if model == 'MAX-AND':
        runs.remove('anneal')         # not supported for several lambdas
    m, data, layer = build(model, K, (3, 2))
    names = [n for n in members_of(m)]
    for fixed in subsets(names):
        if 'matrix0' not in fixed:
            continue                  # observed data
        for adversary in ADVERSARIES:
            for run in runs:
                m, data, layer = build(model, K, (3, 2))
                user = data.val.copy()
                data.val = user
                keep = user.copy()
                if run == 'reset':    # an unused dimension
                    factors(layer)[0].val[:, 0] = -1
                one_run(
                    R, m, fixed, {}, adversary, run,
                    (fixed, adversary, run), dict(model=model, K=K))
                if not np.array_equal(user, keep):
                    R.violation('observed data were changed', model=model)
    # single fixed entries in several members at once
    masks = [np.array([[1, 0], [0, 1], [1, 1]], dtype=np.int8),
             np.array([[0, 1], [1, 0]], dtype=np.int8),
             np.array([[1, 1], [0, 0]], dtype=np.int8)]
    for which in subsets(range(K)):
        for adversary in ADVERSARIES:
            for run in runs:
                m, data, layer = build(model, K, (3, 2))
                if run == 'reset':
                    factors(layer)[1].val[:, 1] = -1
                one_run(R, m, ('matrix0',),
                        {'layer0.factor%d' % k: masks[k] for k in which},
                        adversary, run, (which, adversary, run, 'masks'),
                        dict(model=model, K=K))
                if model == 'qL-AND' and run != 'reset':
                    for qm in ((0, 1), (1, 0), (1, 1)):
                        m, data, layer = build(model, K, (3, 2))
                        layer.q.val = np.array([[2, 1]], dtype=np.int8)
                        part = {'layer0.factor%d' % k: masks[k] for k in which}
                        part['layer0.q'] = np.array([qm], dtype=np.int8)
                        one_run(R, m, ('matrix0',), part, adversary, run,
                                (which, adversary, run, 'q', qm),
                                dict(model=model, K=K))
    R.sample(dict(model=model, members=names, runs=runs))


def run_history(case, R):
    """operations on one machine, every infer obeys what holds at that time"""
    model = case['model']
    shape = (2, 2)
    ops = ['fix z', 'free z', 'fix u', 'free u', 'fix lambda', 'free lambda',
           'mask z', 'mask u', 'unmask', 'infer flip', 'infer mixed']
    for seq in itertools.product(ops, repeat=case['n'] - 1):
        if not any(s.startswith('infer') for s in seq):
            continue
        m, data, layer = build(model, 2, shape)
        data.fixed = True
        mem = members_of(m)
        for op in seq + ('infer flip',):
            name = {'z': 'layer0.factor0', 'u': 'layer0.factor1',
                    'lambda': 'layer0.lambda'}.get(op.split()[-1])
            if op.startswith('fix'):
                mem[name].fixed = True
            elif op.startswith('free'):
                mem[name].fixed = False
            elif op.startswith('mask'):
                mem[name].fixed_entries[:] = [[1, 0], [1, 1]]
            elif op == 'unmask':
                for k in (0, 1):
                    mem['layer0.factor%d' % k].fixed_entries[:] = 0
            else:
                fixed = [n for n in mem if mem[n].fixed]
                part = {n: mem[n].fixed_entries.copy() for n in mem
                        if 'factor' in n}
                one_run(R, m, tuple(fixed), part,
                        'flip' if op == 'infer flip' else 'every third',
                        'sample', (seq, op), dict(model=model, history=seq))
    R.sample(dict(model=model, history=seq))


def run_latent(case, R):
    """data that are partly observed: all patterns of observed entries"""
    model = case['model']
    for pattern in itertools.product((0, 1), repeat=4):
        mask = np.array(pattern, dtype=np.int8).reshape(2, 2)
        for adversary in ADVERSARIES:
            for run in ('sample', 'burn in', 'anneal'):
                m, data, layer = build(model, 2, (2, 2))
                data.val = np.array([[1, -1], [-1, -1]], dtype=np.int8)
                one_run(R, m, (), {'matrix0': mask}, adversary, run,
                        (pattern, adversary, run), dict(model=model))


def run_deep(case, R):
    """two layers, every subset of members"""
    def make():
        m, data, layer = build(case['models'][0], 2, (2, 2))
        l2 = m.add_layer(latent_size=2, child=layer.z, model=case['models'][1])
        g = np.random.RandomState(4)
        for f in factors(l2):
            f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                             dtype=np.int8)
        l2.lbda.val = .3
        return m
    names = list(members_of(make()))
    for fixed in subsets(names):
        if 'matrix0' not in fixed:
            continue
        for adversary in ADVERSARIES:
            for run in RUNS:
                if run == 'reset':
                    continue
                one_run(R, make(), fixed, {}, adversary, run,
                        (fixed, adversary, run), dict(models=case['models']))
    mask = np.array([[1, 0], [0, 1]], dtype=np.int8)
    for which in subsets([n for n in names if 'factor' in n]):
        for adversary in ADVERSARIES:
            one_run(R, make(), ('matrix0',), {n: mask for n in which},
                    adversary, 'burn in', (which, adversary, 'mask'),
                    dict(models=case['models']))


def run(case, R):
    dict(entries=run_entries, members=run_members, history=run_history,
         latent=run_latent, deep=run_deep)[case['kind']](case, R)
