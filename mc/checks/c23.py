"""
C23: machines are constructed as requested.

 shapes   - all shapes, latent sizes and models up to a bound
 initial  - all random outcomes of the construction: entries fair, independent
 types    - data of all numeric types and memory layouts
 sequence - all sequences of construction steps on two machines up to a depth,
            compared with a graph that is kept alongside
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import aux, factors, layouts, lom, tris

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('one evaluation = one construction, everything visible compared;'
        ' non-trivial = distinct (model, shape, latent size), data, sequence')
ASSUMPTIONS = ['random numbers are ideal',
               'add_layer inverts the data of its child for models that need'
               ' it, as documented']
BOUNDS = {'quick': 'shapes with sides 1, 2, 3 and some long ones, L <= 4, K ='
                   ' 2, 3, 39 models; initial: up to 8 random entries; types:'
                   ' 12 types x 7 layouts; sequences of length <= 4',
          'thorough': 'sides <= 5, L <= 7; up to 14 entries; sequences <= 5'}
SPECIAL = ('MAX-AND', 'qL-AND', 'OR-AND-IBP')


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS + SPECIAL:
        for K in (2, 3):
            if K == 3 and model in SPECIAL:
                continue
            out.append(dict(kind='shapes', model=model, K=K,
                            side=5 if t else 3, L=7 if t else 4))
            out.append(dict(kind='initial', model=model, K=K,
                            bits=14 if t else 8))
        out.append(dict(kind='types', model=model))
    n = len(steps(None))
    for first in range(n):
        out.append(dict(kind='sequence', first=first, depth=5 if t else 4))
    out.append(dict(kind='errors'))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def inverts(model):
    """does the library invert the data for this model?"""
    class Child:
        val = np.ones((1, 1), dtype=np.int8)
    return bool(aux.canonise_model(model, Child())[1])


def check_matrix(R, mat, shape, **d):
    """a matrix nobody has touched"""
    v = mat()
    R.check(isinstance(v, np.ndarray) and v.shape == tuple(shape),
            'shape of a matrix', wanted=shape, got=np.shape(v), **d)
    R.check(v.dtype == np.int8, 'type of a matrix', got=str(v.dtype), **d)
    R.check(mat.fixed is False, 'a matrix is fixed from the beginning', **d)
    fe = mat.fixed_entries
    R.check(np.shape(fe) == tuple(shape) and not np.any(fe),
            'entries are fixed from the beginning', got=fe, **d)
    R.check(mat.bernoulli_prior == .5, 'prior of a new matrix is not neutral',
            got=mat.bernoulli_prior, **d)


def check_layer(R, m, layer, child, shape, L, **d):
    K = len(shape)
    fs = list(layer.factors)
    R.check(len(fs) == K, 'number of factors', got=len(fs), **d)
    for k, f in enumerate(fs):
        check_matrix(R, f, (shape[k], L), factor=k, **d)
        R.check(np.all(np.abs(f()) == 1), 'entries of a factor are not +-1',
                factor=k, got=f(), **d)
        R.check(f.child_axis == k, 'axis of a factor', factor=k,
                got=f.child_axis, **d)
        R.check(f.layer is layer and f.model == layer.model,
                'factor is linked to another layer', factor=k, **d)
        R.check([id(x) for x in f.siblings] ==
                [id(x) for j, x in enumerate(fs) if j != k],
                'siblings of a factor', factor=k, **d)
        R.check(getattr(layer, 'zuv'[k]) is f, 'z, u, v of a layer',
                factor=k, **d)
    R.check([id(x) for x in layer] == [id(x) for x in fs],
            'iteration over a layer', **d)
    R.check(layer.size == L and layer.L == L, 'size of a layer',
            got=layer.size, **d)
    R.check(layer.dimensionality == K, 'dimensionality of a layer', **d)
    R.check(layer.child is child, 'layer is linked to another matrix', **d)
    R.check(layer.machine is m, 'layer is linked to another machine', **d)
    R.check(layer.lbda.layer is layer, 'lambda is linked to another layer',
            **d)
    R.check(layer.lbda.fixed is False, 'lambda is fixed from the beginning',
            **d)
    R.check(tuple(layer.lbda.beta_prior) == (1, 1),
            'prior of lambda is not neutral', got=layer.lbda.beta_prior, **d)
    R.check(not layer.auto_clean and not layer.auto_reset,
            'clean up is on from the beginning', **d)
    lb = layer.lbda()
    if d.get('model') == 'MAX-AND':
        R.check(np.shape(lb) == (L + 1,) and np.all(np.array(lb) > 0)
                and np.all(np.array(lb) < 1), 'initial lambda', got=lb, **d)
    else:
        R.check(np.ndim(lb) == 0 and 0 < float(lb) < np.inf, 'initial lambda',
                got=lb, **d)
    if d.get('model') == 'qL-AND':
        q = layer.q
        R.check(q().shape == (1, shape[1]) and q().dtype == np.int8
                and np.all(q() >= 1) and q.fixed is False
                and q.layer is layer, 'initial q', got=q(), **d)
    if d.get('model') == 'OR-AND-IBP':
        R.check(layer.alpha is None or layer.alpha > 0, 'initial alpha',
                got=layer.alpha, **d)


def check_private(R, mats, **d):
    """no two matrices or noise parameters share memory or lists"""
    arrays = [(i, x) for i, m in enumerate(mats)
              for x in (m(), getattr(m, 'fixed_entries', None))
              if isinstance(x, np.ndarray)]
    for (i, a), (j, b) in itertools.combinations(arrays, 2):
        if a is b or np.shares_memory(a, b):
            R.violation('matrices share memory', which=[i, j], **d)
    ids = [id(m.parents) for m in mats if hasattr(m, 'parents')]
    R.check(len(set(ids)) == len(ids), 'matrices share their parents', **d)


def sides(case):
    K, n = case['K'], case['side']
    out = list(itertools.product(range(1, n + 1), repeat=K))
    out += [(130,) + (2,) * (K - 1), (2,) * (K - 1) + (300,),
            (1,) * (K - 1) + (129,)]
    return out


def shapes(case, R):
    model, K = case['model'], case['K']
    inv = inverts(model)
    for shape in sides(case):
        i = np.arange(int(np.prod(shape))).reshape(shape)
        X = (i * 7 % 3 - 1).astype(np.int8)
        for L in range(1, case['L'] + 1):
            d = dict(model=model, dims=shape, latent_size=L)
            m = lom.Machine()
            R.check(m.anneal is False and m.members == [] and m.layers == [],
                    'a new machine is not empty', **d)
            mat = m.add_matrix(X.copy(), fixed=True)
            layer = m.add_layer(latent_size=L, child=mat, model=model)
            check_layer(R, m, layer, mat, shape, L, **d)
            R.check(mat.fixed is True, 'data are not fixed', **d)
            R.check(np.array_equal(mat(), -X if inv else X),
                    'construction changes the data', **d)
            mem = [id(x) for x in m.members]
            want = [mat] + list(layer.factors)
            if model == 'qL-AND':
                want.append(layer.q)
            R.check(sorted(mem) == sorted(map(id, want)),
                    'members of a machine', n=len(mem), **d)
            R.check([id(x) for x in m.lbdas] == [id(layer.lbda)],
                    'noise parameters of a machine', **d)
            R.check(len(mat.parents) == 1 and mat.parents[0] is layer,
                    'parents of the data', **d)
            check_private(R, [mat, layer.lbda] + list(layer.factors), **d)
            # without data
            m2 = lom.Machine()
            l2 = m2.add_layer(latent_size=L, shape=shape, model=model)
            check_layer(R, m2, l2, l2.child, shape, L, **d)
            R.check(l2.child().shape == tuple(shape), 'shape of the child',
                    got=l2.child().shape, **d)
            R.check(len(l2.child.parents) == 1 and
                    l2.child.parents[0] is l2, 'parents of the child', **d)
            R.eval((model, shape, L))
            R.count('states', 2)
            R.count('transitions', 3)
            R.count('traces_validated_against_impl', 2)
    # what happens to one machine does not reach the others
    for shape, L in itertools.product(
            ((2, 3), (3, 3)) if K == 2 else ((2, 2, 2),), (1, 2, 3)):
        d = dict(model=model, dims=shape, latent_size=L)
        X = np.ones(shape, dtype=np.int8)
        made, state = [], []
        for i in range(4):
            m = lom.Machine()
            layer = m.add_layer(latent_size=L, child=m.add_matrix(X.copy()),
                                model=model)
            check_layer(R, m, layer, layer.child, shape, L, **d)
            new = parts(layer)
            start = np.array(layer.lbda(), copy=True)
            if made:
                R.check(np.array_equal(start, first), 'initial lambda depends'
                        ' on other machines', got=start, expected=first, **d)
            first = start
            for x in made:
                check_private(R, x + new, **d)
            made.append(new)
            # everything changes in place
            for x in new:
                if isinstance(x.val, np.ndarray) and x.val.ndim:
                    x.val[:] = 1 if x.val.dtype == np.int8 else .3 + i / 10
                else:
                    x.val = .3 + i / 10
                if hasattr(x, 'fixed_entries'):
                    x.fixed_entries[:] = 1
            for x in list(layer.factors):
                x.bernoulli_prior = .1
            layer.lbda.beta_prior = (7, 3)
            layer.auto_clean = layer.auto_reset = True
            m.anneal = True
            state.append([np.array(x.val, copy=True) for x in new])
            for x, vals in zip(made, state):
                for y, v in zip(x, vals):
                    R.check(np.array_equal(y.val, v), 'a machine changes with'
                            ' another one', got=y.val, expected=v, **d)
        R.eval((model, shape, L, 'others'))
        R.count('states', 4)
        R.count('transitions', 8)
        R.count('traces_validated_against_impl', 4)
    R.sample(d)


def parts(layer):
    out = [layer.child, layer.lbda] + list(layer.factors)
    if layer.model == 'qL-AND':
        out.append(layer.q)
    return out


def initial(case, R):
    """exact joint distribution of all entries"""
    model, K, bits = case['model'], case['K'], case['bits']
    for shape, L in itertools.product(
            itertools.product((1, 2, 3), repeat=K), (1, 2, 3)):
        n = sum(shape) * L
        if model == 'qL-AND':
            n += shape[1]
        if n > bits:
            continue
        X = np.ones(shape, dtype=np.int8)

        def go():
            m = lom.Machine()
            layer = m.add_layer(latent_size=L, child=m.add_matrix(X.copy()),
                                model=model)
            return b''.join(f().tobytes() for f in layer.factors)
        eng = rng.Dfs()
        dist = eng.distribution(go)
        n = sum(shape) * L
        bad = [k for k, p in dist.items() if abs(p - .5**n) > 1e-12]
        R.check(len(dist) == 2**n and not bad,
                'initial entries are not independent and fair', model=model,
                shape=shape, L=L, outcomes=len(dist), expected=2**n,
                some=[(list(np.frombuffer(k, dtype=np.int8)), dist[k])
                      for k in bad[:3]])
        R.eval((model, shape, L))
        R.count('states', len(dist))
        R.count('transitions', eng.paths)
        R.count('traces_validated_against_impl', eng.paths)
    # a matrix of its own
    for shape in ((1, 2), (2, 2), (1, 2, 2)):
        eng = rng.Dfs()
        dist = eng.distribution(
            lambda: lom.Machine().add_matrix(shape=shape)().tobytes())
        n = int(np.prod(shape))
        R.check(len(dist) == 2**n and all(abs(p - .5**n) < 1e-12
                                          for p in dist.values()),
                'initial entries are not independent and fair', shape=shape,
                outcomes=len(dist))
        R.count('traces_validated_against_impl', eng.paths)


TYPES = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint64',
         'float16', 'float32', 'float64', 'bool', '>i4')


def types(case, R):
    model = case['model']
    inv = inverts(model)
    for shape in ((2, 2), (1, 3)):
        for X in itertools.islice(tris(shape), 0, None, 5):
            for t in TYPES:
                V = X.astype(int)
                if t in ('uint8', 'uint16', 'uint64', 'bool'):
                    V = np.abs(V)
                for name, a in layouts(V.astype(t)):
                    d = dict(model=model, type=t, layout=name, data=V)
                    keep = a.copy()
                    m = lom.Machine()
                    mat = m.add_matrix(a, fixed=True)
                    R.check(mat().shape == shape and
                            np.array_equal(mat(), V) and
                            mat().dtype == np.int8,
                            'data lose their values', got=mat(), **d)
                    layer = m.add_layer(latent_size=2, child=mat, model=model)
                    R.check(np.array_equal(mat(), -V if inv else V),
                            'construction changes the data', got=mat(), **d)
                    R.check(np.array_equal(a, keep),
                            "construction changes the user's array", **d)
                    R.check([f().shape for f in layer.factors] ==
                            [(n, 2) for n in shape], 'shape of a matrix', **d)
                    R.eval((model, t, name, V.tobytes()))
                    R.count('states')
                    R.count('transitions', 2)
                    R.count('traces_validated_against_impl')
    R.sample(d)


# ----------------------------------------------------- sequences of creation
def steps(_):
    """machine, what, which"""
    out = []
    for machine in (0, 1):
        out.append((machine, 'matrix', 'data'))
        out.append((machine, 'matrix', 'latent'))
        out.append((machine, 'layer', 'first matrix'))
        out.append((machine, 'layer', 'last matrix'))
        out.append((machine, 'layer', 'factor'))
        out.append((machine, 'layer', 'shape'))
    return out


def sequence(case, R):
    alphabet = steps(None)
    models = ('OR-AND', 'XOR-NAND')
    for depth in range(1, case['depth'] + 1):
        for rest in itertools.product(range(len(alphabet)), repeat=depth - 1):
            seq = (case['first'],) + rest
            ms = [lom.Machine(), lom.Machine()]
            mats = [[], []]      # matrices added
            layers = [[], []]    # (layer, child, shape, L)
            outside = []
            ok = True
            for t, s in enumerate(seq):
                k, what, which = alphabet[s]
                m = ms[k]
                if what == 'matrix':
                    shape = (2 + t, 3)
                    if which == 'data':
                        X = np.ones(shape, dtype=np.int8)
                        mats[k].append((m.add_matrix(X, fixed=True), shape,
                                        True))
                    else:
                        mats[k].append((m.add_matrix(shape=shape), shape,
                                        False))
                    continue
                L = 1 + t
                child = None
                if which == 'shape':
                    shape = (1, 2 + t)
                    l = m.add_layer(latent_size=L, shape=shape,
                                    model=models[t % 2])
                    child = l.child
                    outside.append(child)
                else:
                    if which == 'factor':
                        if not layers[k]:
                            ok = False
                            break
                        child = layers[k][-1][0].factors[t % 2]
                    else:
                        if not mats[k]:
                            ok = False
                            break
                        child = mats[k][0 if which[0] == 'f' else -1][0]
                    shape = child().shape
                    l = m.add_layer(latent_size=L, child=child,
                                    model=models[t % 2])
                layers[k].append((l, child, shape, L))
            if not ok:
                continue
            names = [alphabet[s] for s in seq]
            every = list(outside)
            for k in (0, 1):
                m = ms[k]
                want = [x for l in layers[k] for x in l[0].factors] + \
                    [x[0] for x in mats[k]]
                every += want
                R.check([id(x) for x in m.layers] ==
                        [id(l[0]) for l in layers[k]], 'layers of a machine',
                        steps=names)
                R.check(sorted(map(id, m.members)) == sorted(map(id, want)),
                        'members of a machine', steps=names,
                        got=len(m.members), wanted=len(want))
                R.check([id(x) for x in m.lbdas] ==
                        [id(l[0].lbda) for l in layers[k]],
                        'noise parameters of a machine', steps=names)
                for l, child, shape, L in layers[k]:
                    check_layer(R, m, l, child, shape, L, steps=names)
                for x, shape, data in mats[k]:
                    R.check(x().shape == shape and x.layer is None
                            and x.model is None, 'a matrix of its own',
                            steps=names)
                    R.check(x.fixed is data, 'what is fixed', steps=names)
            everything = [x for k in (0, 1) for x in layers[k]]
            for x in every:
                R.check([id(p) for p in x.parents] ==
                        [id(l[0]) for l in everything if l[1] is x],
                        'parents of a matrix', steps=names)
            check_private(R, every, steps=names)
            R.eval(seq)
            R.count('states')
            R.count('transitions', len(seq))
            R.count('traces_validated_against_impl')
    R.sample(dict(steps=[alphabet[s] for s in seq]))


def errors(case, R):
    """requests that say too little or too much"""
    m = lom.Machine()
    mat = m.add_matrix(np.ones((2, 2), dtype=np.int8))
    for kw in (dict(), dict(child=mat, shape=(2, 2))):
        try:
            m.add_layer(latent_size=2, model='OR-AND', **kw)
        except ValueError:
            pass
        else:
            R.violation('contradictory request is accepted', given=sorted(kw))
        R.check(m.layers == [] and mat.parents == [],
                'a refused layer leaves traces', given=sorted(kw))
        R.eval(tuple(kw))
        R.count('states')
        R.count('transitions')
        R.count('traces_validated_against_impl')
