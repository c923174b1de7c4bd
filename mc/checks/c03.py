"""
C03: every two-operator model name is handled as an equivalent model, data
and factors being inverted as reported; the array of the user is not touched;
other names are rejected.
"""
import itertools

import numpy as np

from mc import env, ref
from mc.common import PM, aux, lom, machine, relaid, rng

ID = 'C03'
LEVEL = 'exploration'
RULE = ('one evaluation = one pair (requested model, factor rows) compared'
        ' between the requested and the canonical model, or one data array'
        ' passed in; distinct = distinct (model, K, rows / data)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'data are observed, not sampled']
BOUNDS = {'quick': 'all 36 names, all rows K=2,3,4 with K*L<=8; all data in'
                   ' {-1,0,1} of shapes 1x2, 2x2, 1x2x2',
          'thorough': 'all 36 names, all rows with K*L<=12; shapes up to 2x3,'
                      ' 2x2x2'}


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.ALL_MODELS:
        out.append(dict(kind='rows', model=model, bound=12 if t else 8))
        out.append(dict(kind='data', model=model,
                        shapes=[[1, 2], [2, 2], [1, 2, 2]] +
                        ([[2, 3], [2, 2, 2]] if t else [])))
    out.append(dict(kind='names'))
    out.append(dict(kind='lists', shapes=((2, 2), (2, 3), (3, 2), (3, 3)) +
                    (((4, 3), (3, 4)) if t else ())))
    return out


def run(case, R):
    if case['kind'] == 'names':
        return names(case, R)
    if case['kind'] == 'lists':
        return lists(case, R)
    model = case['model']
    if case['kind'] == 'rows':
        for K in (2, 3, 4):
            for L in range(1, 5):
                if K * L > case['bound']:
                    continue
                equivalence(R, model, K, L)
    else:
        for shape in case['shapes']:
            data(R, model, tuple(shape))


def equivalence(R, model, K, L):
    m = lom.Machine()
    d = m.add_matrix(np.ones((2,) * K, dtype=np.int8), fixed=True)
    layer = m.add_layer(latent_size=L, child=d, model=model)
    can = layer.model
    inv_d, inv_f = bool(layer.invert_data), bool(layer.invert_factors)
    R.check(can in ref.MODELS, 'translated to a model without sampler',
            model=model, canonical=can)
    # the classification of models (outer, hidden, inner inversion)
    cls, (i_out, i_hid, i_in) = aux.get_lom_class(model)
    c_out, c_in = cls.split('-')
    for flat in itertools.product(PM, repeat=K * L):
        rows = tuple(flat[k * L:(k + 1) * L] for k in range(K))
        want = ref.f(model, rows)
        inv = tuple(tuple(-v for v in r) for r in rows)
        got = ref.f(can, inv if inv_f else rows) * (-1 if inv_d else 1)
        R.eval((K, flat))
        if got != want:
            R.violation('canonical model is not equivalent', model=model,
                        canonical=can, invert_data=inv_d, invert_factors=inv_f,
                        rows=rows, got=got, expected=want)
        rr = inv if i_in else rows
        hid = [ref.op(c_in, [r[l] == 1 for r in rr]) != bool(i_hid)
               for l in range(L)]
        got = 1 if ref.op(c_out, hid) != bool(i_out) else -1
        if got != want:
            R.violation('class of the model is not equivalent', model=model,
                        got=(cls, i_out, i_hid, i_in), rows=rows)
    eq = aux.replace_equivalent_model(model)
    for flat in itertools.product(PM, repeat=K * L):
        rows = tuple(flat[k * L:(k + 1) * L] for k in range(K))
        if ref.f(eq, rows) != ref.f(model, rows):
            R.violation('replaced by a model that is not equivalent',
                        model=model, got=eq, rows=rows)
    R.sample(dict(model=model, canonical=can, invert_data=inv_d,
                  invert_factors=inv_f, K=K, L=L))


def data(R, model, shape):
    n = int(np.prod(shape))
    for t in itertools.product((1, -1, 0), repeat=n):
        X = np.array(t, dtype=np.int8).reshape(shape)
        user = relaid(X)
        m, d, layer = lom.Machine(), None, None
        d = m.add_matrix(user, fixed=True)
        layer = m.add_layer(latent_size=1, child=d, model=model)
        s = -1 if layer.invert_data else 1
        R.eval((shape, t) if any(t) else None)
        if user.tobytes() != X.tobytes():
            R.violation('the data array of the user is modified', model=model,
                        data=X, afterwards=user)
        if not np.array_equal(layer.child(), s * X) or \
                layer.child().dtype != np.int8:
            R.violation('data of the layer are not the (inverted) data',
                        model=model, data=X, got=layer.child(),
                        invert_data=bool(layer.invert_data))
        # using the same array again gives the same layer
        m2 = lom.Machine()
        l2 = m2.add_layer(latent_size=1, child=m2.add_matrix(user, fixed=True),
                          model=model)
        if not np.array_equal(l2.child(), layer.child()):
            R.violation('second use of the same data differs', model=model,
                        data=X)
        # a matrix that may change as well follows in the same way
        m3 = lom.Machine()
        d3 = m3.add_matrix(user, fixed=False)
        l3 = m3.add_layer(latent_size=1, child=d3, model=model)
        if not np.array_equal(l3.child(), s * X) or l3.child is not d3 or \
                bool(l3.invert_data) != (s < 0) or \
                user.tobytes() != X.tobytes():
            R.violation('a child that is not fixed is not (inverted) data',
                        model=model, data=X, got=l3.child())
        # the held data follow: reconstruction refers to the inverted data
        if [f().shape for f in layer.factors] != [(k, 1) for k in shape]:
            R.violation('wrong factor shapes', model=model, shape=shape)


def table(model, shapes, flip=1, neg=1):
    """outputs for all factor rows"""
    return tuple(neg * ref.f(model, tuple(tuple(flip * v for v in
                                                flat[k * L:(k + 1) * L])
                                          for k in range(K)))
                 for K, L in shapes
                 for flat in itertools.product(PM, repeat=K * L))


def lists(case, R):
    """families: one model of each class up to inversion of the factors,
    clans: up to inversion of factors and data"""
    shapes = [tuple(s) for s in case['shapes']]
    plain = {m: table(m, shapes) for m in ref.ALL_MODELS}
    flipped = {m: table(m, shapes, -1) for m in ref.ALL_MODELS}

    def family(a, b):
        return plain[a] in (plain[b], flipped[b])

    def clan(a, b):
        return family(a, b) or tuple(-v for v in plain[a]) in (
            plain[b], flipped[b])
    for mode in ('implemented', 'canonical'):
        for level, same in (('clans', clan), ('families', family)):
            got = list(aux.canonical_loms(level, mode))
            for m in ref.ALL_MODELS:
                k = [g for g in got if same(m, g)]
                R.eval((mode, level, m))
                R.check(len(k) == 1, 'list of canonical models does not have '
                        'exactly one model of each class', level=level,
                        mode=mode, model=m, equivalent=k, got=got)
            if mode == 'implemented' and level == 'clans':
                R.check(sorted(got) == sorted(aux.implemented_loms()) ==
                        sorted(ref.MODELS), 'list of implemented models',
                        got=got, implemented=aux.implemented_loms())
    for pair in itertools.product(
            ('clans', 'families', 'clan', '', None, 'all'),
            ('implemented', 'canonical', 'all', '', None)):
        if pair in tuple(itertools.product(('clans', 'families'), (
                'implemented', 'canonical'))):
            continue
        refused(R, aux.canonical_loms, 'a list of models', *pair)
    for name in ('MAX', 'XNOR', '', 'or', 'OR ', 'ORAND', None, 1):
        refused(R, env.seam(aux, 'get_lop'), 'an operator', name)
        refused(R, env.seam(aux, 'get_fuzzy_lop'), 'an operator', name)
    R.sample(dict(got=got))


def refused(R, fct, what, *args):
    try:
        got = fct(*args)
    except Exception:
        got = None
    R.eval((what, args))
    R.check(got is None, 'a name that does not denote %s is accepted' % what,
            name=args, got=got)


def names(case, R):
    good = set(ref.ALL_MODELS) | {'MAX-AND', 'OR-AND-IBP', 'qL-AND'}
    words = list(ref.OPS) + ['MAX', 'XNOR', 'IF', '', 'or']
    cand = ['-'.join(p) for p in itertools.product(words, repeat=2)]
    cand += words + ['OR-AND-OR', 'AND-OR-IBP', 'OR AND', 'OR_AND', 'qL-OR']
    X = np.ones((2, 2), dtype=np.int8)
    for name in cand:
        m = lom.Machine()
        d = m.add_matrix(relaid(X), fixed=True)
        try:
            layer = m.add_layer(latent_size=1, child=d, model=name)
            ok = True
        except env.Interactive:
            R.violation('unsupported model starts a debugger', model=name)
            ok = False
        except Exception:
            ok = False
        R.eval(name)
        if not ok:
            R.check(np.array_equal(d.val, X) and not m.layers and
                    m.members == [d] and not d.parents,
                    'rejected model changes the machine', model=name)
        if ok != (name in good):
            R.violation('unsupported model is accepted' if ok else
                        'supported model is rejected', model=name)
    for model in ref.ALL_MODELS:        # without given data
        for shape in ((3, 2), (2, 3, 4)):
            m = lom.Machine()
            layer = m.add_layer(latent_size=2, shape=shape, model=model)
            R.eval((model, shape))
            R.check(layer.child().shape == shape and
                    set(np.unique(layer.child())) <= {-1, 1} and
                    [f().shape for f in layer.factors] ==
                    [(k, 2) for k in shape],
                    'layer from a shape is malformed', model=model,
                    shape=shape)
    R.sample(dict(rejected=[c for c in cand if c not in good][:8]))
