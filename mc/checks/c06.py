"""
C06: in a hierarchy every matrix is updated from its exact conditional given
its child layer and all of its parent layers, each with its own model and
lambda; constellations that are not supported are refused.
"""
import itertools
import math

import numpy as np

from mc import env, ref, rng
from mc.common import num as number
from mc.common import (PM, aux, balance_ok, factors, frozen, implied, lom,
                       machine, relaid, signs, site_rates, snapshot, update_fct)

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('one evaluation = exact transition of one entry of the real sampler in'
        ' a hierarchy; non-trivial = distinct (models, axis, site, rows of'
        ' parents, siblings, data)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'two known findings: latent or shared matrices under a layer'
               ' that inverts its data (known_findings.txt)',
               'random numbers are ideal']
BOUNDS = {'quick': 'one parent: 8 x 8 models, 2D and 3D, all axes, parent rows'
                   ' of length 2 all combinations; two parents: 8 x 8 models,'
                   ' all 256 rows; sweeps: complete chain of machines with up'
                   ' to 6 binary variables',
          'thorough': 'parent rows of length 3, all 512 triples of models'}
M8 = ref.MODELS


def cases(tier):
    t = tier == 'thorough'
    out = []
    for a in M8:
        for b in M8:
            for axis in (0, 1):
                out.append(dict(kind='one', child=a, parents=[b], axis=axis,
                                K=2, Lp=3 if t else 2))
            for axis in (0, 1, 2):
                out.append(dict(kind='one', child=a, parents=[b], axis=axis,
                                K=3, Lp=2))
            out.append(dict(kind='two', child=None, parents=[a, b], K=2,
                            axis=0, Lp=2))
            # parents of different size
            out.append(dict(kind='two', child=None, parents=[a, b], K=2,
                            axis=0, Lp=[2, 1]))
            out.append(dict(kind='two', child=None, parents=[a, b], K=2,
                            axis=0, Lp=[1, 3] if t else [1, 2]))
            c = M8[(M8.index(a) + 5 * M8.index(b)) % 8]
            for Lp in ([1, 2], [2, 1]):
                out.append(dict(kind='two', child=c, parents=[a, b], K=2,
                                axis=M8.index(b) % 2, Lp=Lp))
            children = M8 if t else [M8[(M8.index(a) + 3 * M8.index(b)) % 8]]
            for c in children:
                for axis in (0, 1):
                    out.append(dict(kind='two', child=c, parents=[a, b],
                                    axis=axis, K=2, Lp=2))
        out.append(dict(kind='one', child=None, parents=[a], axis=0, K=2,
                        Lp=3 if t else 2))
        out.append(dict(kind='three levels', models=[a, M8[M8.index(a) - 3],
                                                     M8[M8.index(a) - 5]]))
    for which in range(6):
        for a in M8[::1 if t else 3]:
            out.append(dict(kind='sweep', which=which, model=a))
    for a in M8:
        out.append(dict(kind='tall', model=a))
    out.append(dict(kind='refused'))
    for b in ref.ALL_MODELS:
        out.append(dict(kind='inverted', model=b))
        out.append(dict(kind='shared', model=b))
    return out


def sizes(Lp, parents):
    return list(Lp) if isinstance(Lp, (list, tuple)) else [Lp] * len(parents)


class Tower:
    """a matrix with an optional child layer and some parent layers"""

    def __init__(self, child, parents, axis, K, Lp, N=2, L=2):
        self.m = lom.Machine()
        self.child_model, self.parent_models = child, parents
        if child is not None:
            shape = [1] * K
            shape[axis] = N
            self.data = self.m.add_matrix(np.ones(shape, dtype=np.int8),
                                          fixed=True)
            self.layer = self.m.add_layer(latent_size=L, child=self.data,
                                          model=child)
            self.mat = factors(self.layer)[axis]
            self.sib = [f for f in factors(self.layer) if f is not self.mat]
        else:
            self.mat = self.m.add_matrix(np.ones((N, L), dtype=np.int8))
            self.layer, self.sib, self.data = None, [], None
        self.axis = axis
        self.pl = [self.m.add_layer(latent_size=n, child=self.mat, model=p)
                   for p, n in zip(parents, sizes(Lp, parents))]
        self.fct = update_fct(self.mat)

    def expected(self, own, site):
        s = 0.0
        if self.layer is not None:
            mats = [ref.tup(f.val) for f in factors(self.layer)]
            mats[self.axis] = ref.tup(own)
            s += self.layer.lbda.val * ref.score(
                self.child_model, mats, self.data.val, self.axis, *site)
        for p, model in zip(self.pl, self.parent_models):
            rows = (tuple(int(v) for v in p.factors[0].val[site[0]]),
                    tuple(int(v) for v in p.factors[1].val[site[1]]))
            s += p.lbda.val * ref.f(model, rows)
        return s + ref.logit(self.mat.bernoulli_prior)


def check_site(R, T, own, site, key, **detail):
    frozen(T.mat)
    T.mat.fixed_entries[site] = 0
    rest = [f.val for f in T.sib] + [f.val for p in T.pl for f in p.factors]
    before = snapshot(*rest)
    target = T.expected(own, site)
    rates = site_rates(R, T.mat, T.fct, own, site, 'update in a hierarchy',
                       **detail)
    R.eval(key)
    if rates is None:
        return
    if snapshot(*rest) != before:
        R.violation('update in a hierarchy changes another matrix', **detail)
    if not balance_ok(rates, target):
        R.violation('update in a hierarchy does not leave the conditional '
                    'invariant', child=T.child_model, parents=T.parent_models,
                    axis=T.axis, site=site, start=own,
                    siblings=[f.val for f in T.sib],
                    parent_factors=[[f.val for f in p.factors] for p in T.pl],
                    expected_log_odds=target, **implied(rates), **detail)
    R.sample(dict(child=T.child_model, parents=T.parent_models, site=site,
                  expected_log_odds=target, **implied(rates)))


def set_parents(T, rows, site, Lp):
    """rows that matter for the site, everything else is the opposite of the
    first row"""
    at = 0
    for p, n in zip(T.pl, Lp):
        a = np.array(rows[at:at + n], dtype=np.int8)
        b = np.array(rows[at + n:at + 2 * n], dtype=np.int8)
        at += 2 * n
        za = np.tile(-a[::-1], (p.factors[0].val.shape[0], 1)).astype(np.int8)
        zb = np.tile(-b, (p.factors[1].val.shape[0], 1)).astype(np.int8)
        za[site[0]], zb[site[1]] = a, b
        p.factors[0].val, p.factors[1].val = relaid(za), relaid(zb)


# prior, lambda of the child layer, lambdas of the parents; strong ones almost
# cancel each other
MODERATE = .3, .6, (.9, .25)
STRONG = [(.5, 11., (11.4, 21.8)), (.5, 33., (32.5, 32.9)),
          (.5, 60., (59.2, 59.5)), (1e-8, 9.5, (9., 18.2)),
          (1 - 1e-12, 26.9, (27.4, 27.8)),
          (.4, -1.2, (-.7, 1.9))]


def run_parents(case, R):
    two = case['kind'] == 'two'
    T = Tower(case['child'], case['parents'], case['axis'], case['K'],
              case['Lp'])
    N, L, Lp = 2, 2, sizes(case['Lp'], T.pl)
    if T.layer is None:
        sibs, datas = [()], [None]
    else:
        n = sum(f.val.size for f in T.sib)
        sibs = list(itertools.product(PM, repeat=n))
        if two or max(Lp) > 2:
            sibs = [sibs[-1], sibs[n % len(sibs)]]
        elif len(sibs) > 4:
            sibs = [s for s in sibs if s[0] == 1 and s[-1] == 1] + [sibs[0]]
        datas = [np.array(v, dtype=np.int8).reshape(T.data.val.shape)
                 for v in ((1, -1), (-1, 0))][:1 if two else 2]
    owns = ([1, 1], [1, -1], [-1, 1], [-1, -1])
    sites = list(itertools.product(range(N), range(L)))
    if two:
        sites = [(0, 1), (1, 0)]
    for site, strength in [(s, MODERATE) for s in sites] + [
            (sites[k % len(sites)], s) for k, s in enumerate(STRONG)]:
        T.mat.bernoulli_prior, T_lbda, p_lbdas = strength
        if T.layer is not None:
            T.layer.lbda.val = number(T_lbda)
        for p, v in zip(T.pl, p_lbdas):
            p.lbda.val = number(v)
        for num, rows in enumerate(itertools.product(
                PM, repeat=2 * sum(Lp))):
            if strength is not MODERATE and num % (5 if len(T.pl) < 2 else 37):
                continue
            set_parents(T, rows, site, Lp)
            for sib in sibs:
                at = 0
                for f in T.sib:
                    k = f.val.size
                    f.val = np.array(sib[at:at + k], dtype=np.int8).reshape(
                        f.val.shape)
                    at += k
                for X in datas:
                    if X is not None:
                        T.data.val = relaid(X)
                    for o in owns:
                        if o[site[1]] == -1:
                            continue
                        if two and o[1 - site[1]] == -1:
                            continue
                        own = np.array([[1, -1], [-1, 1]], dtype=np.int8)
                        own[site[0]] = o
                        check_site(R, T, own, site,
                                   (site, strength, rows, sib, tuple(o),
                                    None if X is None else X.tobytes()))


def run_tall(case, R):
    """one free entry anywhere in a matrix of many rows"""
    a = case['model']
    b = M8[M8.index(a) - 3]
    g = np.random.RandomState(9)
    for child, parents, axis, K, N in (
            (b, [a], 0, 2, 1031), (b, [a], 1, 2, 70), (b, [a], 2, 3, 131),
            (b, [a], 0, 3, 70), (None, [a], 0, 2, 300),
            (None, [a, b], 0, 2, 1031), (b, [a, b], 1, 2, 300)):
        T = Tower(child, parents, axis, K, 2, N=N)
        T.mat.bernoulli_prior, T_lbda, p_lbdas = MODERATE
        if T.layer is not None:
            T.layer.lbda.val = number(T_lbda)
            T.data.val = relaid(np.array(
                2 * g.randint(0, 2, T.data.val.shape) - 1, dtype=np.int8))
        for p, v in zip(T.pl, p_lbdas):
            p.lbda.val = number(v)
        for rep in range(2):
            for f in T.sib + [f for p in T.pl for f in p.factors]:
                f.val = relaid(np.array(
                    2 * g.randint(0, 2, f.val.shape) - 1, dtype=np.int8))
            own = np.array(2 * g.randint(0, 2, (N, 2)) - 1, dtype=np.int8)
            for n in sorted({0, 33, 65, N // 2, N - 1}):
                for l in (0, 1):
                    check_site(R, T, own, (n, l), ('tall', child, axis, K, N,
                                                   rep, n, l))


def run_levels(case, R):
    """three levels: the matrix in the middle has a child and a parent"""
    a, b, c = case['models']
    g = np.random.RandomState(1)
    for axis_a, axis_b in itertools.product((0, 1), repeat=2):
        m = lom.Machine()
        d = m.add_matrix(np.array(g.randint(-1, 2, (3, 2)), dtype=np.int8),
                         fixed=True)
        l1 = m.add_layer(latent_size=2, child=d, model=a)
        l2 = m.add_layer(latent_size=3, child=l1.factors[axis_a], model=b)
        l3 = m.add_layer(latent_size=2, child=l2.factors[axis_b], model=c)
        layers = [l1, l2, l3]
        for i, l in enumerate(layers):
            l.lbda.val = (.3, .8, 1.1)[i]
        for rep in range(4):
            for l in layers:
                for i, f in enumerate(l.factors):
                    f.val = np.array(2 * g.randint(0, 2, f.val.shape) - 1,
                                     dtype=np.int8)
                    f.bernoulli_prior = .2 + .1 * i
            for li, l in enumerate(layers):
                for ax, f in enumerate(l.factors):
                    fct = update_fct(f)
                    start = f.val.copy()
                    for site in np.ndindex(*start.shape):
                        frozen(f)
                        f.fixed_entries[site] = 0
                        lo = []
                        for v in (1, -1):
                            f.val = start.copy()
                            f.val[site] = v
                            lo.append(log_joint(layers))
                        f.val = start.copy()
                        target = lo[0] - lo[1]
                        rates = site_rates(R, f, fct, start, site,
                                           'update in a hierarchy',
                                           models=case['models'], level=li)
                        f.val = start.copy()
                        R.eval((axis_a, axis_b, rep, li, ax, site))
                        if rates and not balance_ok(rates, target):
                            R.violation(
                                'update in a hierarchy does not leave the '
                                'conditional invariant', models=case['models'],
                                level=li, axis=ax, site=site,
                                expected_log_odds=target, **implied(rates))


def log_joint(layers, extra=()):
    s = 0.0
    for l in layers:
        mats = [ref.tup(f.val) for f in l.factors]
        X = l.child.val
        for idx in np.ndindex(*X.shape):
            if X[idx]:
                s += math.log(ref.sigmoid(
                    l.lbda.val * int(X[idx]) *
                    ref.f(l.model, ref.rows_of(mats, idx))))
        for f in l.factors:
            for v in f.val.reshape(-1):
                p = f.bernoulli_prior
                s += math.log(p if v == 1 else 1 - p)
    for f in extra:
        for v in f.val.reshape(-1):
            p = f.bernoulli_prior
            s += math.log(p if v == 1 else 1 - p)
    return s


def sweep_machine(which, model):
    """small machines; returns machine, layers, free matrices"""
    other = M8[(M8.index(model) + 2) % 8]
    m = lom.Machine()
    extra = []
    if which == 0:                # data, two layers
        d = m.add_matrix(np.array([[1, -1]], dtype=np.int8), fixed=True)
        l1 = m.add_layer(latent_size=1, child=d, model=model)
        l2 = m.add_layer(latent_size=1, child=l1.z, model=other)
        layers = [l1, l2]
    elif which == 1:              # latent matrix under two layers
        d = m.add_matrix(np.array([[1]], dtype=np.int8))
        extra = [d]
        layers = [m.add_layer(latent_size=1, child=d, model=model),
                  m.add_layer(latent_size=1, child=d, model=other)]
        layers[0].factors[1].fixed = True
        layers[0].factors[1].val[:] = 1
    elif which == 2:              # sampling from the model, no data
        l1 = m.add_layer(latent_size=2, shape=(1, 1), model=model)
        layers, extra = [l1], [l1.child]
        # matrices made by add_layer(shape=) are not registered
        m.matrices.append(l1.child) if l1.child not in m.members else None
    elif which == 3:              # 3D data and a parent
        d = m.add_matrix(np.array([[[1, -1]]], dtype=np.int8), fixed=True)
        l1 = m.add_layer(latent_size=1, child=d, model=model)
        l2 = m.add_layer(latent_size=1, child=l1.factors[0], model=other)
        l1.factors[1].fixed = True
        l1.factors[1].val[:] = 1
        layers = [l1, l2]
    elif which == 4:              # partly observed data
        d = m.add_matrix(np.array([[1, -1], [-1, 1]], dtype=np.int8))
        d.fixed_entries[0, :] = 1
        d.fixed_entries[1, 0] = 1
        extra = [d]
        layers = [m.add_layer(latent_size=1, child=d, model=model)]
    else:                         # both factors have a parent
        d = m.add_matrix(np.array([[1]], dtype=np.int8), fixed=True)
        l1 = m.add_layer(latent_size=1, child=d, model=model)
        l2 = m.add_layer(latent_size=1, child=l1.z, model=other)
        l3 = m.add_layer(latent_size=1, child=l1.u, model=model)
        for l in (l2, l3):
            l.factors[1].fixed = True
            l.factors[1].val[:] = 1
        layers = [l1, l2, l3]
    for i, l in enumerate(layers):
        l.lbda.val = (.9, .5, .3)[i]
        l.lbda.fixed = True
        for f in l.factors:
            f.bernoulli_prior = .4
    free = []
    for mat in [f for l in layers for f in l.factors] + extra:
        if not mat.fixed and all(mat is not x for x in free):
            free.append(mat)
    return m, layers, extra, free


def run_sweep(case, R):
    """pi T = pi for one complete sweep of infer over the whole machine"""
    m, layers, extra, free = sweep_machine(case['which'], case['model'])
    sites = [(i, s) for i, f in enumerate(free)
             for s in np.ndindex(*f.val.shape) if not f.fixed_entries[s]]
    base = [f.val.copy() for f in free]

    def put(bits):
        for f, b in zip(free, base):
            f.val = b.copy()
        for (i, s), v in zip(sites, bits):
            free[i].val[s] = v

    def get():
        return tuple(int(free[i].val[s]) for i, s in sites)

    states = list(itertools.product(PM, repeat=len(sites)))
    pi = {}
    for s in states:
        put(s)
        pi[s] = math.exp(log_joint(layers, extra))
    tot = sum(pi.values())
    flow = dict.fromkeys(states, 0.0)
    reach = {}
    for s in states:
        eng = rng.Dfs()

        def go():
            put(s)
            m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
            return get()
        dist = eng.distribution(go)
        R.count('states')
        R.count('transitions', len(dist))
        R.count('traces_validated_against_impl', eng.paths)
        reach[s] = set(dist)
        for k, p in dist.items():
            flow[k] += pi[s] / tot * p
        R.eval(s)
    err = max(abs(flow[s] - pi[s] / tot) for s in states)
    if err > 1e-9:
        R.violation('a sweep of inference does not leave the joint posterior '
                    'invariant', machine=case['which'], model=case['model'],
                    error=err)
    # the chain is irreducible
    seen, todo = {states[0]}, [states[0]]
    while todo:
        for k in reach[todo.pop()]:
            if k not in seen:
                seen.add(k)
                todo.append(k)
    if len(seen) != len(states):
        R.violation('some states are never reached by inference',
                    machine=case['which'], model=case['model'],
                    missing=sorted(set(states) - seen)[:3])
    R.sample(dict(machine=case['which'], model=case['model'],
                  states=len(states), error=err))


def run_refused(case, R):
    """constellations without implementation: an error, nothing is sampled"""
    def data(shape=(2, 2), fixed=True):
        m = lom.Machine()
        return m, m.add_matrix(np.ones(shape, dtype=np.int8), fixed=fixed)

    def three_parents(with_child):
        m, d = data(fixed=with_child)
        mat = d
        if with_child:
            mat = m.add_layer(latent_size=2, child=d, model='OR-AND').z
        for _ in range(3):
            m.add_layer(latent_size=1, child=mat, model='OR-AND')
        return m

    def special(child, parent, axis=0):
        m, d = data()
        l = m.add_layer(latent_size=2, child=d, model=child)
        m.add_layer(latent_size=1, child=l.factors[axis], model=parent)
        return m

    def tensor_parent():
        m, d = data((2, 2, 2), fixed=False)
        m.add_layer(latent_size=1, child=d, model='OR-AND')
        return m

    def tensor_two_parents():
        m, d = data((2, 2, 2))
        l = m.add_layer(latent_size=2, child=d, model='OR-AND')
        for _ in range(2):
            m.add_layer(latent_size=1, child=l.z, model='OR-AND')
        return m
    def alone():
        m, d = data()
        m.add_layer(latent_size=1, child=d, model='OR-AND')
        m.add_matrix(shape=(2, 2))
        return m
    todo = [('free matrix without any layer', alone), ('three parents', lambda: three_parents(False)),
            ('child and three parents', lambda: three_parents(True)),
            ('latent tensor', tensor_parent),
            ('tensor factor with two parents', tensor_two_parents)]
    for x in ('MAX-AND', 'qL-AND', 'OR-AND-IBP'):
        for axis in (0, 1):
            todo.append(('%s factor %d with parent' % (x, axis),
                         lambda x=x, axis=axis: special(x, 'OR-AND', axis)))
            todo.append(('%s as parent of factor %d' % (x, axis),
                         lambda x=x, axis=axis: special('OR-AND', x, axis)))
    for model in ('MAX-AND', 'qL-AND'):
        def tensor(model=model):
            m, d = data((2, 2, 2))
            m.add_layer(latent_size=1, child=d, model=model)
            return m
        todo.append(('%s for tensors' % model, tensor))
    for what, make in todo:
        R.eval(what)
        R.count('states')
        eng = rng.Policy(.5)
        try:
            def go():
                m = make()
                m.infer(no_samples=1, burn_in_min=1, burn_in_max=1)
            eng.run(go)
        except env.Interactive:
            R.violation('unsupported constellation starts a debugger',
                        machine=what)
            continue
        except Exception:
            continue
        R.violation('unsupported constellation is sampled without an error',
                    machine=what)


def find(R, rates, right, known, what, **detail):
    """the conditional is right, or wrong in the way that is listed"""
    if rates is None or balance_ok(rates, right):
        return False
    if balance_ok(rates, known):
        R.violation(what, requested_log_odds=right, **implied(rates),
                    **detail)
        return True
    R.violation('update in a hierarchy does not leave the conditional '
                'invariant', expected_log_odds=right, **implied(rates),
                **detail)
    return True


def run_inverted(case, R):
    """a latent matrix under a layer with any model, as it is requested"""
    b = case['model']
    for child, axis in (('OR-AND', 0), ('XOR-NAND', 1), (None, 0)):
        T = Tower(child, [b], axis, 2, 2)
        T.mat.bernoulli_prior = .3
        if child is not None:
            T.layer.lbda.val = .6
            T.sib[0].val[:] = 1
            T.data.val[:] = 1
        T.pl[0].lbda.val = .9
        flip = -1 if T.pl[0].invert_factors else 1
        for site in ((0, 1), (1, 0)):
            for rows in itertools.product(PM, repeat=4):
                set_parents(T, rows, site, [2])
                own = np.array([[1, -1], [-1, 1]], dtype=np.int8)
                frozen(T.mat)
                T.mat.fixed_entries[site] = 0
                rates = site_rates(R, T.mat, T.fct, own, site,
                                   'update in a hierarchy', model=b)
                r = (rows[:2], rows[2:])
                requested = .9 * ref.f(b, tuple(tuple(flip * v for v in x)
                                                for x in r))
                rest = T.expected(own, site) - .9 * ref.f(b, r)
                right = rest + requested
                known = rest - requested if T.pl[0].invert_data else right
                R.eval((child, site, rows))
                R.count('states')
                if find(R, rates, right, known, 'a latent matrix is sampled '
                        'under a layer that inverts its data as if the layer '
                        'did not', requested=b, parent_rows=rows,
                        child=child):
                    return


def run_shared(case, R):
    """the layers on one data matrix, the second with any model"""
    b = case['model']
    for first in ('OR-AND', 'XOR-NAND'):
        m = lom.Machine()
        X = np.array([[1, -1, 1]], dtype=np.int8)
        data = m.add_matrix(X.copy(), fixed=True)
        l1 = m.add_layer(latent_size=2, child=data, model=first)
        l2 = m.add_layer(latent_size=2, child=data, model=b)
        for l, model, flip in ((l1, first, 1), (l2, b, -1 if l2.invert_factors
                                                else 1)):
            l.lbda.val = .7
            mat, sib = l.factors
            mat.bernoulli_prior = .4
            fct = update_fct(mat)
            for bits in itertools.product(PM, repeat=6):
                sib.val = np.array(bits, dtype=np.int8).reshape(3, 2)
                for own in itertools.product(PM, repeat=2):
                    own = np.array([own], dtype=np.int8)
                    frozen(mat)
                    mat.fixed_entries[0, 0] = 0
                    rates = site_rates(R, mat, fct, own, (0, 0),
                                       'update in a hierarchy', model=b)

                    # signs of the represented and of the stored factors
                    def score(model, X, flip):
                        return flip * .7 * ref.score(
                            model, [ref.tup(flip * own),
                                    ref.tup(flip * sib.val)], X, 0, 0, 0)
                    right = score(model, X, flip) + ref.logit(.4)
                    known = right
                    if l is l1 and l2.invert_data:
                        known = score(model, -X, flip) + ref.logit(.4)
                    R.eval((first, l is l1, bits, own.tobytes()))
                    R.count('states')
                    if find(R, rates, right, known, 'a layer that inverts its'
                            ' data inverts them for other layers of the same'
                            ' matrix', requested=[first, b], siblings=bits,
                            own=own):
                        return


def run(case, R):
    dict(inverted=run_inverted, shared=run_shared, one=run_parents, two=run_parents, sweep=run_sweep,
         tall=run_tall,
         refused=run_refused).get(case['kind'], run_levels)(case, R)
