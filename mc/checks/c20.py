"""
C20: every call of inference uses the settings of that moment.

All sequences of operations of a user up to a depth (with calls of inference
in between), then one call of inference; compared with a fresh machine that
is given the present values and settings:

 table - under several fixed tables of random outcomes: everything identical
 exact - tiny machines, all random outcomes: same distribution of the results
"""
import itertools

import numpy as np

from mc import ref, rng
from mc.common import factors, lom, machine

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('one evaluation = one sequence of operations, final call of inference'
        ' compared with that of a fresh machine; non-trivial = distinct'
        ' (model, sequence) with a call of inference before the last operation'
        ' or at the end')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'update functions assigned by the user are used as they are']
BOUNDS = {'quick': 'all sequences of length <= 3 over 11-15 operations that'
                   ' contain an inference, 2 tables of outcomes; exact: length'
                   ' 2 on 1x1 data',
          'thorough': 'length <= 4; exact: length 3'}

MODELS = ref.MODELS + ('MAX-AND', 'qL-AND', 'OR-AND-IBP')
COMMON = ['infer', 'sweep', 'data', 'hole', 'lbda', 'fix_lbda', 'free_all',
          'in_place', 'anneal']
OPS = {
    'lfm': COMMON + ['prior0', 'prior1', 'fix0', 'entry1', 'beta', 'own',
                     'hier'],
    'tensor': COMMON + ['prior0', 'prior2', 'fix0', 'entry1', 'beta', 'own'],
    'MAX-AND': COMMON + ['fix0', 'entry1', 'own', 'lbda_order'],
    'qL-AND': COMMON + ['prior0', 'prior1', 'fix0', 'entry1', 'beta', 'q',
                        'fix_q', 'gamma', 'own'],
    'OR-AND-IBP': ['infer', 'sweep', 'data', 'hole', 'lbda', 'fix_lbda',
                   'in_place', 'prior1', 'alpha', 'beta', 'own'],
}


def alphabet(model, K):
    if K == 3:
        return OPS['tensor']
    return OPS.get(model, OPS['lfm'])


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in MODELS:
        for K in (2, 3):
            if K == 3 and model not in ref.MODELS:
                continue
            # the first operation splits the space
            for first in alphabet(model, K):
                out.append(dict(kind='table', model=model, K=K, first=first,
                                depth=4 if t else 3))
            out.append(dict(kind='exact', model=model, K=K,
                            depth=3 if t else 2))
    return out


# --------------------------------------------------------- the live system
class System:
    """a machine and what the user has asked for"""

    def __init__(self, model, K, shape, L):
        self.model, self.K = model, K
        i = np.arange(int(np.prod(shape))).reshape(shape)
        X = np.where(i * 5 % 3 == 0, -1, 1).astype(np.int8)
        self.m, self.d, self.layer = machine(model, X, L)
        self.set = {}           # settings by (object, attribute)
        self.user = {}          # user's own update functions
        self.n = 0
        for k, f in enumerate(factors(self.layer)):
            j = np.arange(f.val.size).reshape(f.val.shape)
            f.val = np.where((j * 3 + k) % 4 < 2, 1, -1).astype(np.int8)
        self.hier = None
        if model == 'OR-AND-IBP':
            self.put('layer', 'alpha', 2.)

    def obj(self, name):
        if name == 'layer':
            return self.layer
        if name == 'lbda':
            return self.layer.lbda
        if name == 'q':
            return self.layer.q
        if name == 'data':
            return self.d
        return factors(self.layer)[name]

    def put(self, name, attr, value):
        setattr(self.obj(name), attr, value)
        self.set[name, attr] = value

    def apply(self, op, table):
        self.n += 1
        n, layer = self.n, self.layer
        if op == 'infer':
            return infer(self.m, table)
        if op == 'sweep':
            return sweep(self.m, table)
        if op == 'data':
            self.d.val = np.roll(-self.d(), n, axis=0)
        elif op == 'hole':
            v = self.d.val.copy()
            v[(0,) * v.ndim] = 0
            self.d.val = v
        elif op == 'lbda':
            if self.model == 'MAX-AND':
                layer.lbda.val = np.linspace(.9, .2, layer.size + 1)
            else:
                layer.lbda.val = (.4, 2., 1.1)[n % 3]
        elif op == 'lbda_order':
            v = np.array(layer.lbda.val)
            v[:-1] = v[:-1][::-1].copy() * .9 + .05
            layer.lbda.val = v
        elif op == 'in_place':
            # the same arrays with other entries
            for x in [self.d] + list(factors(layer)):
                if x.val.size:
                    x.val.flat[n % x.val.size] *= -1
            if np.ndim(layer.lbda.val):
                layer.lbda.val[:-1] = .9 * layer.lbda.val[:-1][::-1] + .05
            if self.model != 'OR-AND-IBP':
                fe = factors(layer)[1].fixed_entries
                fe[:1, :1] = 1 - fe[:1, :1]
        elif op == 'anneal':
            self.m.anneal = not self.m.anneal
        elif op == 'fix_lbda':
            self.put('lbda', 'fixed', True)
        elif op == 'free_all':
            for x in list(range(self.K)) + ['lbda']:
                self.put(x, 'fixed', False)
            for k in range(self.K):
                factors(layer)[k].fixed_entries = np.zeros(
                    factors(layer)[k]().shape, dtype=np.int8)
        elif op.startswith('prior'):
            k = int(op[-1])
            old = self.set.get((k, 'bernoulli_prior'), .5)
            self.put(k, 'bernoulli_prior', .15 if old != .15 else .8)
        elif op == 'fix0':
            self.put(0, 'fixed', True)
        elif op == 'entry1':
            fe = np.zeros(factors(layer)[1]().shape, dtype=np.int8)
            fe[0, n % fe.shape[1]] = 1
            factors(layer)[1].fixed_entries = fe
        elif op == 'beta':
            self.put('lbda', 'beta_prior', ((4, 1), (1, 3))[n % 2])
        elif op == 'gamma':
            self.put('layer', 'gamma', (3., .4)[n % 2])
        elif op == 'alpha':
            self.put('layer', 'alpha', (.5, 6.)[n % 2])
        elif op == 'q':
            layer.q.val = np.full(layer.q().shape, 1 + n % 3, dtype=np.int8)
        elif op == 'fix_q':
            self.put('q', 'fixed', True)
        elif op == 'own':
            mat = factors(layer)[self.K - 1]
            if 'own' in self.user:
                mat.sampling_fct = None
                del self.user['own']
            else:
                fct = own_update
                mat.sampling_fct = fct
                self.user['own'] = fct
        elif op == 'hier':
            if self.hier is None:
                self.hier = self.m.add_layer(
                    latent_size=1, child=factors(layer)[0],
                    model='XOR-AND')
                for f in factors(self.hier):
                    f.val = np.where(np.arange(f.val.size).reshape(
                        f.val.shape) % 2 == 0, 1, -1).astype(np.int8)
            else:
                self.hier.lbda.val = 1.7
        else:
            raise ValueError(op)

    def clone(self):
        """a new machine with the present values and settings"""
        new = System.__new__(System)
        new.model, new.K = self.model, self.K
        new.m, new.d, new.layer = machine(self.model, self.d().copy() * (
            -1 if self.layer.invert_data else 1), self.layer.size)
        new.d.val = self.d().copy()
        new.m.anneal = self.m.anneal
        new.hier = None
        if self.hier is not None:
            new.hier = new.m.add_layer(latent_size=self.hier.size,
                                       child=factors(new.layer)[0],
                                       model='XOR-AND')
        for a, b in self.pairs(new):
            b.val = np.array(a.val) if np.ndim(a.val) else a.val
            b.fixed = a.fixed
            if hasattr(a, 'fixed_entries'):
                b.fixed_entries = np.array(a.fixed_entries)
        for (name, attr), v in self.set.items():
            setattr(new.obj(name), attr, v)
        for fct in self.user.values():
            factors(new.layer)[self.K - 1].sampling_fct = fct
        return new

    def parts(self):
        out = list(factors(self.layer)) + [self.layer.lbda]
        if self.model == 'qL-AND':
            out.append(self.layer.q)
        if self.hier is not None:
            out += list(factors(self.hier)) + [self.hier.lbda]
        return out

    def pairs(self, new):
        return list(zip(self.parts(), new.parts()))

    def settings_kept(self, R, seq):
        for (name, attr), v in self.set.items():
            R.check(getattr(self.obj(name), attr) == v,
                    'inference changes a setting of the user',
                    operations=seq, setting=[name, attr], value=v,
                    now=getattr(self.obj(name), attr))


def own_update(mat):
    mat.val = -mat.val


def infer(m, table):
    more = dict(burn_in_min=3, fix_lbda_iters=0) if m.anneal else dict(
        burn_in_min=1)
    rng.Policy(table).run(lambda: m.infer(
        no_samples=2, convergence_window=2, convergence_eps=.05,
        burn_in_max=4, **more))


def sweep(m, table):
    rng.Policy(table).run(lambda: m.infer(no_samples=1, burn_in_min=0,
                                          burn_in_max=0,
                                          fix_lbda_iters=0))


TABLES = [lambda i: (i * .6180339887 + .21) % 1,
          lambda i: (i * i * .4142135623 + .77) % 1]


def differences(a, b):
    """names of what differs between two systems"""
    out = []
    for k, (x, y) in enumerate(a.pairs(b)):
        if not np.array_equal(np.asarray(x.val), np.asarray(y.val)):
            out.append('value of member %d' % k)
        tx, ty = getattr(x, 'trace', None), getattr(y, 'trace', None)
        if (tx is None) != (ty is None):
            out.append('member %d has a trace' % k)
        elif tx is not None and not np.array_equal(tx, ty):
            out.append('trace of member %d' % k)
    if a.layer.size != b.layer.size:
        out.append('size')
    if getattr(a.m, 'burn_in_iters', 0) != getattr(b.m, 'burn_in_iters', 0):
        out.append('burn-in iterations')
    for tech in ('factor_mean', 'mc', 'factor_map', 'point_estimate'):
        if not np.array_equal(a.layer.output(technique=tech),
                              b.layer.output(technique=tech)):
            out.append('output ' + tech)
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def relevant(seq):
    """an inference before the last operation, or at the end"""
    return any(op in ('infer', 'sweep') for op in seq)


def table(case, R):
    model, K = case['model'], case['K']
    shape, L = ((3, 2) if K == 2 else (2, 2, 1)), 2
    ops = alphabet(model, K)
    for depth in range(1, case['depth'] + 1):
        for rest in itertools.product(ops, repeat=depth - 1):
            seq = (case['first'],) + rest
            if not relevant(seq):
                continue
            tab = TABLES[(hash_of(seq) + depth) % 2]
            s = System(model, K, shape, L)
            for op in seq:
                s.apply(op, tab)
                R.count('transitions')
            fresh = s.clone()
            s.settings_kept(R, seq)
            before = [p.fixed for p in s.parts()]
            last = TABLES[hash_of(seq) // 2 % 2]
            infer(s.m, last)
            infer(fresh.m, last)
            diff = differences(s, fresh)
            R.check(not diff, 'inference after a history of operations is not'
                    ' that of a fresh machine with the same settings',
                    model=model, K=K, operations=seq, differences=diff)
            s.settings_kept(R, seq)
            R.check(before == [p.fixed for p in s.parts()],
                    'inference changes what is fixed', operations=seq)
            R.eval(seq)
            R.count('states', 2)
            R.count('traces_validated_against_impl')
    R.sample(dict(operations=seq))


def hash_of(seq):
    return sum((i + 1) * sum(map(ord, s)) for i, s in enumerate(seq))


def exact(case, R):
    """all random outcomes of the last sweep"""
    model, K = case['model'], case['K']
    shape, L = (1,) * K, 1 if K == 3 or model == 'OR-AND-IBP' else 2
    ops = [o for o in alphabet(model, K)]
    for depth in range(1, case['depth'] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if not relevant(seq):
                continue
            dists = []
            s = System(model, K, shape, L)
            for op in seq:
                s.apply(op, TABLES[hash_of(seq) % 2])
            if s.layer.size == 0:
                continue
            start = s.clone()
            for which in (s, start):
                if which is s:
                    vals = [(np.array(p.val),
                             np.array(getattr(p, 'fixed_entries', 0)))
                            for p in start.parts()]

                def go():
                    # as many columns in every path
                    for p, (v, fe) in zip(which.parts(), vals):
                        p.val = v.copy() if v.ndim else float(v)
                        if fe.ndim:
                            p.fixed_entries = fe.copy()
                    which.m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)
                    return tuple(np.round(np.asarray(p.val, dtype=float), 9)
                                 .tobytes() + repr(np.shape(p.val)).encode()
                                 for p in which.parts())
                eng = rng.Dfs(300000)
                dists.append(eng.distribution(go))
                R.count('traces_validated_against_impl', eng.paths)
            a, b = dists
            bad = [k for k in set(a) | set(b)
                   if abs(a.get(k, 0) - b.get(k, 0)) > 1e-9]
            R.check(not bad, 'distribution of a sweep after a history of'
                    ' operations is not that of a fresh machine', model=model,
                    K=K, operations=seq,
                    probabilities=[[a.get(k, 0), b.get(k, 0)]
                                   for k in bad[:3]])
            R.eval(('exact', seq))
            R.count('states', 2)
            R.count('transitions', len(a))
