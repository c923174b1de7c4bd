"""
C15: loops declared parallel give the same result under every schedule.

The real functions of the library run with every iteration of a prange loop as
a thread under a controlled scheduler (mc/par.py); compared with the loop as
it is written, run sequentially:

 orders     - all orders of the iterations, many states
 interleave - all interleavings of lines of code with at most c preemptions
"""
import itertools

import numpy as np

from mc import par
par.install()

from mc import ref                                     # noqa: E402
from mc.common import factors, lbda_fct, lom, machine, update_fct  # noqa: E402
from mc.checks.c06 import Tower                        # noqa: E402

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('one evaluation = one schedule of one operation in one state;'
        ' non-trivial = distinct (operation, state) in which a parallel loop'
        ' with at least two iterations ran')
ASSUMPTIONS = ['numba gives every iteration private copies of the names its'
               ' body assigns and treats op= of a scalar as a reduction',
               'one line of Python is atomic, except that an update of an'
               ' element of an array is a read and a write',
               'every iteration has its own stream of random numbers']
BOUNDS = {'quick': 'orders: all permutations of 3 iterations, every n-th of'
                   ' all states; interleavings: 2 iterations, 1 preemption,'
                   ' 2 states per machine (2 preemptions: 4 models, 1 latent'
                   ' dimension)',
          'thorough': 'more states; all machines with 2 preemptions (2 states,'
                      ' 1 latent dimension), 3 iterations with 1 preemption'}

M8 = ref.MODELS
SPECIAL = ('MAX-AND', 'qL-AND', 'OR-AND-IBP')


def cases(tier):
    t = tier == 'thorough'
    out = []
    worlds = []
    for model in ref.ALL_MODELS:
        worlds.append(dict(model=model, K=2, how='plain'))
        if model in M8:
            worlds.append(dict(model=model, K=3, how='plain'))
    for i, a in enumerate(M8):
        b = M8[(i * 3 + 1) % 8]
        for axis in (0, 1):
            worlds.append(dict(model=a, K=2, how='one', parents=[b],
                               axis=axis))
        worlds.append(dict(model=a, K=3, how='one', parents=[b], axis=i % 3))
        worlds.append(dict(model=a, K=2, how='two', axis=i % 2,
                           parents=[b, M8[(i + 3) % 8]]))
        worlds.append(dict(model=None, K=2, how='one', parents=[a], axis=0))
        worlds.append(dict(model=None, K=2, how='two', parents=[a, b],
                           axis=0))
    for w in worlds:
        out.append(dict(kind='orders', n=3, states=400 if t else 24, **w))
        out.append(dict(kind='interleave', n=2, bound=1,
                        states=60 if t else 2, **w))
        if t:
            out.append(dict(kind='interleave', n=2, bound=2, L=1, states=2,
                            **w))
            out.append(dict(kind='interleave', n=3, bound=1, states=12, **w))
    for u in (.2, .5, .65, .9):     # thresholds depend on both columns
        out.append(dict(kind='interleave', n=2, bound=1, u=u,
                        states=40 if t else 8, op='update of q',
                        model='qL-AND', K=2, how='plain'))
    if not t:
        for a in ('OR-AND', 'MAX-AND', 'qL-AND', 'XOR-NAND'):
            out.append(dict(kind='interleave', n=2, bound=2, L=1, states=1,
                            model=a, K=2, how='plain'))
    return out


class World:
    def __init__(self, case, n):
        model, K = case['model'], case['K']
        L = case.get('L', 2)
        if case['how'] == 'plain':
            shape = (n, 2) if K == 2 else (n, 2, 1)
            if L == 1:
                shape = (n,) + (1,) * (K - 1)
            self.shape = shape
            self.m, self.d, self.layer = machine(
                model, np.ones(shape, dtype=np.int8), L)
            self.layers, mats = [self.layer], list(factors(self.layer))
            if model == 'OR-AND-IBP':
                self.layer.alpha = 2.
        else:
            T = Tower(model, case['parents'], case['axis'], K, 2, N=n, L=L)
            self.m, self.layer = T.m, T.layer
            self.d = T.data
            self.layers = ([T.layer] if T.layer is not None else []) + T.pl
            mats = [T.mat] + list(T.sib)
            for p in T.pl:
                mats += list(p.factors)
        self.model = model
        self.mats = mats
        self.ops = {}
        for k, f in enumerate(mats):
            self.ops['update of factor %d' % k] = self.update(f)
        for k, l in enumerate(self.layers):
            self.ops['update of lambda %d' % k] = self.lbda(l)
            for t in ('point_estimate', 'factor_mean', 'factor_map', 'mc'):
                self.ops['output %d %s' % (k, t)] = self.output(l, t)
        if model == 'qL-AND':
            self.ops['update of q'] = self.update(self.layer.q)
        if case['how'] == 'plain':
            self.ops['sweep'] = self.sweep
        self.bits = sum(m.val.size for m in mats)
        self.cells = 0 if self.d is None else self.d.val.size
        self.size = [m.val.shape for m in mats]

    def update(self, mat):
        fct = update_fct(mat)
        return lambda: fct(mat)

    def lbda(self, layer):
        fct = lbda_fct(layer.lbda)
        return lambda: fct(layer.lbda)

    def output(self, layer, technique):
        def go():
            self.out.append(np.array(layer.output(technique=technique),
                                     dtype=float))
        return go

    def sweep(self):
        self.m.infer(no_samples=1, burn_in_min=0, burn_in_max=0)

    def states(self, k):
        """k states, spread over all of them"""
        total = 2**self.bits * 3**self.cells
        step = max(1, total // k) | 1
        return [(i * step) % total for i in range(min(k, total))]

    def restore(self, s):
        """put everything into state number s"""
        s = (s * 2654435761 + 12345) % (2**self.bits * 3**self.cells)
        for m, shape in zip(self.mats, self.size):
            v = np.empty(shape, dtype=np.int8)
            for i in np.ndindex(*shape):
                v[i] = 1 if s % 2 else -1
                s //= 2
            m.val = v
            m.fixed_entries = np.zeros(shape, dtype=np.int8)
            m.sampling_fct = None
            # two samples
            m.trace = np.array([v, np.roll(v, 1, axis=0)], dtype=np.int8)
        if self.d is not None:
            v = np.empty(self.d.val.shape, dtype=np.int8)
            for i in np.ndindex(*v.shape):
                v[i] = (1, -1, 0)[s % 3]
                s //= 3
            self.d.val = v
        for k, l in enumerate(self.layers):
            l.lbda.sampling_fct = None
            if l.model == 'MAX-AND':
                l.lbda.val = np.array([.7, .9, .2])
                l.lbda.val = l.lbda.val[-1 - l.size:]
                l.lbda.trace = np.array([l.lbda.val, l.lbda.val])
            else:
                l.lbda.val = .8 + .5 * k
                l.lbda.trace = np.array([[.8], [.9]])
        if self.model == 'qL-AND':
            q = self.layer.q
            q.val = np.array([[1, 2][:q.val.shape[1]]], dtype=np.int8)
            q.sampling_fct = None
            q.trace = np.array([q.val, q.val], dtype=np.int8)
        self.out = []

    def result(self):
        """everything that can be seen afterwards"""
        out = [m.val for m in self.mats]
        out += [np.asarray(l.lbda.val, dtype=float) for l in self.layers]
        if self.model == 'qL-AND':
            out.append(self.layer.q.val)
        if self.d is not None:
            out.append(self.d.val)
        return [np.array(x) for x in out + self.out]


def same(a, b):
    return len(a) == len(b) and all(
        x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=1e-12,
                                           equal_nan=True)
        for x, y in zip(a, b))


class Failed(Exception):
    pass


def attempt(W, op, s, plan, u):
    W.restore(s)
    try:
        par.execute(W.ops[op], plan, u)
    except (UnboundLocalError, NameError) as e:
        return repr(e)
    return W.result()


def compare(R, W, case, op, s, u, base, plan, **detail):
    res = attempt(W, op, s, plan, u)
    if par.PAR.multi:
        R.eval((op, s, u))
    R.count('traces_validated_against_impl')
    R.count('transitions', par.PAR.tasks_run + par.PAR.steps)
    if isinstance(res, str):
        R.violation('an iteration of a parallel loop uses a value of another'
                    ' iteration', operation=op, error=res, state=s, **detail)
        return False
    if not same(base, res):
        bad = [i for i, (x, y) in enumerate(zip(base, res))
               if x.shape != y.shape or not np.allclose(x, y, equal_nan=True)]
        R.violation('result of a parallel loop depends on the schedule',
                    operation=op, state=s, sequential=[base[i] for i in bad],
                    scheduled=[res[i] for i in bad], uniform=u, **detail)
        return False
    return True


TABLES = (.37, .83)


def run(case, R):
    globals()[case['kind']](case, R)


def base_of(R, W, op, s, u):
    """the loop as it is written; None if the operation is refused"""
    return attempt(W, op, s, None, u)


def orders(case, R):
    n = case['n']
    W = World(case, n)
    perms = [p for p in itertools.permutations(range(n))
             if p != tuple(range(n))]

    def order(p):
        return lambda k: [i for i in p if i < k] + list(range(len(p), k))
    for s in W.states(case['states']):
        R.count('states')
        for op in W.ops:
            u = TABLES[s % 2]
            base = base_of(R, W, op, s, u)
            for p in perms:
                if not compare(R, W, case, op, s, u, base,
                               par.Orders(order(p)), order=p):
                    break
                if not par.PAR.multi:
                    break
    R.sample(dict(op=op, state=s, loops=par.PAR.loops))


def interleave(case, R):
    W = World(case, case['n'])
    for s in W.states(case['states']):
        R.count('states')
        for op in W.ops:
            if op == 'sweep' and R.n.get('states') > 1:
                continue
            if case.get('op', op) != op:
                continue
            u = case.get('u', TABLES[s % 2])
            base = base_of(R, W, op, s, u)
            plan = par.Interleave(case['bound'])
            for _ in plan.explore():
                if not compare(R, W, case, op, s, u, base, plan,
                               schedule_number=plan.schedules):
                    break
                if not par.PAR.multi:
                    break
            R.count('schedules', plan.schedules)
    R.sample(dict(op=op, state=s, schedules=plan.schedules))
