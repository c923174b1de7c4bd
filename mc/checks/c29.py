"""
C29: every documented workflow runs through and leaves a valid machine.

All sequences of steps of a user up to a depth - settings, clean-up, added
layers, new data, inference - followed by inference and all outputs, under
several fixed tables of random outcomes.  After every step the machine has to
be valid: structure, alphabets, fixed parts, traces, outputs.
"""
import itertools
import traceback

import numpy as np

from mc import env, ref, rng
from mc.common import aux, factors, lom, machine

ID = 'C29'
LEVEL = 'model_checking'
RULE = ('one evaluation = one sequence of steps, all invariants after every'
        ' step; non-trivial = distinct (model, shape, sequence)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'settings within their documented range']
BOUNDS = {'quick': 'all sequences of <= 2 of 16-22 steps (all models), of 3'
                   ' (5 models), then inference; 2 tables of outcomes',
          'thorough': 'all sequences of <= 3 steps, all models'}

BASIC = ['fix_all', 'infer', 'short', 'data', 'hole', 'blank', 'lambda0', 'lambda1000',
         'fix_lambda', 'beta', 'fix0', 'free', 'entries', 'map', 'ones',
         'minus', 'first_fixed_entries_all']
LOM = BASIC + ['prior0', 'prior1', 'anneal', 'clean', 'reset', 'auto_clean',
               'auto_reset', 'hier', 'second', 'loose', 'own_ibp', 'own_max']
MAX = [x for x in BASIC if x not in ('lambda0', 'lambda1000', 'beta')] + [
    'clean', 'reset', 'auto_clean', 'lambda_eq', 'lambda_01', 'loose', 'own_ql']
QL = BASIC + ['prior0', 'prior1', 'q', 'fix_q', 'gamma', 'loose', 'anneal',
              'own_ibp']
IBP = [x for x in BASIC if x not in ('entries', 'first_fixed_entries_all',
                                     'fix0')] + [
    'prior1', 'alpha', 'loose', 'anneal', 'own_lom']

DEEP = ('OR-AND', 'XOR-NAND', 'MAX-AND', 'qL-AND', 'OR-AND-IBP')


def steps(model, K):
    if model == 'MAX-AND':
        return MAX
    if model == 'qL-AND':
        return QL
    if model == 'OR-AND-IBP':
        return IBP
    if K == 3:
        return [s for s in LOM if s != 'hier']
    return LOM


def cases(tier):
    t = tier == 'thorough'
    out = []
    for model in ref.MODELS + ('MAX-AND', 'qL-AND', 'OR-AND-IBP',
                               'AND-OR', 'NOR-NXOR'):
        for K in (2, 3):
            if K == 3 and (model in ('MAX-AND', 'qL-AND', 'OR-AND-IBP')):
                continue
            out.append(dict(model=model, K=K, first=None, depth=1))
            for first in steps(model, K):
                deep = t or (model in DEEP and K == 2)
                out.append(dict(model=model, K=K, first=first,
                                depth=3 if deep else 2))
    return out


class User:
    def __init__(self, model, K, n):
        self.model, self.K = model, K
        shape = ((2, 3), (3, 2, 2))[K - 2]
        if n % 2:
            shape = ((3, 2), (2, 2, 3))[K - 2]
        i = np.arange(int(np.prod(shape))).reshape(shape)
        self.m, self.d, self.layer = machine(
            model, np.where(i * 5 % 3 == 0, -1, 1), 1 + n % 2)
        self.data = self.d.val.copy()
        for k, f in enumerate(factors(self.layer)):
            j = np.arange(f.val.size).reshape(f.val.shape)
            f.val = np.where((j * 3 + k) % 4 < 2, 1, -1).astype(np.int8)
        if model == 'OR-AND-IBP':
            self.layer.alpha = 1.5
        self.layers = [self.layer]
        self.loose = []
        self.samples = 0
        self.n = n

    def members(self):
        out = []
        for layer in self.layers:
            out += factors(layer)
            if layer.model == 'qL-AND':
                out.append(layer.q)
        return out + self.loose

    def do(self, step, table):
        m, d, layer = self.m, self.d, self.layer
        fs = factors(layer)
        if step == 'infer':
            return self.infer(table, 2, 3, 2)
        if step == 'short':
            return self.infer(table, 1, 1, 1)
        if step == 'data':
            d.val = np.roll(-d.val, 1, axis=0)
        elif step == 'hole':
            d.val = d.val.copy()
            d.val[(0,) * self.K] = 0
        elif step == 'blank':
            d.val = d.val.copy()
            d.val[-1] = 0
        elif step in ('lambda0', 'lambda1000'):
            layer.lbda.val = float(step[6:])
        elif step == 'lambda_eq':
            layer.lbda.val = np.full(layer.size + 1, .6)
        elif step == 'lambda_01':
            layer.lbda.val = np.where(np.arange(layer.size + 1) % 2, 0., 1.)
        elif step == 'fix_lambda':
            layer.lbda.fixed = True
        elif step == 'beta':
            layer.lbda.beta_prior = (3., .5)
        elif step == 'fix0':
            fs[0].fixed = True
        elif step == 'fix_all':
            for f in fs:
                f.fixed = True
        elif step == 'free':
            for x in self.members() + [y.lbda for y in self.layers]:
                x.fixed = any(x is y for y in self.loose)
            for x in fs:
                x.fixed_entries = np.zeros(x.val.shape, dtype=np.int8)
        elif step == 'entries':
            fe = np.zeros(fs[1].val.shape, dtype=np.int8)
            fe[::2] = 1
            fs[1].fixed_entries = fe
        elif step == 'first_fixed_entries_all':
            fs[0].fixed_entries = np.ones(fs[0].val.shape, dtype=np.int8)
        elif step == 'map':
            # (not for samples from before a clean-up)
            if all(not hasattr(f, 'trace') or f.trace.shape[1:] == f.val.shape
                   for f in fs):
                for f in fs:
                    f.set_to_map()
        elif step in ('ones', 'minus'):
            for f in fs:
                f.val = np.full(f.val.shape, 1 if step == 'ones' else -1,
                                dtype=np.int8)
        elif step in ('prior0', 'prior1'):
            fs[int(step[-1])].bernoulli_prior = .02 if self.n % 3 else .999
        elif step == 'anneal':
            m.anneal = not m.anneal
            layer.lbda.val = 2.
        elif step in ('clean', 'reset'):
            aux.clean_up_codes(layer, step == 'reset', step == 'clean')
        elif step in ('auto_clean', 'auto_reset'):
            setattr(layer, step, True)
        elif step == 'hier':
            if len(self.layers) < 3 and fs[0].val.shape[1]:
                self.layers.append(m.add_layer(latent_size=2, child=fs[0],
                                               model='OR-AND'))
        elif step == 'second':
            if d.val.ndim == self.K and len(self.layers) < 3:
                self.layers.append(m.add_layer(latent_size=1, child=d,
                                               model='XOR-AND'))
        elif step == 'loose':
            x = m.add_matrix(shape=(2, 2), fixed=True)
            x.bernoulli_prior = .3
            self.loose.append(x)
        elif step[:4] == 'own_':
            # an independent layer of another kind in the same machine
            if len(self.layers) < 3:
                x = m.add_matrix(np.array([[1, -1], [-1, 1], [1, 1]],
                                          dtype=np.int8), fixed=True)
                self.loose.append(x)
                self.layers.append(m.add_layer(
                    latent_size=2, child=x, model=dict(
                        ibp='OR-AND-IBP', max='MAX-AND', ql='qL-AND',
                        lom='XOR-NAND')[step[4:]]))
        elif step == 'q':
            layer.q.val[:] = 1 + np.arange(layer.q.val.size) % layer.size
        elif step == 'fix_q':
            layer.q.fixed = True
        elif step == 'gamma':
            layer.gamma = 3.
        elif step == 'alpha':
            layer.alpha = .3
        else:
            raise KeyError(step)
        if step in ('data', 'hole', 'blank'):
            self.data = d.val.copy()
            self.samples_of_data = None

    def cleans(self):
        return any(y.auto_clean or y.auto_reset for y in self.layers)

    def infer(self, table, bmin, bmax, ns):
        frozen = []
        for x in self.members():
            if x.fixed:
                frozen.append((x, None, x.val.copy()))
            elif np.any(x.fixed_entries) and x.val.shape == \
                    x.fixed_entries.shape:
                w = x.fixed_entries == 1
                frozen.append((x, w, x.val[w].copy()))
        for y in self.layers:
            if y.lbda.fixed:
                frozen.append((y.lbda, None, np.array(y.lbda.val, copy=True)))
        def dims():
            return [y.size for y in self.layers if y.model != 'OR-AND-IBP']
        sizes = dims()
        if self.cleans():
            # long enough to converge and go on after a clean-up
            bmax += 6
        table.run(lambda: self.m.infer(
            no_samples=ns, burn_in_min=bmin, burn_in_max=bmax,
            convergence_window=2, convergence_eps=1. if self.cleans() else .2,
            fix_lbda_iters=0 if self.m.anneal else 1))
        self.samples = ns
        if dims() == sizes:
            for x, w, old in frozen:
                new = x.val if w is None else x.val[w]
                if not np.array_equal(new, old):
                    return 'a fixed value changes'
        elif not self.cleans():
            return 'the number of dimensions changes'
        for x in self.members() + [y.lbda for y in self.layers]:
            if x.fixed:
                if hasattr(x, 'trace'):
                    return 'a fixed member has samples'
            elif len(x.trace) != ns:
                return 'number of samples'

    def invalid(self):
        """the violated invariant or None"""
        m = self.m
        if list(m.layers) != self.layers:
            return 'layers of the machine'
        if set(map(id, m.members)) != set(map(id, self.members() + [self.d])):
            return 'members of the machine'
        if not np.array_equal(self.d.val, self.data):
            return 'the data change'
        for y in self.layers:
            c = y.child
            if y not in c.parents:
                return 'family'
            if [f.val.shape for f in factors(y)] != [
                    (k, y.size) for k in c.val.shape]:
                return 'shapes %s of a layer on %s' % (
                    [f.val.shape for f in factors(y)], c.val.shape)
            lam = np.asarray(y.lbda.val, dtype=float)
            if np.isnan(lam).any():
                return 'lambda is not a number'
            if y.model == 'MAX-AND':
                if lam.shape != (y.size + 1,) or lam.min() < 0 or \
                        lam.max() > 1:
                    return 'lambda of MAX-AND %s' % lam
            elif lam.shape != ():
                return 'shape of lambda %s' % (lam.shape,)
            for f in factors(y):
                if f.layer is not y:
                    return 'layer of a factor'
                if f.fixed_entries.shape != f.val.shape and \
                        y.model != 'OR-AND-IBP':
                    return 'shape of fixed entries'
        for x in self.members():
            if x.val.dtype != np.int8:
                return 'type of a matrix'
            q = x.layer is not None and x is getattr(x.layer, 'q', None)
            ok = (x.val >= 1) & (x.val <= 5) if q else \
                np.abs(x.val) == 1
            if not ok.all():
                return 'values of a matrix %s' % x.val
            if hasattr(x, 'trace') and not q and not (
                    np.abs(x.trace) == 1).all():
                return 'values of samples %s' % x.trace
        for y in self.layers:
            bad = self.outputs(y)
            if bad:
                return bad

    def outputs(self, y):
        have = [hasattr(f, 'trace') for f in factors(y)]
        # samples of a machine whose structure was changed afterwards do not
        # fit its current state
        same = all(f.trace.shape[1:] == f.val.shape for f, h in
                   zip(factors(y), have) if h) or y.model == 'OR-AND-IBP'
        techs = ['point_estimate']
        if all(have) and same or not any(have):
            techs += ['factor_map', 'factor_mean', 'mc']
            if y.model == 'MAX-AND' and hasattr(y.lbda, 'trace') and \
                    y.lbda.trace.shape[1:] != y.lbda.val.shape:
                techs = techs[:2]
        if y.model == 'OR-AND-IBP' and any(have):
            # the samples may have more columns than the current state
            techs = [t for t in techs if t != 'mc']
        if y.model in ref.MODELS and len(techs) > 1:
            techs.append('factor_mean_old')
        for t in techs:
            for noisy in (False, True):
                o = np.asarray(y.output(technique=t, noisy_emission=noisy))
                if o.shape != y.child.val.shape:
                    return 'shape of output %s' % t
                if not (np.isfinite(o).all() and (o >= -1e-9).all() and
                        (o <= 1 + 1e-9).all()):
                    return 'output %s is not a probability: %s' % (t, o)


def run(case, R):
    model, K, first, depth = (case[k] for k in ('model', 'K', 'first',
                                                'depth'))
    ops = steps(model, K)
    if first is None:
        seqs = [()]
    else:
        seqs = []
        for d in range(depth):
            seqs += [(first,) + s for s in itertools.product(ops, repeat=d)]
    for n, seq in enumerate(seqs):
        for table in range(2):
            if table and len(seq) > 2:
                continue
            u = User(model, K, n + table)
            tab = rng.Policy((.5, .02)[(table + n) % 2],
                             pick=lambda i, k, n=n: (i + n) % k)
            done = []
            for step in seq + ('infer',):
                done.append(step)
                try:
                    bad = u.do(step, tab) or u.invalid()
                except Exception as e:
                    tb = e.__traceback__
                    if isinstance(e, env.SeamMissing) or \
                            not env.in_library(tb):
                        raise
                    f = traceback.extract_tb(tb)
                    f = [x for x in f if x.filename.startswith(env.REPO)][-1]
                    bad = '%s: %s in %s (%s)' % (
                        type(e).__name__, e, f.name, f.line)
                R.count('transitions')
                R.count('traces_validated_against_impl')
                if bad:
                    R.violation('the machine is not valid after a sequence of '
                                'documented steps: ' + bad.split(':')[0], model=model, K=K,
                                steps=done, invalid=bad)
                    break
            R.count('states', len(seq) + 2)
        R.eval((model, K, seq))
    R.sample(dict(case=case, sequences=len(seqs)))
