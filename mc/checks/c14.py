"""
C14: inference is a function of data, settings and the state of the global
generator.

 history  - all sequences of previous operations of the process up to a
            depth, then seed + inference; bit-identical with a first run
 memory   - all combinations of contents of uninitialised memory, allocation
            patterns and other sources of entropy (clock, OS, other
            generators), the seed fixed
 process  - processes with different hash seeds
"""
import contextlib
import hashlib
import itertools
import json
import os
import random as pyrandom
import subprocess
import sys
import time

import numpy as np

from mc import ref
from mc.common import aux, experiments, factors, lom, machine
from mc.framework import VERIF

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('one evaluation = one run of inference after a history in an'
        ' environment, compared with the first run; non-trivial = distinct'
        ' (scenario, history, environment) other than the first run')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1), one process at a time',
               'uninitialised memory enters through numpy.empty, empty_like']
BOUNDS = {'quick': '40 scenarios; all histories of length <= 2 over 13'
                   ' operations; 5 contents of memory x 3 allocation patterns'
                   ' x 3 entropies; 6 hash seeds',
          'thorough': 'histories of length 3, several seeds'}

# ----------------------------------------------------------------- scenarios
SCEN = {}
for _m in ref.ALL_MODELS:
    SCEN['2d ' + _m] = dict(model=_m, K=2)
for _m in ref.MODELS:
    SCEN['3d ' + _m] = dict(model=_m, K=3)
for _m in ('OR-AND', 'XOR-NAND', 'NAND-AND'):
    SCEN['clean ' + _m] = dict(model=_m, K=2, L=3, auto_clean=True)
    SCEN['reset ' + _m] = dict(model=_m, K=2, L=3, auto_reset=True)
    SCEN['anneal ' + _m] = dict(model=_m, K=2, anneal=True)
    SCEN['hier ' + _m] = dict(model=_m, K=2, hier='XOR-AND')
SCEN['priors'] = dict(model='OR-AND', K=2, prior=.2, beta=(3, 2))
SCEN['fixed'] = dict(model='OR-AND', K=2, fix=True)


def data(K, variant=0):
    shape = (4, 3) if K == 2 else (3, 2, 2)
    i = np.arange(int(np.prod(shape))).reshape(shape)
    X = np.where((i * 5 + variant) % 3 == 0, -1, 1).astype(np.int8)
    X[(1,) * K] = 0
    return X


def build(s, X):
    m, d, layer = machine(s['model'], X, s.get('L', 2))
    if 'prior' in s:
        for f in factors(layer):
            f.bernoulli_prior = s['prior']
        layer.lbda.beta_prior = s['beta']
    if s.get('fix'):
        factors(layer)[1].fixed = True
    if s.get('auto_clean'):
        layer.auto_clean = True
    if s.get('auto_reset'):
        layer.auto_reset = True
    if s.get('anneal'):
        m.anneal = True
        layer.lbda.val = 2.
    if s['model'] == 'OR-AND-IBP':
        layer.alpha = 2.
    hier = None
    if s.get('hier'):
        hier = m.add_layer(latent_size=2, child=factors(layer)[0],
                           model=s['hier'])
    return m, d, layer, hier


def scenario(name, seed, X=None):
    """-> list of (name, bytes) of all that can be seen"""
    s = SCEN[name]
    if X is None:
        X = data(s['K'])
    np.random.seed(seed)
    m, d, layer, hier = build(s, X)
    if s['model'] == 'MAX-AND' or s.get('hier'):
        kw = dict(burn_in_min=2, burn_in_max=7)
    else:
        kw = dict(burn_in_min=4, burn_in_max=12)
    m.infer(no_samples=3, convergence_window=3, convergence_eps=.05, **kw)
    out = []

    def put(k, v):
        a = np.ascontiguousarray(v)
        out.append((k, str(a.dtype), a.shape, a.tobytes()))
    layers = [layer] + ([hier] if hier is not None else [])
    for i, l in enumerate(layers):
        for k, f in enumerate(factors(l)):
            put('factor %d.%d' % (i, k), f.val)
            if hasattr(f, 'trace'):
                put('trace %d.%d' % (i, k), f.trace)
            put('mean %d.%d' % (i, k), f.mean())
        put('lambda', l.lbda.val)
        if hasattr(l.lbda, 'trace'):
            put('trace of lambda', l.lbda.trace)
            put('mean of lambda', l.lbda.mean())
        put('size', l.size)
        for tech in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
            put('output ' + tech, l.output(technique=tech))
    if s['model'] == 'qL-AND':
        put('q', layer.q.val)
        put('trace of q', layer.q.trace)
    put('data', d.val)
    if s['model'] not in ('qL-AND',):
        put('noisy', layer.output(technique='point_estimate',
                                  noisy_emission=True))
    put('burn-in', m.burn_in_iters)
    put('generator', np.random.random(3))
    return out


def differences(a, b):
    if len(a) != len(b):
        return ['number of results']
    return [x[0] for x, y in zip(a, b) if x != y]


# ---------------------------------------------------------------- operations
def small_infer(model, K=2, L=2, shape=None, **kw):
    X = data(K, 1) if shape is None else np.ones(shape, dtype=np.int8)
    m, d, layer, _ = build(dict(model=model, K=K, L=L, **kw), X)
    m.infer(no_samples=2, convergence_window=2, burn_in_min=1, burn_in_max=4)
    return m, layer


def op_same(name):
    scenario(name, 99)


def op_wide(name):
    small_infer('OR-AND', L=4, shape=(2, 7))


def op_tall(name):
    small_infer('XOR-NAND', L=1, shape=(6, 1))


def op_tensor(name):
    small_infer('NAND-XOR', K=3)


def op_max(name):
    small_infer('MAX-AND', L=3)


def op_ql(name):
    small_infer('qL-AND')


def op_ibp(name):
    small_infer('OR-AND-IBP')


def op_settings(name):
    s = SCEN[name]
    if s['model'] in ('MAX-AND', 'qL-AND', 'OR-AND-IBP'):
        small_infer(s['model'], L=3)
    else:
        small_infer(s['model'], K=s['K'], prior=.9, beta=(9, 1),
                    auto_clean=True)


def op_anneal(name):
    small_infer('OR-AND', anneal=True)


def op_fail(name):
    """inference that ends with an exception of the user's function"""
    m, d, layer = machine('OR-AND', data(2), 2)

    def bad(mat):
        raise KeyError('user')
    factors(layer)[1].sampling_fct = bad
    try:
        m.infer(no_samples=1)
    except KeyError:
        pass


def op_outputs(name):
    """use and overwrite everything that was returned"""
    m, layer = small_infer('XOR-AND')
    for t in ('point_estimate', 'factor_map', 'factor_mean', 'mc'):
        out = layer.output(technique=t)
        out[...] = 0
    for f in factors(layer):
        f.trace[...] = 7
        f.val[...] = -1


def op_invert(name):
    """the same array with a model that inverts its data"""
    X = SHARED[SCEN[name]['K']]
    m, d, layer = machine('NOR-AND' if SCEN[name]['K'] == 2 else 'NAND-AND',
                          X, 3)
    m.infer(no_samples=1, burn_in_min=1, burn_in_max=2)


def op_tools(name):
    X = data(2)
    experiments.split_train_test(X, split=.2)
    aux.split_test_train(X, p=.2)
    aux.add_bernoulli_noise_2d(X.copy(), .2, seed=5)
    aux.random_machine_matrix(.3, (3, 2))


OPS = dict(same=op_same, wide=op_wide, tall=op_tall, tensor=op_tensor,
           max=op_max, ql=op_ql, ibp=op_ibp, settings=op_settings,
           anneal=op_anneal, fail=op_fail, outputs=op_outputs,
           invert=op_invert, tools=op_tools)
SHARED = {}


# --------------------------------------------------------------- environment
FILLS = {'zero': (0, 0.), 'one': (1, 1.), 'minus': (-1, -1.),
         'junk': (77, 1e300), 'nan': (-128, np.nan)}
EMPTY, EMPTY_LIKE = np.empty, np.empty_like


@contextlib.contextmanager
def environment(fill, alloc, entropy):
    vi, vf = FILLS[fill]

    def put(a):
        if a.dtype.kind in 'iu':
            a.fill(vi if vi >= 0 or a.dtype.kind == 'i' else 255)
        elif a.dtype.kind in 'fc':
            a.fill(vf)
        elif a.dtype.kind == 'b':
            a.fill(vi != 0)
        return a

    def empty(*a, **k):
        return put(EMPTY(*a, **k))

    def empty_like(*a, **k):
        return put(EMPTY_LIKE(*a, **k))
    junk = [[np.zeros(k % 97 + 1, dtype=np.int8), object(), {}, [k]]
            for k in range(alloc * 37)]
    if alloc > 1:
        del junk[::2]
    saved = [(os, 'urandom', os.urandom), (time, 'time', time.time),
             (time, 'time_ns', time.time_ns),
             (time, 'perf_counter', time.perf_counter),
             (time, 'perf_counter_ns', time.perf_counter_ns),
             (time, 'monotonic', time.monotonic),
             (time, 'monotonic_ns', time.monotonic_ns),
             (time, 'process_time', time.process_time),
             (os, 'getpid', os.getpid)]
    rng0 = np.random.default_rng
    state = pyrandom.getstate()
    np.empty, np.empty_like = empty, empty_like
    pyrandom.seed(entropy)
    np.random.default_rng = (
        lambda seed=None: rng0(1000 + entropy if seed is None else seed))
    os.urandom = lambda n: bytes([17 * entropy % 256]) * n
    os.getpid = lambda: 4000 + entropy
    # a slow machine: from call to call seconds, minutes or hours pass
    calls, pace = [0], (0., 1.37, 4321.)[entropy % 3]

    def passed():
        calls[0] += 1
        return pace * calls[0]
    for f in ('time', 'perf_counter', 'monotonic', 'process_time'):
        orig = getattr(time, f)
        setattr(time, f, lambda orig=orig: orig() + passed())
    for f in ('time_ns', 'perf_counter_ns', 'monotonic_ns'):
        setattr(time, f, lambda: 10**18 + int(passed() * 10**9))
    try:
        yield
    finally:
        np.empty, np.empty_like = EMPTY, EMPTY_LIKE
        np.random.default_rng = rng0
        for o, k, v in saved:
            setattr(o, k, v)
        pyrandom.setstate(state)
        del junk


# --------------------------------------------------------------------- cases
def cases(tier):
    t = tier == 'thorough'
    out = []
    for name in SCEN:
        out.append(dict(kind='history', scenario=name, depth=2,
                        seeds=[1, 2] if t else [1]))
        if t:
            for first in OPS:
                out.append(dict(kind='history', scenario=name, depth=3,
                                first=first, seeds=[1]))
        out.append(dict(kind='memory', scenario=name,
                        seeds=[1, 2, 3] if t else [1]))
    for h in range(1, 13 if t else 7):
        out.append(dict(kind='process', hashseed=h))
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def first_run(name, seed):
    SHARED[SCEN[name]['K']] = data(SCEN[name]['K'])
    with environment('zero', 0, 0):
        return scenario(name, seed)


def report(R, base, res, **detail):
    R.count('traces_validated_against_impl')
    diff = differences(base, res)
    R.check(not diff, 'inference is not a function of data, settings and seed',
            differs=diff[:6], **detail)


def histories(case):
    if 'first' in case:
        for rest in itertools.product(OPS, repeat=case['depth'] - 1):
            yield (case['first'],) + rest
        return
    for n in range(case['depth'] + 1):
        yield from itertools.product(OPS, repeat=n)


def history(case, R):
    name = case['scenario']
    K = SCEN[name]['K']
    for seed in case['seeds']:
        base = first_run(name, seed)
        for k, ops in enumerate(histories(case)):
            X = SHARED[K]
            if k % 20 == 0:
                X = SHARED[K] = data(K)
            with environment(list(FILLS)[k % 5], 0, k):
                for op in ops:
                    OPS[op](name)
                    R.count('transitions')
                res = scenario(name, seed, X)
            report(R, base, res, scenario=name, operations=ops, seed=seed)
            R.eval((name, ops, seed))
            R.count('states')
    R.sample(dict(scenario=name, operations=ops,
                  results=[x[0] for x in base][:8]))


def memory(case, R):
    name = case['scenario']
    for seed in case['seeds']:
        base = first_run(name, seed)
        for env in itertools.product(FILLS, range(3), range(1, 4)):
            with environment(*env):
                res = scenario(name, seed)
            report(R, base, res, scenario=name, environment=env, seed=seed)
            R.eval((name, env, seed))
            R.count('states')
            R.count('transitions')


def digest(name, seed=1):
    return hashlib.sha1(repr(scenario(name, seed)).encode()).hexdigest()


def main():
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    res = {n: digest(n) for n in SCEN}
    json.dump(res, out)


def process(case, R):
    """all scenarios in processes of their own"""
    res = []
    for h in (0, case['hashseed']):
        e = dict(os.environ, PYTHONHASHSEED=str(h))
        e['LOM_MC_PAD'] = 'x' * (h * 61)
        p = subprocess.run([sys.executable, '-c',
                            'from mc.checks import c14; c14.main()'],
                           cwd=VERIF, env=e, capture_output=True, text=True,
                           timeout=300)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        res.append(json.loads(p.stdout))
    for n in SCEN:
        R.check(res[0][n] == res[1][n], 'inference depends on the process'
                ' (hash seed)', scenario=n, hashseed=case['hashseed'])
        R.eval(('process', n, case['hashseed']))
        R.count('states')
        R.count('traces_validated_against_impl', 2)
