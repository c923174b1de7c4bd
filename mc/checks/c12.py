"""
C12: the schedule of inference.  Stand-in update functions (the supported
way to customise sampling) log every update and draw lambda from a small
alphabet; all lambda histories are explored and the log is compared with an
automaton written from the documentation.
"""
import itertools
import math

import numpy as np

from mc import ref, rng
from mc.common import num, factors, lom, machine

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('one evaluation = one complete call of infer along one history of'
        ' lambda values, its log compared with the automaton; non-trivial ='
        ' distinct (settings, history)')
ASSUMPTIONS = ['pure Python mode (NUMBA_DISABLE_JIT=1)',
               'update functions assigned by the user are used as they are']
BOUNDS = {'quick': 'burn_in_min 0..3, burn_in_max 0..7, window 1..4, '
                   'fix_lbda_iters {0,1,5}, print_step {1,2,3,10}, 3 lambda'
                   ' values; two lambdas and'
                   ' vectors of lambdas up to 4 sweeps; annealing up to 600'
                   ' steps',
          'thorough': 'burn_in_max up to 10'}
VALUES = (.2123456789, .6234567891, 2.0345678912)
PRINT_STEPS = (1, 2, 3, 10)
EPS = (.06, .3)


def cases(tier):
    t = tier == 'thorough'
    out = []
    for bmin in range(4):
        for bmax in range(11 if t else 8):
            for w in (1, 2, 3, 4, 5) if t else (1, 2, 3, 4):
                out.append(dict(kind='single', bmin=bmin, bmax=bmax, w=w))
    for bmin, bmax in itertools.product((0, 1), (2, 3, 4)):
        for w in (1, 2):
            out.append(dict(kind='two', bmin=bmin, bmax=bmax, w=w))
            out.append(dict(kind='vector', bmin=bmin, bmax=bmax, w=w))
    for fixed in itertools.product((True, False), repeat=3):
        out.append(dict(kind='members', fixed=fixed))
    out.append(dict(kind='anneal'))
    out.append(dict(kind='repeat'))
    out.append(dict(kind='far'))
    return out


class Log:
    """stand-in update functions of a machine"""

    def __init__(self, m, in_place=True, vector=False):
        self.events = []
        self.m = m
        self.count = 0
        self.in_place = in_place
        self.vector = vector
        self.mats, self.lams = {}, {}
        i = 0
        for mat in m.members:
            if id(mat) not in [id(x) for x in self.mats.values()]:
                self.mats['M%d' % i] = mat
                mat.sampling_fct = self.mat_stub('M%d' % i)
                i += 1
        for j, lam in enumerate(m.lbdas):
            self.lams['L%d' % j] = lam
            lam.sampling_fct = self.lam_stub('L%d' % j)

    def lambdas(self):
        return tuple(tuple(np.ravel(l.val).tolist())
                     for l in self.lams.values())

    def mat_stub(self, name):
        def stub(mat):
            self.count += 1
            new = np.where((np.arange(mat.val.size) + self.count) % 3 == 0,
                           -1, 1).astype(np.int8).reshape(mat.val.shape)
            if self.in_place:
                mat.val[:] = new
            else:
                mat.val = new
            self.events.append((name, new.tobytes(), self.lambdas()))
        return stub

    def lam_stub(self, name):
        def stub(lam):
            if self.vector:
                v = lam.val.copy()
                for i in self.which:
                    v[i] = VALUES[rng.ACTIVE.choose([.5, .5]) * 2]
                lam.val = v
            else:
                n = self.alphabet
                lam.val = VALUES[rng.ACTIVE.choose([1 / n] * n) * (
                    1 if n == 3 else 2)]
            self.events.append((name, tuple(np.ravel(lam.val).tolist())))
        return stub
    alphabet = 3
    which = (0, 1)


def converged(window, eps):
    """window: list of tuples (one value per lambda entry)"""
    h = int(len(window) / 2)
    if h == 0:
        return False
    for k in range(len(window[0])):
        a = sum(w[k] for w in window[:h]) / h
        b = sum(w[k] for w in window[h:]) / (len(window) - h)
        if not abs(ref.sigmoid(a) - ref.sigmoid(b)) < eps:
            return False
    return True


def automaton(log, free_m, free_l, no_samples, w, eps, bmin, bmax, fix=0,
              anneal=None):
    """compare; returns (samples, lambda samples, burn-in sweeps)"""
    ev = list(log)
    pos = [0]

    def sweep(lam, note):
        got = ev[pos[0]:pos[0] + len(free_m)]
        pos[0] += len(got)
        if sorted(e[0] for e in got) != sorted(free_m):
            raise Mismatch('%s: matrices updated %s, expected each of %s once'
                           % (note, [e[0] for e in got], sorted(free_m)))
        vals = {e[0]: e[1] for e in got}
        out = ()
        if lam:
            got = ev[pos[0]:pos[0] + len(free_l)]
            pos[0] += len(got)
            if sorted(e[0] for e in got) != sorted(free_l):
                raise Mismatch('%s: lambdas updated %s, expected each of %s '
                               'once' % (note, [e[0] for e in got],
                                         sorted(free_l)))
            out = {e[0]: e[1] for e in got}
        return vals, out
    for k in range(1, bmin + 1):
        sweep(k > fix and anneal is None, 'minimal burn-in %d' % k)
    k, window = 0, []
    while True:
        if k and k % w == 0 and converged(
                [sum((v[n] for n in sorted(v)), ()) for v in window[-w:]],
                eps):
            break
        if k + bmin >= bmax:
            break
        k += 1
        _, lv = sweep(True, 'burn-in %d' % k)
        window.append(lv)
    burn = bmin + k
    mats, lams = [], []
    for k in range(no_samples):
        a, b = sweep(True, 'sample %d' % k)
        mats.append(a)
        lams.append(b)
    if pos[0] != len(ev):
        raise Mismatch('%d further updates after the last sample'
                       % (len(ev) - pos[0]))
    return mats, lams, burn


class Mismatch(Exception):
    pass


def kept(log, start, after):
    """between their updates lambdas keep their values"""
    now = list(start)
    names = list(log.lams)
    for e in log.events:
        if e[0] in log.lams:
            now[names.index(e[0])] = e[1]
        elif not close(e[2], now):
            return dict(before=e[0], got=e[2], expected=tuple(now))
    if not close(after, now):
        return dict(before='end', got=after, expected=tuple(now))


def close(a, b):
    return all(len(x) == len(y) and all(abs(v - w) < 1e-6
                                        for v, w in zip(x, y))
               for x, y in zip(a, b))


def one(R, m, log, settings, free_m, free_l, anneal=None, key=None):
    kw = dict(settings)
    log.events.clear()
    start = log.lambdas()
    # progress reports must not have any effect
    step = kw.setdefault('print_step', PRINT_STEPS[
        (kw['bmin'] + kw['bmax'] + kw['w'] + kw['no_samples']) % 4])
    m.infer(no_samples=kw['no_samples'], convergence_window=kw['w'],
            convergence_eps=kw['eps'], burn_in_min=kw['bmin'],
            burn_in_max=kw['bmax'], fix_lbda_iters=kw.get('fix', 0), print_step=step)
    R.count('traces_validated_against_impl')
    R.count('transitions', len(log.events))
    R.count('states', len(log.events) + 1)
    names = [e[0] if e[0][0] == 'M' else e for e in log.events]
    try:
        mats, lams, burn = automaton(log.events, free_m, free_l, kw['no_samples'],
                               kw['w'], kw['eps'], kw['bmin'], kw['bmax'],
                               kw.get('fix', 0), anneal)
    except Mismatch as e:
        R.violation('schedule of inference differs from the documentation',
                    settings=kw, difference=str(e), log=names[:60])
        return False
    R.eval((tuple(sorted(kw.items())), tuple(names)))
    if anneal is None:
        diff = kept(log, start, log.lambdas())
        if diff:
            R.violation('lambda changes between its updates', settings=kw,
                        difference=diff, log=names[:60])
            return False
    for n in free_m:
        tr = getattr(log.mats[n], 'trace', None)
        want = [s[n] for s in mats]
        if tr is None or len(tr) != len(want) or \
                [np.ascontiguousarray(t).tobytes() for t in tr] != want:
            R.violation('recorded samples are not the states of the matrix '
                        'after the sampling sweeps', settings=kw, matrix=n,
                        log=names[:60])
    # the sweep in which convergence is noticed may be counted
    if m.burn_in_iters not in (burn, burn + 1):
        R.violation('the reported number of burn-in iterations is wrong',
                    settings=kw, got=m.burn_in_iters, expected=burn)
    for n in free_l:
        tr = getattr(log.lams[n], 'trace', None)
        want = np.array([s[n] for s in lams])
        if tr is None or len(tr) != len(want) or len(want) and \
                not np.allclose(np.reshape(tr, want.shape), want, atol=1e-6):
            R.violation('recorded lambdas are not the values after the '
                        'sampling sweeps', settings=kw, got=tr, expected=want)
    return True


def run(case, R):
    kind = case['kind']
    if kind == 'single':
        fixes = (0, 1, 5) if case['bmin'] else (0,)
        for fix, eps, ns in itertools.product(fixes, EPS, (1, 2)):
            if ns == 2 and (fix or eps != EPS[0]):
                continue
            s = dict(no_samples=ns, w=case['w'], eps=eps, bmin=case['bmin'],
                     bmax=case['bmax'], fix=fix)
            sweeps = max(case['bmax'], case['bmin'])
            m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
            for f in factors(layer)[1:]:
                f.fixed = True
            log = Log(m, in_place=True)
            log.alphabet = 3 if sweeps <= 5 else 2

            def go():
                layer.lbda.val = .05
                return one(R, m, log, s, ['M0'], ['L0'])
            for p, r in rng.Dfs().explore(go):
                if not r:
                    return
        R.sample(dict(settings=s))
    elif kind in ('two', 'vector'):
        pairs = ((0, 1), (2, 0), (2,), (1,)) if kind == 'vector' else (None,)
        for eps, which in itertools.product(EPS, pairs):
            for ns in (0, 1):
                s = dict(no_samples=ns, w=case['w'], eps=eps,
                         bmin=case['bmin'], bmax=case['bmax'], fix=0)
                m, data, layer = machine(
                    'MAX-AND' if kind == 'vector' else 'OR-AND',
                    np.ones((1, 2), np.int8), 2)
                lams = ['L0']
                if kind == 'two':
                    l2 = m.add_layer(latent_size=1, child=layer.z)
                    lams.append('L1')
                    for f in l2.factors:
                        f.fixed = True
                layer.u.fixed = True
                log = Log(m, in_place=False, vector=kind == 'vector')
                log.alphabet = 2
                log.which = which
                start = np.array(layer.lbda.val, copy=True)

                def go():
                    layer.lbda.val = start.copy() if start.ndim else \
                        float(start)
                    return one(R, m, log, s, ['M0'], lams)
                for p, r in rng.Dfs().explore(go):
                    if not r:
                        return
    elif kind == 'members':
        members(case, R)
    elif kind == 'anneal':
        anneal(R)
    elif kind == 'far':
        far(R)
    else:
        repeat(R)


def far(R):
    """long phases and windows: lambda keeps jumping in the middle of every
    window for some time"""
    for bmin, bmax, w, ns, fix, jumps in (
            (3, 2500, 60, 3, 0, 130), (70, 80, 15, 450, 60, 0),
            (0, 1700, 15, 1, 0, 10**6), (120, 900, 101, 1200, 110, 350),
            (0, 5000, 700, 2, 0, 800), (2, 2300, 33, 130, 1, 2000),
            (300, 100, 7, 257, 260, 0), (1100, 1300, 40, 1, 1050, 1170)):
        m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
        layer.u.fixed = True
        log = Log(m)
        k = 0

        def stub(lam):
            nonlocal k
            k += 1
            jump = (k - 1) % w >= w // 2
            lam.val = VALUES[2 * int(k <= jumps and jump)]
            log.events.append(('L0', (lam.val,)))
        layer.lbda.sampling_fct = stub
        s = dict(no_samples=ns, w=w, eps=EPS[0], bmin=bmin, bmax=bmax, fix=fix)
        rng.Policy(lambda i: (i * .618) % 1).run(
            lambda: one(R, m, log, s, ['M0'], ['L0']))


def members(case, R):
    """which members are updated: all orders, two layers and a loose matrix"""
    m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 1)
    z, u = layer.factors
    z.fixed, u.fixed, layer.lbda.fixed = case['fixed']
    if all(case['fixed']):
        return
    log = Log(m)
    log.alphabet = 1
    free_m = [n for n, x in log.mats.items() if not x.fixed]
    free_l = [n for n, x in log.lams.items() if not x.fixed]
    orders = set()
    for s in (dict(no_samples=1, w=2, eps=.1, bmin=0, bmax=0),
              dict(no_samples=2, w=2, eps=.1, bmin=1, bmax=1),
              dict(no_samples=1, w=2, eps=.1, bmin=0, bmax=4)):
        for p, r in rng.Dfs().explore(
                lambda: one(R, m, log, s, free_m, free_l)):
            if not r:
                return
            orders.add(tuple(e[0] for e in log.events))
    # several layers, latent data
    m = lom.Machine()
    d = m.add_matrix(np.ones((2, 2), dtype=np.int8))
    l1 = m.add_layer(latent_size=2, child=d)
    l2 = m.add_layer(latent_size=1, child=l1.z)
    l1.z.fixed, l2.lbda.fixed, l2.u.fixed = case['fixed']
    log = Log(m)
    log.alphabet = 1
    free_m = [n for n, x in log.mats.items() if not x.fixed]
    free_l = [n for n, x in log.lams.items() if not x.fixed]
    for s in (dict(no_samples=1, w=2, eps=.1, bmin=0, bmax=0),
              dict(no_samples=0, w=2, eps=.1, bmin=1, bmax=1)):
        for p, r in rng.Dfs().explore(
                lambda: one(R, m, log, s, free_m, free_l)):
            if not r:
                return
    R.sample(dict(fixed=case['fixed'], orders=len(orders)))


def anneal(R):
    """lambda is raised in equal steps up to the requested value"""
    for target in (.1, 1., 2., 3., 10., 0., -.7, -2.):
        for bmin in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 25, 30, 49, 100, 600):
            for two in (False, True):
                if two and bmin > 30:
                    continue
                m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
                free_l = ['L0']
                targets = [target]
                layer.lbda.val = num(target)
                if two:
                    l2 = m.add_layer(latent_size=1, child=layer.z)
                    l2.lbda.val = num(target * 2.5)
                    targets.append(target * 2.5)
                    free_l.append('L1')
                    for f in l2.factors:
                        f.fixed = True
                layer.u.fixed = True
                m.anneal = True
                log = Log(m)
                log.alphabet = 1
                for extra in (0, 2):
                    for l, v in zip(m.lbdas, targets):
                        l.val = num(v)
                    s = dict(no_samples=1, w=2, eps=.1, bmin=bmin,
                             bmax=bmin + extra)
                    ok = rng.Policy(.5, pick=lambda i, n: 0).run(
                        lambda: one(R, m, log, s, ['M0'], free_l, anneal=True))
                    if not ok:
                        return
                    sweeps = [e for e in log.events if e[0][0] == 'M']
                    for k in range(1, bmin + 1):
                        # value after the k-th sweep
                        got = sweeps[k][2]
                        want = [(t * k / bmin,) for t in targets]
                        if not np.allclose(got, want, rtol=1e-9):
                            R.violation(
                                'annealing does not raise lambda in equal '
                                'steps up to the requested value',
                                targets=targets, burn_in_min=bmin, step=k,
                                got=got, expected=want)
                            return
                    if any(isinstance(v, np.ndarray) and v.ndim
                           for v in (l.val for l in m.lbdas)):
                        R.violation('annealing changes the shape of lambda')
    # a fixed lambda is not annealed
    m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
    m.anneal = True
    layer.lbda.val, layer.lbda.fixed = 2.5, True
    layer.u.fixed = True
    log = Log(m)
    s = dict(no_samples=1, w=2, eps=.1, bmin=3, bmax=3)
    rng.Policy(.5, pick=lambda i, n: 0).run(
        lambda: one(R, m, log, s, ['M0'], [], anneal=True))
    R.check(layer.lbda.val == 2.5 and
            all(e[2] == ((2.5,),) for e in log.events),
            'annealing changes a fixed lambda')
    # a number of iterations with lambda fixed contradicts annealing
    for fix, bmin in itertools.product((1, 2, 5), (6, 7, 10)):
        m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
        m.anneal = True
        try:
            rng.Policy(.5).run(lambda: m.infer(
                no_samples=1, burn_in_min=bmin, burn_in_max=bmin,
                fix_lbda_iters=fix))
            ok = True
        except Exception:
            ok = False
        R.check(not ok, 'annealing with a fixed lambda is accepted',
                fix_lbda_iters=fix, burn_in_min=bmin)


def repeat(R):
    """traces and schedules of repeated calls"""
    calls = [dict(no_samples=1, w=2, eps=.3, bmin=0, bmax=0),
             dict(no_samples=3, w=2, eps=.3, bmin=1, bmax=1),
             dict(no_samples=2, w=2, eps=.06, bmin=0, bmax=3),
             dict(no_samples=2, w=3, eps=.3, bmin=2, bmax=9, fix=1)]
    for seq in itertools.product(range(len(calls)), repeat=3):
        for in_place in (True, False):
            m, data, layer = machine('OR-AND', np.ones((1, 2), np.int8), 2)
            log = Log(m, in_place=in_place)
            for k, i in enumerate(seq):
                # free, fixed and freed again
                layer.u.fixed = k == 1
                free = ['M0'] if k == 1 else ['M0', 'M1']
                ok = rng.Policy(.5, pick=lambda i, n: i % n).run(
                    lambda: one(R, m, log, calls[i], free, ['L0']))
                if not ok:
                    return
