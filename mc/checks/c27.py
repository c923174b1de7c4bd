"""
C27: helper functions compute what they document.

 intersect - intersection of data frames: all pairs of row and column sets
             and orders of up to three labels
 labels    - unique entries in order; centers of ordered lists of labels: all
             lists up to a length
 counts    - log-odds of successive binomial and beta-binomial counts
 logs      - expit, logit, logsumexp with and without scipy
 coding    - the +-1 coding of data: all small matrices
 halves    - convergence of a trace: all traces over an alphabet up to a length
 dbtf      - exchange of tensors and factors with an external program: all
             small tensors, all small factors
"""
import itertools
import math
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import env
from mc.common import aux, experiments, relaid, signs, tris

ID = 'C27'
LEVEL = 'model_checking'
RULE = ('one evaluation = one call compared with the definition; non-trivial'
        ' = distinct arguments')
ASSUMPTIONS = ['labels of rows and columns are unique; the external program'
               ' of dbtf is a stand-in that stores what it was given']
BOUNDS = {'quick': 'frames: all subsets and orders of up to 3 labels; lists'
                   ' of up to 7 of 4 labels; counts up to 40; matrices of up'
                   ' to 6 entries; traces up to 6 values; tensors up to 6'
                   ' cells, factors of 2 x 2 and 1 x 3',
          'thorough': 'lists of up to 9, traces up to 8'}


def cases(tier):
    t = tier == 'thorough'
    out = [dict(kind='intersect', part=k) for k in range(4)]
    out += [dict(kind='labels', length=9 if t else 7),
            dict(kind='counts'), dict(kind='logs'), dict(kind='coding'),
            dict(kind='halves', length=8 if t else 6)]
    out += [dict(kind='dbtf', part=k) for k in range(4)]
    return out


def run(case, R):
    globals()[case['kind']](case, R)


def done(R, key):
    R.eval(key)
    R.count('states')
    R.count('transitions')
    R.count('traces_validated_against_impl')


def intersect(case, R):
    import pandas as pd
    fct = env.seam(aux, 'intersect_dataframes')
    lists = [p for n in (1, 2, 3) for p in itertools.permutations('cab', n)]
    few = [('a',), ('b', 'a'), ('c', 'a', 'b'), ('b', 'c')]
    nums = {'a': 3, 'b': 1, 'c': 2}

    def frame(rows, cols, k, rownum):
        r = [nums[x] for x in rows] if rownum else list(rows)
        val = [[100 * k + 10 * nums[i] + nums[j] for j in cols] for i in rows]
        return pd.DataFrame(val, index=r, columns=list(cols))
    n = 0
    for rows in itertools.product(lists, repeat=2):
        for cols in itertools.product(few, repeat=2):
            n += 1
            if n % 4 != case['part']:
                continue
            num = n // 4 % 2
            A, B = frame(rows[0], cols[0], 1, num), frame(rows[1], cols[1],
                                                          2, num)
            keep = [A.copy(), B.copy()]
            a, b = fct(A, B)
            jr = set(A.index) & set(B.index)
            jc = set(A.columns) & set(B.columns)
            d = dict(A=keep[0].to_dict(), B=keep[1].to_dict())
            R.check(A.equals(keep[0]) and B.equals(keep[1]),
                    'intersection changes the data frames', **d)
            ok = list(a.index) == list(b.index) == sorted(jr) and \
                list(a.columns) == list(b.columns) and \
                sorted(a.columns) == sorted(jc)
            R.check(ok, 'rows or columns of the intersection', **d,
                    got=[a.to_dict(), b.to_dict()])
            R.check(all(a.loc[i, j] == A.loc[i, j] and
                        b.loc[i, j] == B.loc[i, j]
                        for i in jr for j in jc) if ok else True,
                    'values of the intersection', **d,
                    got=[a.to_dict(), b.to_dict()])
            done(R, (rows, cols, num))
    R.sample(dict(rows=rows, cols=cols))


def labels(case, R):
    fct = env.seam(aux, 'unique_ordered')
    cen = env.seam(aux, 'find_centers_of_ordered_list')
    for alphabet in ('bacd', (3, 1, 2, 0), (1, '1', 'a', 2)):
        for n in range(case['length'] + 1):
            for ls in itertools.product(alphabet, repeat=n):
                first = [x for i, x in enumerate(ls) if x not in ls[:i]]
                for x in (list(ls),) if n > 3 else (list(ls), ls):
                    got = list(fct(x))
                    R.check(got == first and list(x) == list(ls),
                            'unique entries in order', list=ls, got=got)
                    done(R, ls)
                if '1' not in ls and ls == tuple(sorted(ls, key=str)):
                    want = []
                    for u in first:
                        i = [k for k in range(n) if ls[k] == u]
                        want.append(sum(i) // len(i))
                    forms = [list(ls)]
                    if n:
                        forms.append(np.array(ls))
                    for x in forms:
                        got = [int(c) for c in cen(x)]
                        R.check(got == want, 'centers of an ordered list',
                                list=ls, got=got, wanted=want)
                        done(R, (ls, 'c', type(x).__name__))
    # long lists: many repetitions, many labels
    for n, reps in itertools.product((1, 2, 130, 300), (1, 2, 127, 128, 255,
                                                        257, 300)):
        if n * reps > 1300:
            continue
        for lab in (lambda k: k, lambda k: -k, lambda k: 'g%d' % (k * 7 % n)):
            ls = [lab(k) for k in range(n) for _ in range(reps)]
            if len(set(ls)) < n:
                continue
            first = [lab(k) for k in range(n)]
            R.check(list(fct(ls)) == first, 'unique entries in order',
                    labels=n, repetitions=reps)
            want = [(2 * k * reps + reps - 1) // 2 for k in range(n)]
            for x in (list(ls), np.array(ls)):
                got = [int(c) for c in cen(x)]
                R.check(got == want, 'centers of an ordered list', labels=n,
                        repetitions=reps, got=got[:5], wanted=want[:5])
                done(R, (n, reps, str(ls[-1]), type(x).__name__))
    R.sample(dict(list=ls))


def lchoose(n, k):
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)


def counts(case, R):
    bp = env.seam(aux, 'compute_bp')
    bbp = env.seam(aux, 'compute_bbp')

    def lbeta(a, b):
        return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)
    for n in list(range(1, 13)) + [40]:
        for q in (1e-6, .05, .3, .5, .9, .9999):
            def logp(k):
                return lchoose(n, k) + k * math.log(q) + (n - k) * \
                    math.log(1 - q)
            for N in (n, n + 1, n + 2, n + 7):
                got = np.asarray(bp(q, n, N))
                want = [logp(k + 1) - logp(k) for k in range(n)] + \
                    [-np.inf] * (N - n)
                R.check(got.shape == (N,) and np.allclose(got, want),
                        'log-odds of successive binomial counts', n=n, q=q,
                        N=N, got=got, wanted=want)
                done(R, (n, q, N))
        for a, b in itertools.product((.01, .5, 1., 2., 7., 300.),
                                      repeat=2):
            def logp(k):
                return lchoose(n, k) + lbeta(k + a, n - k + b)
            if b == 1:       # the last ratio divides by b - 1
                continue
            got = np.asarray(bbp(n, a, b))
            want = [logp(k + 1) - logp(k) for k in range(n)] + [-np.inf]
            R.check(got.shape == (n + 1,) and np.allclose(got, want),
                    'log-odds of successive beta-binomial counts', n=n, a=a,
                    b=b, got=got, wanted=want)
            done(R, (n, a, b))
    R.sample(dict(n=n, a=a, b=b))


def logs(case, R):
    e, lg, ls = (env.seam(aux, n) for n in ('expit', 'logit', 'logsumexp'))
    keep = sys.modules.get('scipy.special')
    import scipy.special
    xs = [-700., -40., -9.5, -1., -1e-9, 0., 1e-9, .3, 2., 17., 40., 700.]
    for mode in ('scipy', 'without scipy'):
        try:
            if mode != 'scipy':
                sys.modules['scipy.special'] = None
            for x in xs:
                want = 1 / (1 + math.exp(-x)) if x > -700 else math.exp(x)
                for y in (x, np.float64(x), np.array([x, 0.])):
                    got = float(np.ravel(e(y))[0])
                    R.check(math.isclose(got, want, rel_tol=1e-12), 'expit',
                            mode=mode, x=x, got=got, wanted=want)
                    done(R, (mode, 'e', x, type(y).__name__))
            for p in (1e-300, 1e-9, .1, .25, .5, .75, .9999, 1 - 1e-12):
                got = float(lg(p))
                R.check(math.isclose(got, math.log(p) - math.log1p(-p),
                                     rel_tol=1e-9, abs_tol=1e-12), 'logit',
                        mode=mode, x=p, got=got)
                R.check(math.isclose(float(e(got)), p, rel_tol=1e-9),
                        'expit of logit', mode=mode, x=p)
                done(R, (mode, 'l', p))
            for n in (1, 2, 3):
                for a in itertools.product(xs + [-3000., 3000.], repeat=n):
                    m = max(a)
                    want = m + math.log(sum(math.exp(v - m) for v in a))
                    keep_a = np.array(a)
                    x = keep_a.copy()
                    got = float(ls(x))
                    R.check(math.isclose(got, want, rel_tol=1e-12,
                                         abs_tol=1e-12), 'logsumexp',
                            mode=mode, x=a, got=got, wanted=want)
                    R.check(np.array_equal(x, keep_a),
                            'logsumexp changes its argument')
                    done(R, (mode, a))
        finally:
            if keep is not None:
                sys.modules['scipy.special'] = keep
            else:
                sys.modules['scipy.special'] = scipy.special
    R.sample(dict(x=a, got=got))


def coding(case, R):
    fct = env.seam(aux, 'check_binary_coding')
    for shape in ((1, 1), (1, 2), (2, 2), (3, 1), (2, 3)):
        for X in signs(shape):
            forms = [('sign', X), ('sign float', X.astype(float)),
                     ('sign int64', X.astype(np.int64)),
                     ('binary', (X + 1) // 2), ('bool', X == 1),
                     ('binary float', (X + 1) / 2.),
                     ('binary uint8', ((X + 1) // 2).astype(np.uint8))]
            for name, x in forms:
                x = relaid(x)
                keep = x.copy()
                got = fct(x)
                R.check(np.array_equal(got, X) and got.dtype == np.int8,
                        'coding of binary data', form=name, data=x, got=got)
                R.check(np.array_equal(x, keep),
                        'coding changes the data', form=name)
                done(R, (X.tobytes(), shape, name))
    for X in tris((2, 2)):
        if np.any(X == -1):
            got = fct(X)
            R.check(np.array_equal(got, X) and got.dtype == np.int8,
                    'coding of data with missing entries', data=X, got=got)
            done(R, (X.tobytes(), 'missing'))
    R.sample(dict(data=X))


def halves(case, R):
    fct = env.seam(aux, 'check_convergence_single_trace')
    values = (-2.5, 0., 1e-5, .4, 3.)

    def expit(x):
        return 1 / (1 + math.exp(-x))
    for n in range(2, case['length'] + 1):
        for tr in itertools.product(values, repeat=n):
            h = n // 2
            a = expit(sum(tr[:h]) / h)
            b = expit(sum(tr[h:]) / (n - h))
            for eps in (1e-9, 1e-6, .001, .05, .3, .6):
                if abs(abs(a - b) - eps) < 1e-9:
                    continue
                for x in (np.array(tr), list(tr))[:1 + (n < 5)]:
                    got = bool(fct(x, eps))
                    R.check(got == (abs(a - b) < eps),
                            'convergence of a trace', trace=tr, eps=eps,
                            got=got, halves=(a, b))
            done(R, tr)
    R.sample(dict(trace=tr))


def dbtf(case, R):
    fct = env.seam(experiments, 'dbtf_reconstruct')
    scratch = tempfile.mkdtemp(prefix='dbtf')
    os.mkdir(scratch + '/data')
    os.mkdir(scratch + '/output')
    here = os.getcwd()
    chdir, call, run_ = os.chdir, subprocess.call, subprocess.run
    seen = {}

    def program(cmd, *a, **k):
        """stand-in: what was it given, which factors does it return"""
        with open(scratch + '/data/mytensor.tensor') as f:
            lines = f.read().split('\n')
        seen['cmd'] = [str(c) for c in cmd]
        seen['cells'] = sorted(tuple(int(float(x)) for x in s.split(','))
                               for s in lines if s and s[0] != '#')
        seen['head'] = [s for s in lines if s[:1] == '#']
        for i, f in enumerate(seen['factors']):
            with open(scratch + '/output/sample_factor%d_sparse.txt'
                      % (i + 1), 'w') as out:
                for a_, b_ in sorted(zip(*np.nonzero(f)), reverse=True):
                    out.write('%d,%d\n' % (a_, b_))
        return 0
    try:
        def go_to(p):
            # the program is at the first or at the second place
            seen['place'] = seen.get('place', 0) + 1
            if seen['place'] == 1 and seen['second']:
                raise FileNotFoundError(p)
            chdir(scratch)
        os.chdir = go_to
        subprocess.call = subprocess.run = subprocess.check_call = program
        j = 0
        jobs = []
        for shape in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 1, 3), (3, 1, 2),
                      (2, 2, 1)):
            for X in signs(shape):
                jobs.append((X, 2, [(X.sum() + i + np.arange(n * 2)) % 3 == 0
                                    for i, n in enumerate(shape)]))
        bits = [list(itertools.product((0, 1), repeat=n)) for n in (4, 2, 2)]
        for fs in itertools.product(*bits):       # all factors, 2 x 1 x 1
            jobs.append((np.ones((2, 1, 1), dtype=np.int8), 2, fs))
        for fs in itertools.product(itertools.product((0, 1), repeat=3),
                                    repeat=3):
            jobs.append((np.ones((1, 1, 1), dtype=np.int8), 3, fs))
        for X, L, fs in jobs:
            j += 1
            if j % 4 != case['part']:
                continue
            fs = [np.array(f, dtype=bool).reshape(n, L)
                  for f, n in zip(fs, X.shape)]
            seen['factors'] = fs
            x = [X, X == 1, (X + 1) // 2][j // 4 % 3]
            keep = x.copy()
            h = [[3, .3, 25], [1, .5, 7]][j // 12 % 2]
            d = dict(data=x, factors=fs, L=L)
            try:
                seen.update(place=0, second=j // 4 % 2 == 1)
                rec, got = fct(x, L, h)
                seen['place'] = 0
                only = fct(x, L, h, False)
            except OSError as e:    # another way to find the program's files
                R.note('files of dbtf: %s' % e)
                continue
            R.check(np.array_equal(x, keep), 'dbtf changes the data', **d)
            R.check(seen['cells'] == sorted(
                tuple(int(v) for v in c)
                for c in zip(*np.nonzero(X == 1))),
                'cells that are passed to dbtf', cells=seen['cells'], **d)
            R.check(any('%d-by-%d-by-%d' % X.shape in s
                        for s in seen['head']),
                    'size that is passed to dbtf', head=seen['head'], **d)
            R.check(seen['cmd'][1:] == [str(v) for v in
                                        list(X.shape) + [L] + h],
                    'arguments of dbtf', cmd=seen['cmd'], **d)
            R.check(all(np.array_equal(a, b) for a, b in zip(got, fs)) and
                    all(np.array_equal(a, b) for a, b in zip(only, fs)),
                    'factors that dbtf returned', got=got, **d)
            want = np.einsum('al,bl,cl->abc', *[f.astype(int)
                                                for f in fs]) > 0
            R.check(np.array_equal(np.asarray(rec, dtype=bool), want),
                    'reconstruction of dbtf', got=rec, wanted=want, **d)
            done(R, (X.tobytes(), X.shape, L, tuple(f.tobytes() for f in fs)))
        R.sample(dict(data=X, cmd=seen['cmd']))
    finally:
        os.chdir, subprocess.call, subprocess.run = chdir, call, run_
        os.chdir(here)
        shutil.rmtree(scratch)
