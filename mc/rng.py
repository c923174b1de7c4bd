"""
Controlled randomness.

Every source of random numbers the library can reach (numpy.random.*, the
names modules of the library imported from it, numpy Generators and the
standard `random` module) is replaced by a stand-in.  While an Engine is
active, the stand-ins ask it; otherwise the originals run.

Dfs       explores *all* outcomes: a uniform number is kept symbolic as an
          interval (LazyU) and is only decided where the code compares it, so
          that every branch is taken once, with its exact probability.
          Re-executing fn once per path (stateless search) yields the exact
          distribution of the results of fn.
Policy    answers all requests by fixed rules (constant or per-call table).
"""
import itertools
import math
import random as _pyrandom

import numpy as np


class Divergence(RuntimeError):
    """the same prefix of outcomes led to different requests"""


class TooManyPaths(RuntimeError):
    pass


class Unsupported(RuntimeError):
    """a use of random numbers the engine can not represent"""


ACTIVE = None


# --------------------------------------------------------------- engines
class Dfs:
    GRID = 16

    def __init__(self, max_paths=2000000, negligible=0.):
        self.max_paths = max_paths
        self.negligible = negligible     # outcomes that are not explored
        self.approx = False
        self.paths = 0
        self.choice_points = 0
        self.cursor, self.streams, self.tokens = None, {}, 0

    def choose(self, probs):
        """index of one of the outcomes with probability > 0"""
        opts = [i for i, p in enumerate(probs) if p > self.negligible]
        if len(opts) == 1:
            return opts[0]
        if not opts:
            raise Unsupported('no outcome with positive probability')
        pos = self.pos
        if pos < len(self.trail):
            n, k, _ = self.trail[pos]
            if n != len(opts):
                raise Divergence('replayed prefix met another choice')
        else:
            k = 0
            self.trail.append([len(opts), 0, opts])
            self.choice_points += 1
        self.pos += 1
        self.prob *= probs[opts[k]]
        return opts[k]

    def uniform(self):
        return LazyU(self.repeat('u', lambda: Var(self)))

    def repeat(self, kind, draw):
        """
        draw, unless the stream in use was seeded before on this path: the
        same numbers follow the same seed
        """
        if self.cursor is None:
            return draw()
        drawn, at = self.cursor
        self.cursor[1] += 1
        if at < len(drawn) and drawn[at][0] == kind:
            return drawn[at][1]
        v = draw()
        del drawn[at:]
        drawn.append((kind, v))
        return v

    def reseed(self, seed):
        self.cursor = self.stream(seed)

    def stream(self, seed):
        try:
            return None if seed is None else \
                [self.streams.setdefault(repr(seed), []), 0]
        except Exception:
            return None

    def explore(self, fn):
        """yield (probability, result of fn) for every path"""
        global ACTIVE
        self.trail = []
        while True:
            self.pos, self.prob = 0, 1.0
            self.cursor, self.streams, self.tokens = None, {}, 0
            prev, ACTIVE = ACTIVE, self
            try:
                res = fn()
            finally:
                ACTIVE = prev
            if self.pos != len(self.trail):
                raise Divergence('replayed prefix made fewer choices')
            self.paths += 1
            if self.paths > self.max_paths:
                raise TooManyPaths(self.paths)
            yield self.prob, res
            while self.trail and self.trail[-1][1] + 1 >= self.trail[-1][0]:
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1][1] += 1

    def distribution(self, fn):
        """dict result -> probability, fn has to return hashable results"""
        out = {}
        for p, r in self.explore(fn):
            out[r] = out.get(r, 0.0) + p
        return out


class Policy:
    """u: float or callable(index of call) -> float in [0,1);
    pick: callable(index, n) -> index of the chosen outcome"""

    def __init__(self, u=.5, pick=None, perm=None):
        self.u = u
        self.pick = pick
        self.perm = perm
        self.calls = 0
        self.approx = False

    def uniform(self):
        i = self.calls
        self.calls += 1
        return float(self.u(i) if callable(self.u) else self.u)

    def choose(self, probs):
        opts = [i for i, p in enumerate(probs) if p > 0]
        if self.pick is None:
            u = self.uniform()
            acc, tot = 0.0, sum(probs)
            for i in opts:
                acc += probs[i] / tot
                if u < acc:
                    return i
            return opts[-1]
        i = self.calls
        self.calls += 1
        return opts[self.pick(i, len(opts)) % len(opts)]

    def permute(self, n):
        if self.perm is not None:
            return self.perm(n)
        return list(range(n))

    def run(self, fn):
        global ACTIVE
        prev, ACTIVE = ACTIVE, self
        try:
            return fn()
        finally:
            ACTIVE = prev


class Real:
    """switch the original generators back on inside an engine"""

    def __enter__(self):
        global ACTIVE
        self.prev, ACTIVE = ACTIVE, None

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.prev


# ------------------------------------------------ symbolic uniform numbers
class Var:
    """a uniform number on [0,1) known to be in [lo,hi)"""
    __slots__ = ('eng', 'lo', 'hi')

    def __init__(self, eng):
        self.eng, self.lo, self.hi = eng, 0.0, 1.0

    def less(self, x):
        """decide u < x"""
        if x != x:
            return False
        if x >= self.hi:
            return True
        if x <= self.lo:
            return False
        p = (x - self.lo) / (self.hi - self.lo)
        if self.eng.choose((p, 1 - p)) == 0:
            self.hi = x
            return True
        self.lo = x
        return False

    def value(self):
        """fall back: collapse to one of a few equally likely values"""
        if self.hi - self.lo > 1e-12:
            self.eng.approx = True
            n = self.eng.GRID
            k = self.eng.choose([1.0 / n] * n)
            x = self.lo + (self.hi - self.lo) * (k + .5) / n
            self.lo, self.hi = x, x + 1e-13
        return self.lo


def _log(x):
    return math.log(x) if x > 0 else -math.inf


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _expit(x):
    return 1 / (1 + _exp(-x))


def _logit(x):
    return _log(x) - _log(1 - x)


class LazyU:
    """monotone function of a Var"""
    __slots__ = ('var', 'fwd', 'inv', 'inc')
    __array_priority__ = 1000

    def __init__(self, var, fwd=None, inv=None, inc=True):
        self.var = var
        self.fwd = fwd or (lambda x: x)
        self.inv = inv or (lambda x: x)
        self.inc = inc

    def _then(self, f, g, inc=True):
        fwd, inv = self.fwd, self.inv
        return LazyU(self.var, lambda x: f(fwd(x)), lambda y: inv(g(y)),
                     self.inc == inc)

    # comparisons; events of probability zero (equality) are ignored
    def _lt(self, t):
        if isinstance(t, np.ndarray) and t.ndim > 0:
            out = np.empty(t.shape, dtype=bool)
            for i, x in np.ndenumerate(t):
                out[i] = self._lt(x)
            return out
        if isinstance(t, LazyU):
            raise Unsupported('comparison of two random numbers')
        t = float(t)
        if t != t:
            return False
        x = self.inv(t)
        return self.var.less(x) if self.inc else not self.var.less(x)

    def _gt(self, t):
        r = self._lt(t)
        if isinstance(r, np.ndarray):
            return ~r
        if float(t) != float(t):
            return False
        return not r

    __lt__ = __le__ = lambda s, t: s._lt(t)
    __gt__ = __ge__ = lambda s, t: s._gt(t)

    def __eq__(self, t):
        return self is t

    def __ne__(self, t):
        return self is not t

    __hash__ = object.__hash__

    def __bool__(self):
        return True

    # monotone arithmetics
    def __neg__(self):
        return self._then(lambda x: -x, lambda y: -y, False)

    def __pos__(self):
        return self

    def __add__(self, c):
        if isinstance(c, np.ndarray) and c.ndim:
            return self._arr(c, lambda a: self + a)
        c = float(c)
        return self._then(lambda x: x + c, lambda y: y - c)
    __radd__ = __add__

    def __sub__(self, c):
        return self + (-c)

    def __rsub__(self, c):
        return (-self) + c

    def __mul__(self, c):
        if isinstance(c, np.ndarray) and c.ndim:
            return self._arr(c, lambda a: self * a)
        c = float(c)
        if c == 0:
            return 0.0
        return self._then(lambda x: x * c, lambda y: y / c, c > 0)
    __rmul__ = __mul__

    def __truediv__(self, c):
        return self * (1 / float(c))

    def __rtruediv__(self, c):
        c = float(c)
        if c == 0:
            return 0.0
        lo = self.fwd(self.var.lo)
        hi = self.fwd(self.var.hi)
        if min(lo, hi) < 0:
            raise Unsupported('reciprocal')
        return self._then(lambda x: c / x if x else math.inf,
                          lambda y: c / y if y else math.inf, c < 0)

    def _arr(self, c, f):
        out = np.empty(c.shape, dtype=object)
        for i, x in np.ndenumerate(c):
            out[i] = f(x)
        return out

    def log(self):
        return self._then(_log, _exp)

    def exp(self):
        return self._then(_exp, _log)

    def log1p(self):
        return (self + 1).log()

    def logit(self):
        return self._then(_logit, _expit)

    def expit(self):
        return self._then(_expit, _logit)

    def _int(self):
        v = self.var
        a, b = self.fwd(v.lo), self.fwd(v.hi)
        lo, hi = math.floor(min(a, b)), math.ceil(max(a, b)) - 1
        probs, bounds = [], []
        for k in range(lo, hi + 1):
            x, y = self.inv(k), self.inv(k + 1)
            x, y = min(x, y), max(x, y)
            x, y = max(x, v.lo), min(y, v.hi)
            bounds.append((x, y))
            probs.append(max(0.0, (y - x) / (v.hi - v.lo)))
        i = v.eng.choose(probs)
        v.lo, v.hi = bounds[i]
        return lo + i

    def __floor__(self):
        return self._int()

    def __int__(self):
        if self.fwd(self.var.lo) < 0 or self.fwd(self.var.hi) < 0:
            raise Unsupported('int of a negative number')
        return self._int()
    __trunc__ = __int__

    def __float__(self):
        return float(self.fwd(self.var.value()))

    def item(self):
        return self

    def __repr__(self):
        return 'LazyU[%g,%g)' % (self.var.lo, self.var.hi)

    _FLIP = {'less': '_gt', 'less_equal': '_gt',
             'greater': '_lt', 'greater_equal': '_lt'}
    _SAME = {'less': '_lt', 'less_equal': '_lt',
             'greater': '_gt', 'greater_equal': '_gt'}

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        if method != '__call__':
            return NotImplemented
        if len(inputs) == 2:
            a, b = inputs
            if name in self._SAME:
                if isinstance(a, LazyU):
                    return getattr(a, self._SAME[name])(b)
                return getattr(b, self._FLIP[name])(a)
            op = {'add': '__add__', 'multiply': '__mul__',
                  'subtract': '__sub__', 'divide': '__truediv__',
                  'true_divide': '__truediv__'}.get(name)
            if op is not None:
                if isinstance(a, LazyU):
                    return getattr(a, op)(b)
                return getattr(b, {'__sub__': '__rsub__',
                                   '__truediv__': '__rtruediv__'}
                               .get(op, op))(a)
        elif len(inputs) == 1:
            op = {'log': 'log', 'exp': 'exp', 'negative': '__neg__',
                  'log1p': 'log1p', 'logit': 'logit', 'expit': 'expit',
                  'floor': '_int', 'positive': '__pos__'}.get(name)
            if op:
                return getattr(inputs[0], op)()
        return ufunc(*[float(x) if isinstance(x, LazyU) else x
                       for x in inputs], **kw)


# --------------------------------------------------------------- stand-ins
def _filled(shape, f):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f()
    if isinstance(ACTIVE, Policy):
        return out.astype(np.float64)
    return out


def _shape(size):
    if size is None:
        return None
    if np.ndim(size) == 0:
        return (int(size),)
    return tuple(int(x) for x in size)


def _uniform(size=None):
    s = _shape(size)
    if s is None:
        return ACTIVE.uniform()
    return _filled(s, ACTIVE.uniform)


def _rand(*shape):
    return _uniform(shape if shape else None)


def _uniform_ab(low=0.0, high=1.0, size=None):
    def f():
        return ACTIVE.uniform() * (high - low) + low
    s = _shape(size)
    return f() if s is None else _filled(s, f)


def _index(n, probs=None):
    if probs is None and n > 64 and isinstance(ACTIVE, Policy) and \
            ACTIVE.pick is None:
        return min(int(ACTIVE.uniform() * n), n - 1)
    probs = [1.0 / n] * n if probs is None else [float(x) for x in probs]
    eng = ACTIVE
    if isinstance(eng, Dfs):
        return eng.repeat(tuple(probs), lambda: eng.choose(probs))
    return eng.choose(probs)


def _randint(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    low, high = int(low), int(high) + bool(endpoint)
    if high <= low:
        raise ValueError('low >= high')

    def f():
        if high - low > 10**6 or high - low > 4096 and \
                not isinstance(ACTIVE, Policy):
            # e.g. drawing a seed: not enumerated
            if not isinstance(ACTIVE, Dfs):
                return low
            ACTIVE.tokens += 1     # but different every time
            return low + (4000 + ACTIVE.tokens) % (high - low)
        return low + _index(high - low)
    s = _shape(size)
    if s is None:
        return f()
    out = np.empty(s, dtype=dtype)
    for i in np.ndindex(*s):
        out[i] = f()
    return out


def _choice(a, size=None, replace=True, p=None, axis=0, shuffle=True):
    arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(
        list(a) if not isinstance(a, np.ndarray) else a)
    n = len(arr)
    if n == 0 and (size is None or int(np.prod(size)) > 0):
        raise ValueError('a must be non-empty')
    if p is not None:
        p = [float(x) for x in p]
        if len(p) != n:
            raise ValueError("'a' and 'p' must have same size")
        if any(x < 0 or x != x for x in p):
            raise ValueError('probabilities are not non-negative')
        if abs(sum(p) - 1) > 1e-6:
            raise ValueError('probabilities do not sum to 1')
    s = _shape(size)
    if s is None:
        return arr[_index(n, p)]
    k = int(np.prod(s)) if len(s) else 1
    if replace:
        idx = [_index(n, p) for _ in range(k)]
    else:
        if k > n:
            raise ValueError("Cannot take a larger sample than population "
                             "when 'replace=False'")
        left = list(range(n))
        idx = []
        if not isinstance(ACTIVE, Policy) and p is None:
            # unordered: enumerate subsets instead of sequences
            subsets = list(itertools.combinations(range(n), k))
            idx = list(subsets[_index(len(subsets))])
        else:
            for _ in range(k):
                w = None if p is None else [p[i] for i in left]
                if w is not None:
                    t = sum(w)
                    w = [x / t for x in w]
                idx.append(left.pop(_index(len(left), w)))
    return arr[np.array(idx, dtype=int)].reshape(s + arr.shape[1:])


def _perm_indices(n):
    if isinstance(ACTIVE, Policy):
        return list(ACTIVE.permute(n))
    left, out = list(range(n)), []
    while left:
        out.append(left.pop(_index(len(left))))
    return out


def _permutation(x, axis=0):
    if np.ndim(x) == 0 and not isinstance(x, (list, tuple)):
        x = np.arange(x)
    if isinstance(x, np.ndarray):
        return x[_perm_indices(len(x))]
    n = len(x)
    out = np.empty(n, dtype=object)
    simple = all(np.isscalar(v) for v in x)
    for i, k in enumerate(_perm_indices(n)):
        out[i] = x[k]
    return np.array(list(out)) if simple else out


def _shuffle(x, axis=0):
    order = _perm_indices(len(x))
    vals = [x[i].copy() if isinstance(x[i], np.ndarray) else x[i]
            for i in order]
    for i, v in enumerate(vals):
        x[i] = v


def _binomial(n, p, size=None):
    def f(n=n, p=p):
        n, p = int(n), float(p)
        return _index(n + 1, [math.comb(n, k) * p**k * (1 - p)**(n - k)
                              for k in range(n + 1)])
    s = _shape(size)
    if s is None:
        if np.ndim(p):
            return np.array([f(n, x) for x in np.ravel(p)]).reshape(np.shape(p))
        return f()
    out = np.empty(s, dtype=int)
    pp = np.broadcast_to(p, s)
    for i in np.ndindex(*s):
        out[i] = f(n, pp[i])
    return out


SEEDS = []


def _seed(*a, **k):
    SEEDS.append(a[0] if a else k.get('seed'))
    if isinstance(ACTIVE, Dfs):
        ACTIVE.reseed(SEEDS[-1])


def _pyseed(*a, **k):
    SEEDS.append(a[0] if a else k.get('a'))


def _own(name, fct):
    def f(self, *a, **k):
        eng = ACTIVE
        if not isinstance(eng, Dfs):
            return fct(*a, **k)
        prev, eng.cursor = eng.cursor, self._cursor
        try:
            return fct(*a, **k)
        finally:
            self._cursor, eng.cursor = eng.cursor, prev
    f.__name__ = name
    return f


class _Generator:
    """a generator with a stream of its own"""

    def __init__(self, seed=None, *a, **k):
        self._cursor = ACTIVE.stream(('own', seed)) \
            if isinstance(ACTIVE, Dfs) and seed is not None else None

    random = staticmethod(lambda size=None, *a, **k: _uniform(size))
    uniform = staticmethod(_uniform_ab)
    choice = staticmethod(_choice)
    permutation = staticmethod(_permutation)
    shuffle = staticmethod(_shuffle)
    binomial = staticmethod(_binomial)
    integers = staticmethod(_randint)
    # RandomState flavour
    rand = staticmethod(_rand)
    random_sample = staticmethod(_uniform)
    randint = staticmethod(_randint)
    seed = staticmethod(_seed)


for _name, _fct in list(vars(_Generator).items()):
    if isinstance(_fct, staticmethod):
        setattr(_Generator, _name, _own(_name, _fct.__func__))

STANDINS = {
    'rand': _rand, 'random': _uniform, 'random_sample': _uniform,
    'ranf': _uniform, 'sample': _uniform, 'uniform': _uniform_ab,
    'choice': _choice, 'permutation': _permutation, 'shuffle': _shuffle,
    'randint': _randint, 'binomial': _binomial, 'seed': _seed,
}
PY_STANDINS = {
    'random': lambda: ACTIVE.uniform(),
    'uniform': lambda a, b: ACTIVE.uniform() * (b - a) + a,
    'randint': lambda a, b: a + _index(b - a + 1),
    'randrange': lambda a, b=None: (_index(a) if b is None
                                    else a + _index(b - a)),
    'choice': lambda x: x[_index(len(x))],
    'shuffle': _shuffle,
    'seed': _pyseed,
}
ORIG = {}
REPLACED = {}


def _wrap(orig, standin, name):
    def f(*a, **k):
        if ACTIVE is None:
            return orig(*a, **k)
        return standin(*a, **k)
    f.__name__ = name
    f.lom_mc_standin = True
    return f


def _random_state(orig):
    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, (orig, _Generator))

        def __subclasscheck__(cls, c):
            return issubclass(c, orig)

    class RandomState(orig, metaclass=Meta):
        def __new__(cls, *a, **k):
            return orig(*a, **k) if ACTIVE is None else _Generator(*a, **k)
    return RandomState


def install():
    """replace the generators; call before and after importing the library"""
    if not ORIG:
        for name, s in STANDINS.items():
            o = getattr(np.random, name)
            w = _wrap(o, s, name)
            ORIG['np.' + name] = o
            REPLACED[id(o)] = (o, w)
            setattr(np.random, name, w)
        for name in ('default_rng', 'RandomState', 'Generator'):
            o = getattr(np.random, name)
            if name == 'default_rng':
                setattr(np.random, name, _wrap(o, _Generator, name))
            elif name == 'RandomState':
                setattr(np.random, name, _random_state(o))
        for name, s in PY_STANDINS.items():
            o = getattr(_pyrandom, name)
            setattr(_pyrandom, name, _wrap(o, s, 'py' + name))

        log = math.log
        exp = math.exp

        def mlog(x, *a):
            if isinstance(x, LazyU):
                return x.log()
            return log(x, *a)

        def mexp(x):
            if isinstance(x, LazyU):
                return x.exp()
            return exp(x)
        math.log, math.exp = mlog, mexp
        global _log, _exp

        def _log(x):
            return log(x) if x > 0 else -math.inf

        def _exp(x):
            try:
                return exp(x)
            except OverflowError:
                return math.inf


def patch_module(mod):
    """names a module of the library imported from numpy.random"""
    for k, v in list(vars(mod).items()):
        try:
            r = REPLACED.get(id(v))
        except Exception:
            continue
        if r is not None and r[0] is v:
            setattr(mod, k, r[1])
