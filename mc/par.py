"""
Controlled execution of the loops declared parallel.

install() hooks the import of the library: in every function that is not
compiled with parallel=False, each outermost `for i in prange(..)` becomes

    if __mc_par__.active():  the body as a task per iteration, run by a scheduler
    else:                    the loop as it is

with numba's rules for variables: names assigned in the body are private to
the iteration (initialised with the value from before the loop), names that
are only updated by `op=` are reductions, arrays are shared.  Tasks run as
real threads of which one runs at a time; every line of library code is a
scheduling point (sys.settrace), a read-modify-write of an array element has
one in the middle.  Random numbers come from a stream per task.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys
import threading

from mc import env, rng


# ------------------------------------------------------------ transformation
def _parallel(fn):
    """prange says that the iterations are independent; only functions that
    are explicitly not parallel are left out"""
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            for k in d.keywords:
                if k.arg == 'parallel':
                    return not (isinstance(k.value, ast.Constant)
                                and not k.value.value)
    return True


def _is_prange(node):
    if not (isinstance(node, ast.For) and isinstance(node.iter, ast.Call)):
        return False
    f = node.iter.func
    return (isinstance(f, ast.Name) and f.id == 'prange' or
            isinstance(f, ast.Attribute) and f.attr == 'prange')


class _Scan(ast.NodeVisitor):
    """names assigned in a body, and whether it can leave the loop"""

    def __init__(self):
        self.plain, self.aug, self.leaves = set(), set(), False
        self.depth = 0

    def visit_FunctionDef(self, n):
        self.plain.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass
    visit_ListComp = visit_SetComp = visit_DictComp = _comp
    visit_GeneratorExp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.plain.add(n.id)

    def visit_Assign(self, n):
        # x = x + e, x = max(x, e) are reductions, too
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            x, v = n.targets[0].id, n.value
            ops = []
            if isinstance(v, ast.BinOp):
                ops = [v.left, v.right]
            elif isinstance(v, ast.Call) and isinstance(
                    v.func, (ast.Name, ast.Attribute)):
                ops = v.args
            if any(isinstance(o, ast.Name) and o.id == x for o in ops):
                self.aug.add(x)
                self.visit(v)
                return
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.aug.add(n.target.id)
        else:
            self.visit(n.target)
        self.visit(n.value)

    def visit_Return(self, n):
        self.leaves = True

    def visit_Yield(self, n):
        self.leaves = True

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth == 0:
            self.leaves = True


class _Body(ast.NodeTransformer):
    """body of a loop -> body of a function"""

    def __init__(self):
        self.depth = 0
        self.k = 0

    def visit_FunctionDef(self, n):
        return n

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(ast.Return(None), n)

    def visit_AugAssign(self, n):
        t = n.target
        if not isinstance(t, ast.Subscript) or any(
                isinstance(x, ast.Slice) for x in ast.walk(t.slice)):
            return n
        self.k += 1
        tmp = '__mc_tmp%d' % self.k
        load = ast.Subscript(t.value, t.slice, ast.Load())
        return [ast.Assign([ast.Name(tmp, ast.Store())],
                           ast.BinOp(load, n.op, n.value)),
                _stmt('__mc_par__.point()'),
                ast.Assign([t], ast.Name(tmp, ast.Load()))]


def _stmt(src):
    return ast.parse(src).body[0]


class _Transform(ast.NodeTransformer):
    def __init__(self):
        self.par = False
        self.n = 0

    def visit_FunctionDef(self, fn):
        outer, self.par = self.par, _parallel(fn)
        self.generic_visit(fn)
        self.par = outer
        return fn

    def visit_For(self, loop):
        if not (self.par and _is_prange(loop)) or loop.orelse:
            self.generic_visit(loop)
            return loop
        import copy
        s = _Scan()
        for x in loop.body:
            s.visit(x)
        s.visit(loop.target)
        if s.leaves:
            return loop
        self.n += 1
        name = '__mc_task%d' % self.n
        private = sorted(s.plain)
        red = sorted(s.aug - s.plain)
        src = 'def %s(__mc_i, __mc_fp):\n' % name
        if red:
            src += '    nonlocal %s\n' % ', '.join(red)
        for v in private:
            src += "    if '%s' in __mc_fp: %s = __mc_fp['%s']\n" % (v, v, v)
        src += '    pass\n'
        fn = _stmt(src)
        body = _Body()
        fn.body.append(ast.Assign([copy.deepcopy(loop.target)],
                                  ast.Name('__mc_i', ast.Load())))
        for x in copy.deepcopy(loop.body):
            y = body.visit(x)
            fn.body += y if isinstance(y, list) else [y]
        call = _stmt('__mc_par__.run(None, %s, dict(%s))' % (
            name, ', '.join('%s=lambda: %s' % (v, v) for v in private)))
        call.value.args[0] = copy.deepcopy(loop.iter)
        seq = copy.deepcopy(loop)
        wrap = ast.parse('__mc_par__.seq(0)', mode='eval').body
        wrap.args[0] = seq.iter
        seq.iter = wrap
        new = ast.If(ast.parse('__mc_par__.active()', mode='eval').body,
                     [fn, call], [seq])
        for x in ast.walk(new):
            ast.copy_location(x, x if hasattr(x, 'lineno') else loop)
        PAR.loops += 1
        return new


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(open(path).read(), path)
        tree = ast.fix_missing_locations(_Transform().visit(tree))
        return compile(tree, path, 'exec')

    def exec_module(self, module):
        module.__dict__['__mc_par__'] = PAR
        super().exec_module(module)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'lom' and not name.startswith('lom.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            name, path if path is not None else [env.REPO])
        if spec is not None and isinstance(
                spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    if 'lom' in sys.modules:
        raise RuntimeError('the library has been imported already')
    sys.meta_path.insert(0, _Finder())


# ----------------------------------------------------------------- scheduler
class Killed(BaseException):
    pass


class _Par:
    """the object the transformed code talks to"""

    def __init__(self):
        self.loops = 0          # transformed loops
        self.reset(None)

    def reset(self, plan):
        self.plan = plan
        self.current = None     # (number of the loop, index of the task)
        self.loop_no = 0
        self.tasks_run = 0
        self.steps = 0
        self.multi = 0          # loops with more than one task

    def active(self):
        return self.plan is not None and self.current is None

    # -- sequential: as written
    def seq(self, it):
        if self.current is not None:
            yield from it
            return
        self.loop_no += 1
        try:
            for k, i in enumerate(it):
                self.current = (self.loop_no, k)
                yield i
        finally:
            self.current = None

    # -- parallel
    def run(self, it, task, fp):
        self.loop_no += 1
        no = self.loop_no
        vals = {}
        for k, f in fp.items():
            try:
                vals[k] = f()
            except NameError:
                pass
        items = list(it)
        self.tasks_run += len(items)
        if len(items) > 1:
            self.multi += 1
        try:
            self.plan.run(self, no, items, lambda i: task(i, vals))
        finally:
            self.current = None

    def point(self):
        if self.plan is not None and self.current is not None:
            self.plan.point(self)


PAR = _Par()


class Orders:
    """iterations one after the other, in any order"""

    def __init__(self, order):
        self.order = order      # n -> permutation of range(n)

    def run(self, par, no, items, task):
        for k in self.order(len(items)):
            par.current = (no, k)
            task(items[k])

    def point(self, par):
        pass


class Interleave:
    """all interleavings with at most `bound` preemptions (stateless search);
    use as: for _ in plan.explore(): run the code with this plan"""

    def __init__(self, bound, max_schedules=10**6):
        self.bound = bound
        self.max = max_schedules
        self.schedules = 0

    def explore(self):
        self.trail = []
        while True:
            self.pos = 0
            self.used = 0
            yield
            self.schedules += 1
            if self.schedules > self.max:
                raise rng.TooManyPaths(self.schedules)
            del self.trail[self.pos:]
            while self.trail and self.trail[-1][1] + 1 >= self.trail[-1][0]:
                self.trail.pop()
            if not self.trail:
                return
            self.trail[-1][1] += 1

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos == len(self.trail):
            self.trail.append([n, 0])
        t = self.trail[self.pos]
        t[0] = n
        self.pos += 1
        return t[1]

    def run(self, par, no, items, task):
        n = len(items)
        self.no = no
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.left = set(range(n))
        self.done = threading.Semaphore(0)
        self.error = None

        def body(k):
            self.locks[k].acquire()
            try:
                if self.error is None:
                    par.current = (no, k)
                    sys.settrace(_tracer)
                    try:
                        task(items[k])
                    finally:
                        sys.settrace(None)
            except Killed:
                pass
            except BaseException as e:
                if self.error is None:
                    self.error = e
            self.left.discard(k)
            if self.left:
                rest = sorted(self.left)
                j = rest[0] if self.error else rest[self.choose(len(rest))]
                par.current = (no, j)
                self.locks[j].release()
            else:
                self.done.release()
        threads = [threading.Thread(target=body, args=(k,), daemon=True)
                   for k in range(n)]
        for t in threads:
            t.start()
        if n:
            first = self.choose(n)
            par.current = (no, first)
            self.locks[first].release()
            self.done.acquire()
        for t in threads:
            t.join()
        par.current = None
        if self.error is not None:
            raise self.error

    def point(self, par):
        par.steps += 1
        if self.error is not None:
            raise Killed()
        if self.used >= self.bound or len(self.left) < 2:
            return
        k = par.current[1]
        others = [j for j in sorted(self.left) if j != k]
        c = self.choose(1 + len(others))
        if c == 0:
            return
        self.used += 1
        j = others[c - 1]
        par.current = (self.no, j)
        self.locks[j].release()
        self.locks[k].acquire()
        par.current = (self.no, k)
        if self.error is not None:
            raise Killed()


_ROOT = env.REPO + os.sep


def _tracer(frame, event, arg):
    if not frame.f_code.co_filename.startswith(_ROOT):
        return None
    return _local


def _local(frame, event, arg):
    if event == 'line':
        PAR.point()
    return _local


class Streams(rng.Policy):
    """a stream of random numbers per iteration"""

    def __init__(self, table):
        super().__init__()
        self.table = table
        self.n = {}

    def uniform(self):
        key = PAR.current
        k = self.n.get(key, 0)
        self.n[key] = k + 1
        a, b = key if key is not None else (0, 0)
        return (self.table * (1 + k + 7 * b + 31 * a) * .6180339887
                + .1 * self.table) % 1


def execute(fn, plan, table):
    """run fn with the schedule and per-iteration random numbers"""
    PAR.reset(plan)
    try:
        return Streams(table).run(fn)
    finally:
        PAR.plan = None
