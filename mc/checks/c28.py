"""
C28: figures show what was inferred.

 plot   - plot_matrix / plot_matrix_ax: all small matrices in every coding,
          all options; the image that is drawn holds the probabilities
 show   - MachineMatrix.show: all histories of samples, all techniques,
          members without samples, sequences of figures
 pixels - rendered figures: rows and columns at their place, probabilities
          can be read from the colours
"""
import itertools

import numpy as np

from mc import env, rng
from mc.common import aux, factors, lom, machine, relaid, signs

ID = 'C28'
LEVEL = 'model_checking'
RULE = ('one evaluation = one figure, its image compared with the'
        ' probabilities; non-trivial = distinct (matrix or history, options)')
ASSUMPTIONS = ['matplotlib is installed (otherwise inconclusive)',
               'the image of a figure is what imshow was given; rendering is'
               ' trusted except for the cases that are rendered']
BOUNDS = {'quick': 'matrices of up to 4 entries over 3-5 values; matrices of up to'
                   ' 90000 entries, 33000 samples; histories of'
                   ' up to 3 samples of 2 entries, 1 sample of 4 entries',
          'thorough': 'matrices of up to 5 entries'}

CODINGS = {'signs': (-1, 1), 'tri': (-1, 0, 1), 'binary': (0, 1),
           'prob': (0., .25, .5, 1.), 'mean': (-1., -.4, 0., .6, 1.)}


def cases(tier):
    t = tier == 'thorough'
    out = []
    for c in CODINGS:
        for shape in ((1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2),
                      (1, 4)) + (((5, 1), (1, 5)) if t else ()):
            n = len(CODINGS[c]) ** int(np.prod(shape))
            parts = max(1, n // 100)
            for k in range(parts):
                out.append(dict(kind='plot', coding=c, shape=shape, part=k,
                                parts=parts))
    out.append(dict(kind='options'))
    for s in (0, 1, 2, 3):
        out.append(dict(kind='show', samples=s))
    out.append(dict(kind='large'))
    out += [dict(kind='sequence'), dict(kind='inference'),
            dict(kind='pixels'), dict(kind='bare')]
    return out


def plt():
    try:
        import matplotlib.pyplot as p
    except ImportError:
        raise env.SeamMissing('matplotlib is not installed')
    return p


def drawn(ax):
    """the probabilities an axes shows, or None"""
    ims = ax.get_images()
    if len(ims) != 1:
        raise env.SeamMissing('the matrix is not drawn by imshow')
    im = ims[0]
    a = np.ma.getdata(im.get_array()).astype(float)
    lo, hi = im.get_clim()
    if im.origin == 'lower':
        a = a[::-1]
    return (a - lo) / (hi - lo) if (lo, hi) != (0, 1) else a


def prob(a):
    """probabilities of a matrix: codings with negative entries are +-1"""
    a = np.asarray(a, dtype=float)
    return .5 * (1 + a) if np.any(a < 0) else a


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, atol=1e-6)


def done(R, key):
    R.eval(key)
    R.count('states')
    R.count('transitions')
    R.count('traces_validated_against_impl')


def run(case, R):
    p = plt()
    try:
        globals()[case['kind']](case, R, p)
    finally:
        p.close('all')


def plot(case, R, p):
    shape = tuple(case['shape'])
    vals = CODINGS[case['coding']]
    ints = all(v == int(v) for v in vals)
    for k, t in enumerate(itertools.product(vals, repeat=int(np.prod(shape)))):
        if k % case['parts'] != case['part']:
            continue
        dt = np.int8 if ints and k % 2 else float
        a = np.array(t, dtype=dt).reshape(shape)
        a = relaid(a)
        b = a.copy()
        if k % 3 == 2:
            fig, ax0 = p.subplots()
            n = len(p.get_fignums())
            ax, _ = aux.plot_matrix_ax(a, ax0)
            what = 'plot_matrix_ax'
            R.check(ax is ax0 and len(p.get_fignums()) == n,
                    'plot_matrix_ax does not draw into the given axes')
        else:
            fig, ax = aux.plot_matrix(a, draw_cbar=k % 3 == 0)
            what = 'plot_matrix'
            R.check(ax.figure is fig and p.fignum_exists(fig.number),
                    'plot_matrix does not return its figure and axes')
            R.check(len(fig.axes) == (2 if k % 3 == 0 else 1),
                    'color bar differs from what is requested',
                    draw_cbar=k % 3 == 0, axes=len(fig.axes))
        got = drawn(ax)
        R.check(same(got, prob(b)), '%s shows other values' % what, matrix=b,
                got=got, expected=prob(b))
        R.check(a.dtype == b.dtype and np.array_equal(a, b),
                '%s changes its argument' % what, before=b, after=a)
        done(R, (what, case['coding'], shape, t))
        p.close(fig)


def large(case, R, p):
    """more entries than pixels or small integers; samples of such matrices"""
    for shape in ((1000, 2), (2, 1000), (300, 300), (129, 3), (3, 257),
                  (1, 5000), (5000, 1)):
        for c, vals in CODINGS.items():
            k = np.arange(shape[0] * shape[1])
            a = np.array(vals)[(k * k + k // 7) % 11 % len(vals)]
            a = a.reshape(shape)
            for what in ('plot_matrix', 'plot_matrix_ax'):
                if what == 'plot_matrix':
                    fig, ax = aux.plot_matrix(relaid(a))
                else:
                    fig, ax0 = p.subplots()
                    ax, _ = aux.plot_matrix_ax(relaid(a), ax0)
                got = drawn(ax)
                R.check(same(got, prob(a)), '%s of a large matrix shows other '
                        'values' % what, shape=shape, coding=c,
                        got=got.shape)
                done(R, (what, c, shape))
                p.close(fig)
    for shape, S in (((300, 3), 2), ((2, 2), 130), ((2, 1), 300),
                     ((1, 1), 33000), ((2, 300), 3)):
        m = lom.Machine()
        d = m.add_matrix(np.ones((shape[0], 2), dtype=np.int8), fixed=True)
        mat = m.add_layer(latent_size=shape[1], child=d).z
        for mod in (2, 3, 10 ** 6):
            k = np.arange(S * shape[0] * shape[1])
            hist = np.where(k * (k + 1) // 2 % mod == 0, -1, 1).astype(
                np.int8).reshape((S,) + shape)
            if shape == (1, 1):
                mat.trace = hist.copy()
                mat.val = hist[-1].copy()
            else:
                record(mat, hist)
            look(R, p, mat, hist, 'large %s %d %d' % (shape, S, mod))


def options(case, R, p):
    """size, limits and colours are the requested ones"""
    for cbar, lim, size, cmap in itertools.product(
            (True, False), (None, (0, 1), (-.5, 1.5), (.25, .5)),
            (None, (3, 2)), (None, 'viridis')):
        for m in ([[0., 1.], [.25, .5]], [[1., -1.], [-.5, 0.]]):
            kw = dict(draw_cbar=cbar)
            if lim:
                kw.update(vmin=lim[0], vmax=lim[1])
            if size:
                kw['figsize'] = size
            if cmap:
                kw['cmap'] = cmap
            fig, ax = aux.plot_matrix(np.array(m), **kw)
            im = ax.get_images()
            if len(im) != 1:
                raise env.SeamMissing('the matrix is not drawn by imshow')
            got = np.ma.getdata(im[0].get_array())
            R.check(same(got, prob(m)), 'plot_matrix shows other values',
                    options=kw, matrix=m, got=got)
            R.check(tuple(im[0].get_clim()) == (lim or (0, 1)),
                    'limits of the colours differ', options=kw,
                    got=im[0].get_clim())
            if size:
                R.check(np.allclose(fig.get_size_inches(), size),
                        'size of the figure differs', options=kw,
                        got=fig.get_size_inches())
            done(R, ('options', cbar, lim, size, cmap, str(m)))
            p.close(fig)


def shown(R, p, mat, technique, expected, note, either=None):
    before = set(p.get_fignums())
    val = mat.val.copy()
    mat.show(technique) if technique else mat.show()
    new = sorted(set(p.get_fignums()) - before)
    if not R.check(len(new) == 1, 'show does not make one figure', note=note,
                   technique=technique, figures=new):
        return
    fig = p.figure(new[0])
    got = drawn(fig.axes[0])
    ok = got.shape == expected.shape and np.all(
        (np.abs(got - expected) < 1e-6) |
        (np.zeros(got.shape, bool) if either is None else
         either & ((got == 0) | (got == 1))))
    R.check(ok, 'show does not show the probabilities of the matrix',
            note=note, technique=technique, got=got, expected=expected)
    R.check(np.array_equal(val, mat.val), 'show changes the matrix',
            note=note, before=val, after=mat.val)
    done(R, (technique, note))
    return fig


def look(R, p, mat, samples, note, close=True):
    mean = np.mean(samples, axis=0) if len(samples) else mat.val
    figs = [shown(R, p, mat, None, .5 * (1 + mean), note),
            shown(R, p, mat, 'mean', .5 * (1 + mean), note),
            shown(R, p, mat, 'state', .5 * (1. + mat.val), note),
            shown(R, p, mat, 'map', 1. * (mean > 0), note,
                  either=np.abs(mean) < 1e-9)]
    if close:
        p.close('all')
    return figs


def record(mat, samples):
    """samples as inference records them"""
    mat.trace_index = 0
    mat.allocate_trace_arrays(len(samples))
    for s in samples:
        mat.val = s
        mat.update_trace()


def show(case, R, p):
    S = case['samples']
    shapes = {0: (2, 2), 1: (2, 2), 2: (1, 2), 3: (2, 1)}
    shape = shapes[S]
    for k, hist in enumerate(itertools.product(list(signs(shape)),
                                               repeat=max(S, 1))):
        m = lom.Machine()
        d = m.add_matrix(np.ones((shape[0], 2), dtype=np.int8), fixed=True)
        layer = m.add_layer(latent_size=shape[1], child=d)
        mat = layer.z
        if S:
            record(mat, [h.copy() for h in hist])
            if k % 2:
                mat.val = -hist[0]      # the state moves on after sampling
        else:
            mat.val = hist[0].copy()
        look(R, p, mat, hist if S else (), 'history %s' % [
            h.tolist() for h in hist])
    if S == 1:
        for bad in ('max', '', 'MAP ', 'means'):
            try:
                mat.show(bad)
                R.violation('show accepts an unknown technique',
                            technique=bad)
            except ValueError:
                pass
    if S == 0:
        # data
        for vals in itertools.product((-1, 0, 1), repeat=2):
            m = lom.Machine()
            d = m.add_matrix(np.array([vals], dtype=np.int8), fixed=True)
            for t in (None, 'mean', 'state'):
                shown(R, p, d, t, .5 * (1. + d.val), 'data %s' % (vals,))
            p.close('all')


def sequence(case, R, p):
    """figures of several members stay as they were drawn"""
    for k, (a, b) in enumerate(itertools.product(signs((2, 2)), repeat=2)):
        if k % 7:
            continue
        m, d, layer = machine('OR-AND', np.ones((2, 2), np.int8), 2)
        z, u = factors(layer)
        record(z, [a.copy(), b.copy()])
        record(u, [b.copy(), b.copy(), a.copy()])
        f1 = look(R, p, z, [a, b], 'z', close=False)
        z.val = -z.val
        z.trace = -z.trace
        f2 = look(R, p, u, [b, b, a], 'u', close=False)
        want = [.5 * (1 + np.mean([a, b], axis=0))] * 2 + [.5 * (1. + b)]
        for f, w in zip(f1, want):
            if f is None:
                return
            R.check(same(drawn(f.axes[0]), w), 'a figure changes after it was '
                    'drawn', got=drawn(f.axes[0]), expected=w)
        want = [.5 * (1 + np.mean([b, b, a], axis=0))] * 2 + [.5 * (1. + a)]
        for f, w in zip(f2, want):
            if f is None:
                return
            R.check(same(drawn(f.axes[0]), w), 'a figure changes after it was '
                    'drawn', got=drawn(f.axes[0]), expected=w)
        p.close('all')


def inference(case, R, p):
    """what is shown after inference is what inference recorded"""
    for model, shape in itertools.product(
            ('OR-AND', 'XOR-NAND', 'MAX-AND', 'AND-OR', 'qL-AND'),
            ((2, 3), (2, 2, 2))):
        if len(shape) == 3 and model in ('MAX-AND', 'qL-AND'):
            continue
        for fixed in (False, True):
            X = np.ones(shape, dtype=np.int8)
            X.flat[::3] = -1
            m, d, layer = machine(model, X, 2)
            factors(layer)[0].fixed = fixed
            logs = {}

            def go():
                m.infer(burn_in_min=1, burn_in_max=1, no_samples=4)
                for k, f in enumerate(factors(layer)):
                    logs[k] = [] if f.fixed else [
                        np.array(f.trace[t]) for t in range(4)]
                return True
            for again in range(2):
                rng.Policy(.35 + .3 * again, pick=lambda i, n: i % n).run(go)
                for k, f in enumerate(factors(layer)):
                    look(R, p, f, logs[k], '%s %s factor %d fixed %s call %d'
                         % (model, shape, k, fixed, again))
                out = {t: layer.output(technique=t)
                       for t in ('factor_map', 'factor_mean')}
                for t, o in out.items():
                    fig, ax = aux.plot_matrix(
                        o if o.ndim == 2 else o[:, :, 0])
                    R.check(same(drawn(ax), np.asarray(
                        o if o.ndim == 2 else o[:, :, 0], dtype=float)),
                        'plot of an output', technique=t)
                    done(R, (model, shape, fixed, again, t))
                p.close('all')


def colours(fig, ax, shape):
    """colour in the middle of every cell"""
    fig.canvas.draw()
    buf = np.asarray(fig.canvas.buffer_rgba()).astype(int)
    out = np.zeros(tuple(shape) + (3,))
    for i in range(shape[0]):
        for j in range(shape[1]):
            x, y = ax.transData.transform((j, i))
            out[i, j] = buf[buf.shape[0] - 1 - int(y), int(x), :3]
    return out


def pixels(case, R, p):
    # one colour per probability, the same in every figure
    scale = {}
    fig, ax = aux.plot_matrix(np.linspace(0, 1, 5)[None, :])
    c = colours(fig, ax, (1, 5))[0]
    for v, col in zip(np.linspace(0, 1, 5), c):
        scale[v] = col
    p.close(fig)
    R.check(len({tuple(v) for v in scale.values()}) >= 3 and
            tuple(scale[0.]) != tuple(scale[1.]),
            'probabilities cannot be distinguished in a figure',
            colours={k: v.tolist() for k, v in scale.items()})
    for k, t in enumerate(itertools.product((0., .5, 1.), repeat=4)):
        for shape in ((2, 2), (4, 1), (1, 4)):
            if (k + len(shape)) % 3 and shape != (2, 2):
                continue
            a = np.array(t).reshape(shape)
            # other codings of the same probabilities
            if k % 2 and np.any(a < .5):
                fig, ax = aux.plot_matrix(2 * a - 1)
            elif k % 3 == 0:
                fig, ax0 = p.subplots()
                ax, _ = aux.plot_matrix_ax(a, ax0)
            else:
                fig, ax = aux.plot_matrix(a, draw_cbar=k % 4 == 0)
            got = colours(fig, ax, shape)
            want = np.array([[scale[v] for v in row] for row in a])
            R.check(np.abs(got - want).max() <= 2,
                    'colours of a figure differ from those of the '
                    'probabilities', matrix=a, got=got, expected=want)
            done(R, ('pixels', shape, t))
            p.close(fig)


def bare(case, R, p):
    """seaborn, which gives the colours, is optional"""
    import sys
    old = {k: v for k, v in sys.modules.items()
           if k == 'seaborn' or k.startswith('seaborn.')}
    for k in old:
        sys.modules[k] = None
    sys.modules['seaborn'] = None
    try:
        options(case, R, p)
        pixels(case, R, p)
    finally:
        del sys.modules['seaborn']
        sys.modules.update(old)
