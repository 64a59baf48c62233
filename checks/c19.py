"""C19: plots and statistics show the object they are given, and only observe.

Every drawing command that reaches matplotlib is recorded (the axes are real, with the Agg backend) and its data are compared,
point by point, with reference values; statistics are explored as a state machine over histories of calls."""
import contextlib
import io
import itertools
import re

import numpy as np
import ref
import menus

MEANING = ('states = (object, quadrature, options) drawn, and states of the statistics after a history; transitions = plotting calls and '
           'logged calls executed; traces = drawings whose data were all compared, and histories of logged calls')
BOUNDS = {'quick': 'Quad.plot: 13 diagonal positions (dim 1..2, Hermite, Fourier, mixed, several directions) x 3 factors of the quadrature x '
                   '{expression, Function, array, real series, complex series} x {no factor, text, array} x contours, bounds, title; plot_hf: all '
                   'multi-indices up to degree 3; streamlines: the positions of dim 2 x 4 fields; Series.plot: 5 index sets, dim 1..2, degree 1..4, coefficients of all magnitudes; '
                   'Varf.plot: every pattern of 3x3 matrices, all index sets, dense and sparse; statistics: all histories of length 3 over 7 '
                   'calls (2 of which raise) and settings trails/debug on or off',
          'thorough': 'histories of length 4, degrees up to 6'}
ASSUMPTIONS = ['what is handed to matplotlib is what is shown', 'the lines of Varf.plot are only checked for triangles and cubes (documented limitation)']


def setup(ctx):
    global hm, ss, sympy, plt, stats
    import sys
    import hermipy as hm
    import scipy.sparse as ss
    import sympy
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import warnings
    warnings.simplefilter('ignore')
    stats = sys.modules['hermipy.stats']


class Axes:
    """Real axes that record what they are asked to draw."""

    def __init__(self):
        self.fig, self._ax = plt.subplots(1)
        self.calls = []

    def __getattr__(self, name):
        attr = getattr(self._ax, name)
        if not callable(attr):
            return attr

        def call(*a, **kw):
            self.calls.append((name, [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a], dict(kw)))
            return attr(*a, **kw)
        return call

    def named(self, *names):
        return [(n, a, k) for n, a, k in self.calls if n in names]

    def lines(self, name, key):
        return sorted(float(k.get(key, a[0] if a else np.nan)) for n, a, k in self.calls if n == name)


@contextlib.contextmanager
def axes():
    a = Axes()
    try:
        yield a
    finally:
        plt.close(a.fig)


def nodes_of(q):
    """Mapped one-dimensional nodes (diagonal positions)."""
    return [q.position.mean[i] + np.sqrt(q.position.cov[i][i])*np.asarray(q.nodes[i]) for i in range(q.position.dim)]


def at(q, s, pts):
    """Values of a series at points."""
    xi = (pts - s.position.mean)/np.sqrt(np.diag(s.position.cov))
    mask = [t == 'fourier' for t in s.position.types]
    inds = ref_inds(s)
    return ref.vandermonde(inds, xi, mask).dot(s.coeffs)


def ref_inds(s):
    import hermipy.core as core
    return np.array(core.iterator_list_indices(s.position.dim, s.degree, index_set=s.index_set))


def same_data(ctx, q, x, want, what):
    """The drawing of a scalar field: every point drawn has the right value and all nodes are drawn."""
    dim = q.position.dim
    nodes = nodes_of(q)
    if dim == 1:
        ls = [(a, k) for _, a, k in x.named('plot')]
        if not ctx.check(len(ls) == 1 and len(ls[0][0]) >= 2, '%s: %d curves' % (what, len(ls))):
            return None
        xs, ys = np.asarray(ls[0][0][0], float), np.asarray(ls[0][0][1], float)
        ok = xs.shape == ys.shape == (len(nodes[0]),) and np.allclose(np.sort(xs), np.sort(nodes[0]))
        ctx.check(ok and np.allclose(ys, want(xs[:, None]), rtol=1e-8, atol=1e-9), lambda: '%s: curve %s %s' % (what, xs[:4], ys[:4]))
        return ys
    cs = x.named('contourf')
    if not ctx.check(len(cs) == 1 and len(cs[0][1]) >= 3, '%s: %d surfaces' % (what, len(cs))):
        return None
    return field(ctx, q, cs[0][1], want, what)


def field(ctx, q, args, want, what):
    nodes = nodes_of(q)
    xs, ys, z = [np.asarray(v, float) for v in args[:3]]
    ok = np.allclose(np.unique(xs), np.sort(nodes[0])) and np.allclose(np.unique(ys), np.sort(nodes[1]))
    if xs.ndim == 1:
        xs, ys = np.meshgrid(xs, ys)
    ok = ok and xs.shape == z.shape
    if ctx.check(ok, '%s: grid' % what):
        v = want(np.stack([xs.ravel(), ys.ravel()], axis=1)).reshape(z.shape)
        ctx.check(np.allclose(z, v, rtol=1e-8, atol=1e-9), lambda: '%s: values, largest difference %s' % (what, np.abs(z - v).max()))
    return z


FACTORS = {1: ['1', 'exp(-{0}**2/6)', '2*exp({0}/5)'], 2: ['1', 'exp(-{0}**2/6)*exp({1}/7)', 'exp(-{0}*{1}/9)']}
EXPRS = {1: ['{0}**2 - {0}', 'sin({0}) + 2'], 2: ['{0}**2 + 3*{1}', 'sin({0})*({1} + 2) - {1}**2']}
GIVEN = {1: '3 + {0}', 2: '{0} - 2*{1} + 5'}
NAMES = ['h0', 'h0m', 'h1m', 'h3', 'f0', 'f1b', 'hh', 'hhm', 'hh02', 'hh13', 'ff02b', 'hf', 'fh13m']


def frozen(q, *arrays):
    return (repr(q.position), repr(q.factor), q.nodes.tobytes(), q.weights.tobytes(), q.position.mean.tobytes(), q.position.cov.tobytes(),
            dict(hm.settings)) + tuple((a.dtype.str, a.shape, a.tobytes()) for a in arrays)


def run_plot(ctx, task):
    name = task['name']
    types, dirs = menus.POSITIONS[name][:2]
    dim = len(dirs)
    names = ['x%d' % d for d in dirs]
    four = any(t == 'fourier' for t in types)
    for fi, ftext in enumerate(FACTORS[dim]):
        fexpr = ftext.format(*names)
        spec = menus.Spec(name, 7, fexpr)
        q = spec.make(hm)
        fac = menus.numeric(fexpr, dirs)
        degree = 2 if four else 3
        for kind in ('triangle', 'cube', 'cross')[:1 if dim == 1 else 3]:
            n = ref.size(kind, dim, degree)
            c = np.array(ref.generic(n, 5))
            items = []
            if kind == 'triangle':
                for e in EXPRS[dim]:
                    e = e.format(*names)
                    v = menus.numeric(e, dirs)
                    items += [('expression', hm.Function(e, dirs=list(dirs)).as_xyz(), v), ('function', hm.Function(e, dirs=list(dirs)), v),
                              ('array', q.discretize(hm.Function(e, dirs=list(dirs))), v)]
            s = q.series(c.copy(), index_set=kind)
            items.append(('series', s, lambda p: at(q, s, p)*fac(p)))
            sc = q.series(c + 1j*np.array(ref.generic(n, 6)), index_set=kind)
            real = q.series(c.copy(), index_set=kind)
            items.append(('complex series', sc, lambda p: at(q, real, p)*fac(p)))
            # a series of another position
            if kind == 'triangle' and not four:
                other = hm.Series(c.copy(), hm.Position(dirs=list(dirs), mean=list(q.position.mean + .2), cov=np.diag(.5 + np.arange(dim))), factor=fexpr)
                items.append(('other series', other, lambda p: at(q, other, p)*fac(p)))
            given = GIVEN[dim].format(*names)
            gv = menus.numeric(given, dirs)
            for label, arg, want in items:
                options = [(None, {})]
                if 'series' in label:
                    options += [('text', {}), ('array', {}), (None, {'bounds': True}), ('text', {'bounds': True})]
                options += [(None, {'title': 'T'}), (None, {'contours': 4})]
                for fopt, kw in options:
                    def one():
                        total = want if fopt is None else lambda p: want(p)*gv(p)
                        f = {'text': given, 'array': q.discretize(hm.Function(given, dirs=list(dirs))), None: None}[fopt]
                        data = arg.coeffs if isinstance(arg, hm.Series) else arg if isinstance(arg, np.ndarray) else np.zeros(0)
                        before = frozen(q, data)
                        k = dict(kw)
                        if f is not None:
                            k['factor'] = f
                        with axes() as x:
                            q.plot(arg, ax=x, **k)
                            ctx.step()
                            ctx.state()
                            z = same_data(ctx, q, x, total, label)
                            data2 = arg.coeffs if isinstance(arg, hm.Series) else data
                            ctx.check(frozen(q, data2) == before, 'the argument, the quadrature or the settings were modified')
                            title = x.get_title()
                            if 'title' in kw:
                                ctx.check(title == 'T', 'title %r' % title)
                            elif z is not None:
                                nums = [float(v) for v in re.findall(r'-?\d+\.\d+', title)]
                                ctx.check(len(nums) == 2 and abs(nums[0] - z.min()) < 1e-3 and abs(nums[1] - z.max()) < 1e-3, 'title %r' % title)
                            if 'contours' in kw and dim == 2:
                                cs = x.named('contour')
                                if ctx.check(len(cs) == 1, 'contours'):
                                    field(ctx, q, cs[0][1], total, 'contours')
                            else:
                                ctx.check(not x.named('contour'), 'contours that were not asked for')
                            if kw.get('bounds'):
                                for i, (line, key) in enumerate((('axvline', 'x'), ('axhline', 'y'))[:dim]):
                                    w = np.sqrt(2*(2*degree + 1)*arg.position.cov[i][i])
                                    ctx.check(np.allclose(x.lines(line, key), [arg.position.mean[i] - w, arg.position.mean[i] + w]), 'bounds')
                            else:
                                ctx.check(not x.lines('axvline', 'x') and not x.lines('axhline', 'y'), 'bounds that were not asked for')
                        ctx.trace()
                        ctx.outcome((label, fopt, str(kw)))
                    ctx.guard({'plot': label, 'quad': spec.key, 'kind': kind, 'expression': str(arg)[:60] if 'series' not in label else '',
                               'factor': fopt, 'options': kw}, one)

        def refused():
            for bad in (3, None, 'x', [1.]):
                with axes() as x:
                    try:
                        q.plot(bad, ax=x)
                        ctx.fail('plot(%r) accepted' % bad)
                    except Exception:
                        pass
                ctx.step()
        ctx.guard({'plot': 'invalid', 'quad': spec.key}, refused)
    ctx.sample(task)


def run_hf(ctx, task):
    name = task['name']
    types, dirs = menus.POSITIONS[name][:2]
    dim = len(dirs)
    names = ['x%d' % d for d in dirs]
    top = 3 if ctx.tier == 'quick' else 5
    for ftext in FACTORS[dim]:
        fexpr = ftext.format(*names)
        q = menus.Spec(name, 6, fexpr).make(hm)
        fac = menus.numeric(fexpr, dirs)
        for m in itertools.product(range(top + 1), repeat=dim):
            if sum(m) > top:
                continue
            for bounds in (True, False):
                def one():
                    m2 = list(m)
                    with axes() as x:
                        q.plot_hf(m2, ax=x, bounds=bounds)
                        ctx.step()
                        ctx.state()
                        ctx.check(m2 == list(m), 'the multi-index was modified')

                        def want(p):
                            xi = (p - q.position.mean)/np.sqrt(np.diag(q.position.cov))
                            return ref.vandermonde(np.array([m]), xi, [False]*dim)[:, 0]*fac(p)
                        same_data(ctx, q, x, want, 'plot_hf')
                        for i, (line, key) in enumerate((('axvline', 'x'), ('axhline', 'y'))[:dim]):
                            w = np.sqrt(2*(2*m[i] + 1)*q.position.cov[i][i])
                            got = x.lines(line, key)
                            ctx.check(np.allclose(got, [q.position.mean[i] - w, q.position.mean[i] + w]) if bounds else not got,
                                      lambda: 'bounds %s in direction %d' % (got, i))
                    ctx.trace()
                ctx.guard({'plot_hf': m, 'quad': name, 'factor': fexpr, 'bounds': bounds}, one)
    for bad in ([0]*(dim + 1), []):
        def refused():
            with axes() as x:
                try:
                    q.plot_hf(bad, ax=x)
                except Exception:
                    return
            ctx.fail('accepted')
        ctx.guard({'plot_hf': bad, 'quad': name}, refused)


FIELDS = [('-{1}', '{0}'), ('{0}', '-{1}'), ('{1} + 2', '3'), ('sin({0})*cos({1})', '-cos({0})*sin({1}) + 1')]


def run_streams(ctx, task):
    name = task['name']
    types, dirs = menus.POSITIONS[name][:2]
    names = ['x%d' % d for d in dirs]
    for ftext in FACTORS[2]:
        fexpr = ftext.format(*names)
        q = menus.Spec(name, 8, fexpr).make(hm)
        fac = menus.numeric(fexpr, dirs)
        given = GIVEN[2].format(*names)
        gv = menus.numeric(given, dirs)
        degree = 4
        n = ref.size('triangle', 2, degree)
        s1, s2 = [q.series(np.array(ref.generic(n, 3 + i))) for i in range(2)]
        items = [('series', s1, s2, lambda p: at(q, s1, p)*fac(p), lambda p: at(q, s2, p)*fac(p))]
        for fx, fy in FIELDS:
            fx, fy = fx.format(*names), fy.format(*names)
            vx, vy = menus.numeric(fx, dirs), menus.numeric(fy, dirs)
            gx, gy = hm.Function(fx, dirs=list(dirs)), hm.Function(fy, dirs=list(dirs))
            items += [('functions', gx, gy, vx, vy), ('expressions', sympy.sympify(1)*gx.as_xyz(), sympy.sympify(1)*gy.as_xyz(), vx, vy)]
        for label, a, b, wx, wy in items:
            for fopt in ((None, 'text', 'array') if label == 'series' else (None,)):
                if label == 'expressions' and not isinstance(a, type(b)) and not isinstance(b, type(a)):
                    continue

                def one():
                    f = {'text': given, 'array': q.discretize(hm.Function(given, dirs=list(dirs))), None: None}[fopt]
                    k = {} if f is None else {'factor': f}
                    scale = gv if fopt is not None else lambda p: 1.
                    data = [v.coeffs for v in (a, b) if isinstance(v, hm.Series)]
                    before = frozen(q, *data)
                    with axes() as x:
                        try:
                            q.streamlines(a, b, ax=x, **k)
                        except ValueError:
                            if label == 'expressions' and not isinstance(a, type(b)):
                                return
                            raise
                        ctx.step()
                        ctx.state()
                        ctx.check(frozen(q, *data) == before, 'arguments or quadrature modified')
                        cs = x.named('contour')
                        if not ctx.check(len(cs) == 1 and len(cs[0][1]) >= 3, 'number of contour plots'):
                            return
                        xs, ys, psi = [np.asarray(v, float) for v in cs[0][1][:3]]
                        nodes = nodes_of(q)
                        ok = np.allclose(xs, nodes[0]) and np.allclose(ys, nodes[1]) and psi.shape == (len(ys), len(xs))
                        if ctx.check(ok, 'grid'):
                            for j in range(len(ys)):
                                for i in range(len(xs)):
                                    p = np.array([[xs[i], ys[j]]])
                                    if j > 0:
                                        want = float((wx(p)*scale(p))[0])*(ys[j] - ys[j - 1])
                                        got = psi[j, i] - psi[j - 1, i]
                                    elif i > 0:
                                        want = -float((wy(p)*scale(p))[0])*(xs[i] - xs[i - 1])
                                        got = psi[0, i] - psi[0, i - 1]
                                    else:
                                        continue
                                    if not ctx.check(abs(got - want) < 1e-8*(1 + np.abs(psi).max()), 'stream function at %s' % p):
                                        return
                    ctx.trace()
                ctx.guard({'streamlines': label, 'fields': [str(a)[:50], str(b)[:50]] if label != 'series' else '', 'quad': name, 'quad factor': fexpr,
                           'factor': fopt}, one)


def run_series(ctx, task):
    kind = task['kind']
    for dim in (1, 2):
        for degree, scale in itertools.product(range(1, 5 if ctx.tier == 'quick' else 7), (0, 1, 2, 3)):
            def one():
                n = ref.size(kind, dim, degree)
                c = np.array(ref.generic(n, 2))
                if scale == 1:      # all magnitudes
                    c = c*10.**((np.arange(n)*7) % 31 - 22)
                elif scale == 2:    # zeros, and small numbers of both signs
                    c = np.array([0., 1e-10, -2e-12, 1., -1e-30, 3e-8])[np.arange(n) % 6]
                elif scale == 3:
                    c = -np.abs(c)*1e6
                s = hm.Series(c.copy(), hm.Position(dim=dim), index_set=kind)
                inds = ref_inds(s)
                with axes() as x:
                    pl = s.plot(ax=x, title='T' if degree == 2 else None)
                    ctx.step()
                    ctx.state()
                    ctx.check(np.array_equal(s.coeffs, c), 'the series was modified')
                    ctx.check(degree != 2 or x.get_title() == 'T', 'title')
                    if dim == 1:
                        got = sorted((r.get_x() + r.get_width()/2, r.get_height()) for r in pl)
                        want = sorted((float(m[0]), v) for m, v in zip(inds, c))
                        ctx.check(np.allclose(got, want, rtol=1e-10, atol=0), lambda: 'bars %s' % got[:5])
                    else:
                        off, col = np.asarray(pl.get_offsets()), np.asarray(pl.get_array())
                        got = {(int(a), int(b)): v for (a, b), v in zip(off, col)}
                        want = {tuple(m): abs(v) for m, v in zip(inds.tolist(), c)}
                        ctx.check(len(off) == n and set(got) == set(want) and all(abs(got[k] - want[k]) <= 1e-12*want[k] for k in want), 'points')
                ctx.trace()
            if degree >= ref.min_degree(kind):
                ctx.guard({'Series.plot': kind, 'dim': dim, 'degree': degree, 'scale': scale}, one)


def run_varf(ctx, task):
    kind = task['kind']
    cases = []
    if kind == 'triangle':
        vals = np.array([1., -2., 3e-4, .5, -1e-12, 7., 1e5, -.25, 4.])
        for bits in range(1, 512):
            cases.append((1, 2, np.where([(bits >> k) & 1 for k in range(9)], vals, 0.).reshape(3, 3)))
    for dim in (1, 2, 3):
        for degree in (1, 2, 3):
            if degree >= ref.min_degree(kind) and ref.size(kind, dim, degree) <= 30:
                n = ref.size(kind, dim, degree)
                cases.append((dim, degree, np.array(ref.generic(n*n, 3)).reshape(n, n)))
    for dim, degree, m in cases:
        for sparse in (False, True):
            def one():
                a = ss.csr_matrix(m) if sparse else m.copy()
                v = hm.Varf(a, hm.Position(dim=dim), index_set=kind)
                inds = np.array(v.multi_indices())
                visible = {(i, j): abs(m[i, j]) for i in range(len(m)) for j in range(len(m)) if abs(m[i, j]) > 1e-9}
                for lines in (True, False):
                    with axes() as x:
                        pl = v.plot(ax=x, lines=lines)
                        ctx.step()
                        ctx.state()
                        ctx.check(np.array_equal(v.matrix.toarray() if sparse else v.matrix, m), 'the matrix was modified')
                        off, col = np.asarray(pl.get_offsets()), np.asarray(pl.get_array())
                        got = {(int(p[0]), int(p[1])): c for p, c in zip(off, col)}
                        ctx.check(len(off) == len(visible) and set(got) == set(visible)
                                  and all(abs(got[k] - visible[k]) <= 1e-12*visible[k] for k in visible), lambda: 'entries %s' % got)
                        if lines and kind in ('triangle', 'cube'):
                            deg = inds.sum(axis=1) if kind == 'triangle' else inds.max(axis=1)
                            want = [float(np.argmax(deg == d)) for d in range(1, degree + 1)]
                            ctx.check(x.lines('axvline', 'x') == want and x.lines('axhline', 'y') == want, 'lines')
                        elif not lines:
                            ctx.check(not x.lines('axvline', 'x') and not x.lines('axhline', 'y'), 'lines that were not asked for')
                ctx.trace()
            ctx.guard({'Varf.plot': kind, 'dim': dim, 'degree': degree, 'matrix': m.tolist() if len(m) < 4 else 'generic', 'sparse': sparse}, one)


# ------------------------------------------------------ statistics

def logged():
    q = hm.Quad.gauss_hermite(5, dim=2)
    qf = hm.Quad.fourier(5)
    x, y = hm.Function.xyz[:2]
    f = sympy.Function('f')(x, y)
    op = f.diff(x, x) - y*f.diff(y)
    m = np.diag([3., 2., 1.5, 1., .5, .2])
    v = hm.Varf(m, hm.Position(dim=2))
    return [('transform', lambda: q.transform('x*y + 1', 2), False), ('varf', lambda: q.varf('x + y', 2, tensorize=False), False),
            ('varfd', lambda: q.varfd('x', 2, [0]), False), ('operator', lambda: q.discretize_op(op, 2), False),
            ('eigs', lambda: v.eigs(k=1, v0=np.ones(6)), False),
            ('odd Fourier degree', lambda: qf.varf('1', 3), True), ('third order remainder', lambda: q.discretize_op(f.diff(x, 6), 2), True)]


LINE = re.compile(r'^( *)(\d+) (Entering|Function) ([^:\s]+)')


def snapshot():
    return {k: v['Calls'] for k, v in stats.stats.items()}


def run_history(ctx, task):
    calls = logged()
    depth = 3 if ctx.tier == 'quick' else 4
    for seq in itertools.product(range(len(calls)), repeat=depth):
        if seq[0] != task['first']:
            continue
        for trails in task['trails']:
            def one():
                for pos, i in enumerate(seq):
                    name, fn, raises = calls[i]
                    before, time0 = snapshot(), {k: v['Time'] for k, v in stats.stats.items()}
                    buf = io.StringIO()
                    hm.settings['trails'] = trails if trails != 'alternate' else pos % 2 == 0
                    on = hm.settings['trails']
                    failed = False
                    try:
                        with contextlib.redirect_stdout(buf):
                            fn()
                    except Exception:
                        failed = True
                    finally:
                        hm.settings['trails'] = False
                    ctx.step()
                    ctx.check(failed == raises, '%s: %s' % (name, 'raised' if failed else 'did not raise'))
                    after = snapshot()
                    diff = {k: after[k] - before.get(k, 0) for k in after}
                    ctx.check(all(v >= 0 for v in diff.values()) and set(before) <= set(after), '%s: number of calls decreased' % name)
                    if not failed:
                        ctx.check(sum(diff.values()) > 0, '%s: the call was not counted' % name)
                    ctx.check(all(stats.stats[k]['Time'] >= time0.get(k, 0) for k in after), 'time decreased')
                    out = buf.getvalue()
                    ms = [LINE.match(l) for l in out.splitlines()]
                    ms = [m for m in ms if m]
                    if not on:
                        ctx.check(not ms, '%s: trails without the setting' % name)
                        continue
                    # well nested, from level 0
                    stack, done, entered = [], {}, 0
                    for m in ms:
                        level, kind, key = int(m.group(2)), m.group(3), m.group(4)
                        if kind == 'Entering':
                            entered += 1
                            while len(stack) > level and failed:
                                stack.pop()
                            if not ctx.check(level == len(stack), '%s: level %d instead of %d' % (name, level, len(stack))):
                                return
                            stack.append(key)
                        else:
                            while failed and stack and (stack[-1] != key or len(stack) - 1 > level):
                                stack.pop()
                            if not ctx.check(stack and stack[-1] == key and level == len(stack) - 1, '%s: leaving %s at level %d, inside %s' % (name, key, level, stack)):
                                return
                            stack.pop()
                            done[key] = done.get(key, 0) + 1
                    ctx.check(entered > 0, '%s: no trail' % name)
                    ctx.check(failed or not stack, '%s: %s not left' % (name, stack))
                    ctx.check(done == {k: v for k, v in diff.items() if v}, lambda: '%s: counted %s, trails show %s' % (name, diff, done))
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    stats.print_stats()
                out = buf.getvalue()
                for k, v in stats.stats.items():
                    ctx.check(re.search(re.escape(k) + r"\D*%d\b" % v['Calls'], out), 'print_stats: %s' % k)
                ctx.trace()
                ctx.state((seq, trails))
            ctx.guard({'history': [calls[i][0] for i in seq], 'trails': trails}, one)
            if len(ctx.violations) > 4:
                return


def run_show(ctx, task):
    """Without axes a figure is created and shown, once."""
    shown = []
    old = plt.show
    plt.show = lambda *a, **k: shown.append(1)
    try:
        for dim in (1, 2):
            q = hm.Quad.gauss_hermite(6, dim=dim)
            s = q.series(np.array(ref.generic(ref.size('triangle', dim, 2), 1)))
            v = hm.Varf(np.diag(1. + np.arange(len(s.coeffs))), hm.Position(dim=dim))
            items = [('plot', lambda: q.plot(s)), ('plot_hf', lambda: q.plot_hf([1]*dim)), ('series', s.plot), ('varf', v.plot)]
            if dim == 2:
                items.append(('streamlines', lambda: q.streamlines(s, s)))
            for name, fn in items:
                def one():
                    del shown[:]
                    fn()
                    ctx.step()
                    ctx.state()
                    ctx.check(len(shown) == 1, '%s: shown %d times' % (name, len(shown)))
                    plt.close('all')
                    ctx.trace()
                ctx.guard({'show': name, 'dim': dim}, one)
    finally:
        plt.show = old


def tasks(tier):
    out = [{'what': 'plot', 'name': n} for n in NAMES[::-1]]
    out += [{'what': 'hf', 'name': n} for n in NAMES if 'f' not in n]
    out += [{'what': 'streams', 'name': n} for n in NAMES if len(menus.POSITIONS[n][1]) == 2]
    out += [{'what': w, 'kind': k} for w in ('varf', 'series') for k in ref.SETS]
    out += [{'what': 'show'}]
    out += [{'what': 'history', 'first': i, 'trails': [t]} for i in range(7) for t in (True, False, 'alternate')]
    return out


def run_task(ctx, task):
    {'plot': run_plot, 'hf': run_hf, 'streams': run_streams, 'series': run_series, 'varf': run_varf, 'history': run_history,
     'show': run_show}[task['what']](ctx, task)
