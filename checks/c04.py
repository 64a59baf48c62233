"""C04: discretisation and integration."""
import itertools
import math

import numpy as np
import ref
import menus

MEANING = ('states = (expression or input, quadrature) pairs; transitions = calls of discretize / integrate / norm '
           'and of composite quadratures; traces = quadratures on which all inputs were compared')
BOUNDS = {'quick': 'discretize: 60 expressions in 2 notations x 3 kinds of argument x 24 positions; core level: all '
                   'unit dilations and ragged grids 1..3 points in dim 1..3, all unit inputs; integrate: all monomials '
                   'up to the exactness degree (n = 1..4 points; 3 in dim 3), trigonometric monomials below the '
                   'aliasing limit; flat, norms, Newton-Cotes, composite quadratures of 1..3 parts; weights and '
                   'values from 1e-60 to 1e60, negative or zero (dim 1..5); up to 100 points in dim 1, 40 in dim 2; '
                   'all ways of building quadratures of 1, 2, 5 points, and all their pairs under ==',
          'thorough': 'same with n up to 8 points (5 in dim 3), ragged grids 1..4 points, all subsets of the '
                      'expressions as sums of two'}
ASSUMPTIONS = ['expressions are evaluated by the C compiler with -Ofast: tolerance 1e-9 relative',
               'the uniform measure of a Fourier direction has mass 2 pi whatever the bounds']

EXPR = {
    1: ['0', '1', '5/2', '-7', '{0}', '-{0}', '{0}**2', '{0}**3-2*{0}+1/3', 'exp(-{0}**2/2)', 'sin({0})',
        'cos(2*{0})', 'sqrt({0}**2+1)', 'abs({0})', '1/(1+{0}**2)', 'pi*{0}', 'exp({0})*cos({0})',
        'log(2+{0}**2)', 'tanh({0})', '{0}**9', '1e-3*{0}**4', 'Max({0}, 0)', '({0}-1)**2*({0}+2)', 'exp(1)',
        'Piecewise(({0}, {0} > 0), (2, True))', 'atan({0})/3'],
    2: ['0', '3', '{0}', '{1}', '{0}*{1}', '{0}-{1}', '{0}**2*{1}**3', 'exp(-{0}*{1}/4)', 'cos({0}+2*{1})',
        '{0}+{1}**2', 'sin({0})*exp({1}/3)', '({0}-{1})**3', 'sqrt(1+{0}**2+2*{1}**2)', '{0}**2/(1+{1}**2)',
        'sin({1})', 'pi+{0}*{1}**2-{1}', 'Max({0}, {1})'],
    3: ['0', '2', '{0}', '{1}', '{2}', '{0}*{1}*{2}', '{0}+2*{1}+3*{2}', '{0}**2*{2}', '{1}*exp({2}/5)',
        'cos({0}-{2})*{1}', '({0}+{1})**2-{2}', 'exp(-({0}**2+{1}*{2})/9)', '{0}*{1}+{2}*{1}**2'],
}
NAMES = 'xyzwv'


def tasks(tier):
    out = [{'what': 'expr', 'name': n} for n in menus.POSITIONS]
    out += [{'what': 'moments', 'name': n} for n in menus.POSITIONS]
    top = 3 if tier == 'quick' else 4
    for dim in (1, 2, 3):
        for ns in itertools.product(range(1, top + 1), repeat=dim):
            out.append({'what': 'core', 'ns': list(ns)})
    out += [{'what': 'newton', 'dim': d} for d in (1, 2, 3)]
    out += [{'what': 'magnitudes', 'ns': ns} for ns in ([5], [3, 2], [2, 3, 2], [2, 1, 2, 2], [1, 2, 1, 2, 2])]
    out += [{'what': 'many', 'name': n, 'n': k} for n in ('h0', 'h0m', 'h3', 'f0') for k in (17, 40, 60, 100)]
    out += [{'what': 'many', 'name': n, 'n': k} for n in ('hhm', 'hhn', 'fh') for k in (17, 40)]
    out += [{'what': 'constructors', 'n': n} for n in (1, 2, 5)]
    out += [{'what': 'comp', 'name': n} for n in menus.POSITIONS]
    return out


def setup(ctx):
    global core, hm, CompQuad
    import hermipy as hm
    import hermipy.core as core
    from hermipy.compquad import CompQuad


def names(dirs, xyz):
    return [NAMES[d] if xyz else 'x%d' % d for d in dirs]


def points(q, spec):
    """Mapped nodes from the mean and covariance, with the position's factor checked."""
    f = q.position.factor
    cov = np.asarray(spec.cov)
    if not ref.close(f.dot(f.T), cov, 1e-12):
        raise AssertionError('factor F does not satisfy F F^T = cov')
    if spec.diag and not ref.close(f, np.diag(np.sqrt(np.diag(cov))), 1e-12):
        raise AssertionError('factor of a diagonal covariance is not its square root')
    return spec.mean + ref.grid(q.nodes).dot(f.T)


def run_expr(ctx, task):
    spec = menus.Spec(task['name'], 3)
    q = spec.make(hm)
    pts = points(q, spec)
    exprs = list(EXPR[spec.dim])
    if ctx.tier != 'quick':
        exprs += ['%s+(%s)*2' % (a, b) for a, b in itertools.combinations(EXPR[spec.dim][4:14], 2)]
    for e in exprs:
        for xyz in (True, False):
            text = e.format(*names(spec.dirs, xyz))

            def one():
                want = menus.numeric(text, spec.dirs)(pts)
                import sympy
                f = hm.Function(text, dirs=list(spec.dirs))
                args = {'text': text, 'Function': f, 'expr': f.as_xyz() if xyz else f.sym}
                used = sorted(hm.Function.x_sub.index(s) for s in f.sym.free_symbols)
                args['Function of its own variables'] = hm.Function(text, dirs=used)
                args['Function of more variables'] = hm.Function(text, dirs=[0, 1, 2, 3, 4])
                for kind, a in args.items():
                    before = repr(a)
                    got = q.discretize(a)
                    ctx.step()
                    ctx.state()
                    ctx.check(got.shape == want.shape and ref.close(got, want),
                              lambda: '%s given as %s: %s' % (text, kind, ref.maxdiff(got, want)))
                    ctx.check(repr(a) == before, 'argument modified')
                ctx.outcome(want.tobytes())
            ctx.guard({'position': spec.key, 'expr': text}, one)

    def nodes():
        got = q.mapped_nodes()
        ctx.step()
        ctx.check(ref.close(got, pts), lambda: 'mapped_nodes: ' + ref.maxdiff(got, pts))
    ctx.guard({'position': spec.key, 'mapped_nodes': True}, nodes)
    ctx.trace()
    ctx.sample({'position': spec.key, 'expr': text})


def moment(spec, ms):
    """Exact E[prod x_i^m_i] (Gaussian directions; Cholesky change of variables)."""
    n = sum(ms)//2 + 1
    nodes, weights = ref.gauss_nd([n]*spec.dim, [False]*spec.dim)
    pts = spec.mean + ref.grid(nodes).dot(np.linalg.cholesky(spec.cov).T)
    v = np.ones(len(pts))
    for i, m in enumerate(ms):
        v = v*pts[:, i]**m
    return float(v.dot(ref.grid_weights(weights)))


def run_moments(ctx, task):
    name = task['name']
    dim = len(menus.POSITIONS[name][0])
    top = {1: 4, 2: 4, 3: 3}[dim] if ctx.tier == 'quick' else {1: 8, 2: 6, 3: 5}[dim]
    for n in range(1, top + 1):
        spec = menus.Spec(name, n)
        q = spec.make(hm)
        pts = points(q, spec)
        scale = np.sqrt(np.diag(spec.cov))
        limits = [range(n) if f else range(2*n) for f in spec.fourier]
        mono = [m for m in itertools.product(*limits) if spec.diag or sum(m) < 2*n]
        for ms in mono:
            for phase in itertools.product(*[(0, 1) if f else (0,) for f in spec.fourier]):
                def one():
                    vals, want, text, absolute = np.ones(len(pts)), 1., [], 1.
                    hd = [i for i in range(dim) if not spec.fourier[i]]
                    for i, m in enumerate(ms):
                        x = pts[:, i]
                        if spec.fourier[i]:
                            t = m*(x - spec.mean[i])/scale[i]
                            vals = vals*(np.sin(t) if phase[i] else np.cos(t))
                            want *= 2*math.pi*(m == 0)*(not phase[i])
                            absolute *= 2*math.pi
                            text.append('%s(%d*(x%d-(%r))/%r)' % ('sin' if phase[i] else 'cos', m, spec.dirs[i],
                                                                 float(spec.mean[i]), float(scale[i])))
                        else:
                            vals = vals*x**m
                            text.append('x%d**%d' % (spec.dirs[i], m))
                    if hd:
                        sub = menus.Spec(name, n)
                        sub.dim, sub.mean, sub.cov = len(hd), spec.mean[hd], spec.cov[np.ix_(hd, hd)]
                        want *= moment(sub, [ms[i] for i in hd])
                        absolute *= moment(sub, [2*ms[i] for i in hd])**.5
                    tol = 1e-9*max(1., absolute)
                    calls = {'array': vals}
                    if sum(ms) <= 3 or (spec.diag and max(ms) <= 3):
                        calls['text'] = '*'.join(text)
                    for kind, a in calls.items():
                        got = q.integrate(a)
                        ctx.step()
                        ctx.check(isinstance(got, float) and abs(got - want) <= tol,
                                  'integral of %s (%s): got %r, expected %r' % ('*'.join(text), kind, got, want))
                    # Flat: the weighted measure has the Gaussian density
                    if hd:
                        xx = (pts - spec.mean)[:, hd]
                        c = spec.cov[np.ix_(hd, hd)]
                        dens = np.exp(-.5*np.sum(xx*np.linalg.solve(c, xx.T).T, axis=1)) \
                            / math.sqrt((2*math.pi)**len(hd)*np.linalg.det(c))
                    else:
                        dens = np.ones(len(pts))
                    got = q.integrate(vals*dens, flat=True)
                    ctx.check(abs(got - want) <= tol, 'flat integral: got %r, expected %r' % (got, want))
                    ctx.step()
                    ctx.state((spec.key, ms, phase))
                    ctx.outcome(round(want, 9))
                ctx.guard({'quad': spec.key, 'powers': ms, 'phase': phase}, one)

        def misc():
            # Density as text, flat, with and without tensorisation
            w = q.position.weight()
            num = menus.numeric(w, spec.dirs)(pts)
            want = (2*math.pi)**sum(spec.fourier)
            for t in (None, True, False):
                got = q.integrate(w, flat=True, tensorize=t)
                ctx.step()
                ctx.check(abs(got - want) < 1e-9*want, 'flat integral of the weight (tensorize=%s): %r, expected %r' % (t, got, want))
            ctx.check(ref.close(q.discretize(w), num), 'weight')
            # Linearity on every node: weights, norms
            W = ref.grid_weights(q.weights)
            sym = hm.Function.x_sub[spec.dirs[-1]]
            for k, vals in enumerate([pts[:, -1], ref.generic(len(pts)), -np.abs(ref.generic(len(pts), 2))]):
                a = [q.integrate(vals.copy()), q.norm(vals.copy()), q.norm(vals.copy(), n=1),
                     q.norm(vals*num, n=1, flat=True)]
                b = [W.dot(vals), math.sqrt(W.dot(vals**2)), W.dot(abs(vals)), W.dot(abs(vals))]
                ctx.step(4)
                ctx.check(ref.close(a, b), lambda: 'norms of values %d: %s' % (k, ref.maxdiff(a, b)))
            ctx.check(ref.close(q.norm(sym), math.sqrt(W.dot(pts[:, -1]**2))), 'norm of an expression')
            if n > 1:
                for kind in ('triangle', 'cube'):
                    deg = 2 if any(spec.fourier) else 1
                    s = q.series(ref.generic(ref.size(kind, dim, deg)), index_set=kind)
                    inds = core.iterator_list_indices(dim, deg, index_set=kind)
                    v = ref.vandermonde(inds, ref.grid(q.nodes), spec.fourier).dot(s.coeffs)
                    a, b = [q.integrate(s), q.norm(s), q.norm(s, n=1)], [W.dot(v), math.sqrt(W.dot(v*v)), W.dot(abs(v))]
                    ctx.step(3)
                    ctx.check(ref.close(a, b), lambda: 'integral and norms of a series: %s' % ref.maxdiff(a, b))
        ctx.guard({'quad': spec.key, 'weight and norms': True}, misc)
        ctx.trace()
    ctx.sample({'quad': spec.key, 'monomials': len(mono)})


def run_core(ctx, task):
    ns = task['ns']
    dim = len(ns)
    nodes = [ref.generic(n, 5 + d) for d, n in enumerate(ns)]
    weights = [ref.generic(n, 9 + d) for d, n in enumerate(ns)]
    pts, W = ref.grid(nodes), ref.grid_weights(weights)
    body = '+'.join('%d.0*v[%d]' % (10**i, i) for i in range(dim))
    coef = 10.**np.arange(dim)
    dil = [np.zeros((dim, dim)) for _ in range(dim*dim)]
    for k in range(dim*dim):
        dil[k].flat[k] = 1.
    dil.append(np.eye(dim))
    dil.append(ref.generic(dim*dim, 4).reshape(dim, dim))
    for k, m in enumerate(dil):
        for trans in (np.zeros(dim), ref.generic(dim, 8)):
            def one():
                got = core.discretize(body, nodes, trans, m)
                want = (trans + pts.dot(m.T)).dot(coef)
                ctx.step()
                ctx.state()
                ctx.check(ref.close(got, want), lambda: 'discretize: ' + ref.maxdiff(got, want))
                ctx.outcome(want.tobytes())
            ctx.guard({'ns': ns, 'dilation': m.tolist(), 'translation': trans.tolist()}, one)
    for mask in itertools.product((0, 1), repeat=dim):
        def unit():
            got = []
            for i in range(len(pts)):
                e = np.zeros(len(pts))
                e[i] = 1.
                got.append(core.integrate(e, nodes, weights, do_fourier=list(mask)))
                ctx.step()
                ctx.state()
            ctx.check(ref.close(got, W), lambda: 'integrate unit values: ' + ref.maxdiff(got, W))
            e = ref.generic(len(pts), 6)
            ctx.check(ref.close(core.integrate(e, nodes, weights, do_fourier=list(mask)), W.dot(e)), 'integrate')
        ctx.guard({'ns': ns, 'fourier': mask, 'integrate': True}, unit)
    ctx.trace()


def run_magnitudes(ctx, task):
    """Weights and values of very different magnitudes: every contribution to full relative precision."""
    ns = task['ns']
    dim = len(ns)
    nodes = [ref.generic(n, 5 + d) for d, n in enumerate(ns)]
    menu = {'tiny': [1e-30, 1e-12, 1e-5, 1e-60, 1.], 'huge': [1e30, 1e8, 1., 1e-8, 1e60], 'signs': [-.5, .7, -1., .1, -2.],
            'zeros': [0., 1., 0., 2., 0.]}
    for where in range(dim):
        for label, ws in menu.items():
            for mask in sorted({(0,)*dim, (1,)*dim, (0,)*(dim - 1) + (1,)}):
                def one():
                    weights = [np.array(ws[:n]) if d == where else ref.generic(n, 9 + d) for d, n in enumerate(ns)]
                    W = ref.grid_weights(weights)
                    for i in range(len(W)):
                        for s in (1., 1e-40, -1e40):
                            e = np.zeros(len(W))
                            e[i] = s
                            got = core.integrate(e, nodes, weights, do_fourier=list(mask))
                            ctx.step()
                            ctx.state()
                            ctx.check(abs(got - s*W[i]) <= 1e-10*abs(s*W[i]), lambda: 'value %g at %d: %r, expected %r' % (s, i, got, s*W[i]))
                ctx.guard({'ns': ns, 'fourier': mask, 'direction': where, 'weights': label}, one)
    ctx.trace()


def run_many(ctx, task):
    """Quadratures with many points, some of negligible weight: flat integrals still see all of them."""
    spec = menus.Spec(task['name'], task['n'])
    q = spec.make(hm)
    pts = points(q, spec)
    hd = [i for i in range(spec.dim) if not spec.fourier[i]]
    W = ref.grid_weights(q.weights)
    dens = np.ones(len(pts))
    if hd:
        xx, c = (pts - spec.mean)[:, hd], spec.cov[np.ix_(hd, hd)]
        dens = np.exp(-.5*np.sum(xx*np.linalg.solve(c, xx.T).T, axis=1))/math.sqrt((2*math.pi)**len(hd)*np.linalg.det(c))

    def one():
        ctx.check(np.all(W > 0) and len(W) == task['n']**spec.dim, 'weights')
        ctx.check(ref.close(W.sum(), (2*math.pi)**sum(spec.fourier)), 'mass')
        for i in range(len(pts)) if len(pts) <= 300 else range(0, len(pts), 7):
            e = np.zeros(len(pts))
            e[i] = 1.
            for flat, want in ((False, W[i]), (True, W[i]/dens[i])):
                got = [q.integrate(e, flat=flat), q.norm(e, n=1, flat=flat), q.norm(e, n=2, flat=flat)**2, -q.integrate(-e, flat=flat)]
                ctx.step(4)
                ctx.state()
                # 1/density is computed with -Ofast: absolute errors of the exponent matter
                ctx.check(all(abs(g - want) <= 1e-7*want for g in got), lambda: 'point %d of weight %g, flat=%s: %s, expected %r' % (i, W[i], flat, got, want))
        for h in hd:
            v = q.integrate(pts[:, h]**2*dens, flat=True)
            want = (spec.cov[h, h] + spec.mean[h]**2)*(2*math.pi)**sum(spec.fourier)
            ctx.check(abs(v - want) <= 1e-9*want, lambda: 'flat second moment: %r, expected %r' % (v, want))
        ctx.trace()
    ctx.guard({'quad': spec.key, 'points': task['n']}, one)


def run_newton(ctx, task):
    dim = task['dim']
    for n in (2, 3, 5, 120) if dim == 1 else (2, 3, 5, 60) if dim == 2 else (2, 3, 5):
        for ext in (1., 2.5, 7.):
            def one():
                extrema = [ext + .25*i for i in range(dim)]
                mean, cov = [.3 - .1*i for i in range(dim)], np.diag([.7 + .2*i for i in range(dim)])
                q = hm.Quad.newton_cotes([n]*dim, extrema, mean=mean, cov=cov, dirs=list(range(dim)))
                nodes = [np.linspace(-e, e, n) for e in extrema]
                weights = []
                for x, e in zip(nodes, extrema):
                    h = np.full(n, x[1] - x[0])
                    h[0] = h[-1] = (x[1] - x[0])/2
                    weights.append(h*np.exp(-x**2/2)/math.sqrt(2*math.pi))
                pts = np.array(mean) + ref.grid(nodes)*np.sqrt(np.diag(cov))
                W = ref.grid_weights(weights)
                got = q.mapped_nodes()
                ctx.check(ref.close(got, pts), lambda: 'nodes: ' + ref.maxdiff(got, pts))
                for vals in (np.ones(len(pts)), ref.generic(len(pts)), pts[:, 0]**2):
                    ctx.check(ref.close(q.integrate(vals), W.dot(vals)), 'integral')
                    ctx.step()
                    ctx.state()
                if n >= 60 and ext == 7.:
                    ctx.check(abs(q.integrate(pts[:, 0]**2) - .7 - .09) < 1e-6, 'second moment')
                ctx.outcome(W.tobytes())
            ctx.guard({'newton_cotes': n, 'extremum': ext, 'dim': dim}, one)
    ctx.trace()


def run_constructors(ctx, task):
    """Every way to give the dimension, directions, position and bounds; equality of the quadratures."""
    n = task['n']
    H, F = 'hermite', 'fourier'
    Q, P = hm.Quad, hm.Position
    made = []           # (label, thunk, (kind, n, types, dirs, mean, cov, factor))

    def add(label, thunk, kind, dim, dirs=None, mean=None, cov=None, factor='1', points=n):
        dirs = list(range(dim)) if dirs is None else list(dirs)
        made.append((label, thunk, (kind, points, dirs, np.zeros(dim) if mean is None else np.array(mean, float),
                                    np.eye(dim) if cov is None else np.array(cov, float), factor.format(*['x%d' % d for d in dirs]))))

    add('gauss int', lambda: Q.gauss_hermite(n), H, 1)
    add('gauss int factor', lambda: Q.gauss_hermite(n, factor='exp(-x**2)'), H, 1, factor='exp(-{0}**2)')
    for dim in (1, 2, 3):
        means, covs = [.3, -.2, .5][:dim], np.diag([.7, 1.3, .4][:dim])
        full = covs + .1*(np.ones((dim, dim)) - np.eye(dim))
        for label, first in (('list', dict(n_points=[n]*dim)), ('dim', dict(n_points=n, dim=dim)),
                             ('array', dict(n_points=np.full(dim, n))), ('list dim', dict(n_points=[n]*dim, dim=dim))):
            for opts in range(8):
                kw = dict(first)
                if opts & 1:
                    kw['mean'] = list(means)
                if opts & 2:
                    kw['cov'] = covs.tolist()
                if opts & 4:
                    kw['factor'] = '3*exp(-x0/7)'
                add('gauss %s %d' % (label, opts), lambda kw=kw: Q.gauss_hermite(**kw), H, dim, mean=means if opts & 1 else None,
                    cov=covs if opts & 2 else None, factor='3*exp(-{0}/7)' if opts & 4 else '1')
        for dirs in itertools.combinations(range(5), dim):
            dirs = list(dirs)
            add('gauss dirs', lambda dirs=dirs: Q.gauss_hermite(n, dirs=list(dirs)), H, dim, dirs)
            add('gauss dirs mean', lambda dirs=dirs, m=means: Q.gauss_hermite(n, dirs=list(dirs), mean=np.array(m)), H, dim, dirs, means)
            add('gauss position', lambda dirs=dirs, m=means, c=full: Q.gauss_hermite(n, dim=len(m), position=P(dirs=list(dirs), mean=list(m), cov=c.tolist())),
                H, dim, dirs, means, full)
            add('newton position', lambda dirs=dirs, m=means, c=covs: Q.newton_cotes([n + 1]*len(m), [2.]*len(m), position=P(dirs=list(dirs), mean=list(m), cov=c.tolist())),
                'newton', dim, dirs, means, covs)
            add('newton dirs', lambda dirs=dirs: Q.newton_cotes([n + 1]*len(dirs), [2.]*len(dirs), dirs=list(dirs), factor='2'), 'newton', dim, dirs, factor='2')
            add('fourier dirs', lambda dirs=dirs: Q.fourier(n, dirs=list(dirs)), F, dim, dirs)
            add('fourier list dirs', lambda dirs=dirs: Q.fourier([n]*len(dirs), dirs=list(dirs), factor='2'), F, dim, dirs, factor='2')
            add('fourier position', lambda dirs=dirs, m=means, c=covs: Q.fourier(n, position=P(dirs=list(dirs), mean=list(m), cov=c.tolist(), types=['fourier']*len(m))),
                F, dim, dirs, means, covs)
            b = [(m - math.pi*math.sqrt(c), m + math.pi*math.sqrt(c)) for m, c in zip(means, np.diag(covs))]
            add('fourier bounds dirs', lambda dirs=dirs, b=b: Q.fourier(n, bounds=list(b), dirs=list(dirs)), F, dim, dirs, means, covs)
        add('fourier bounds', lambda b=b: Q.fourier(n, bounds=list(b)), F, dim, None, means, covs)
        add('fourier list', lambda dim=dim: Q.fourier([n]*dim), F, dim)
        add('newton', lambda dim=dim: Q.newton_cotes([n + 1]*dim, [2.]*dim), 'newton', dim)
    add('fourier int', lambda: Q.fourier(n), F, 1)
    add('gauss other points', lambda: Q.gauss_hermite(n + 2), H, 1, points=n + 2)
    add('fourier other points', lambda: Q.fourier(n + 2), F, 1, points=n + 2)

    built = []
    for label, thunk, want in made:
        kind, k, dirs, mean, cov, factor = want
        dim = len(dirs)

        def one():
            q = thunk()
            ctx.step()
            ctx.state()
            p = q.position
            if kind == 'newton':
                x = np.linspace(-2., 2., k + 1)
                w = np.full(k + 1, x[1] - x[0])
                w[0] = w[-1] = (x[1] - x[0])/2
                x, w = [x]*dim, [w*np.exp(-x**2/2)/math.sqrt(2*math.pi)]*dim
            else:
                x, w = ref.gauss_nd([k]*dim, [kind == F]*dim)
            ctx.check(np.shape(q.nodes) == np.shape(x) and ref.close(np.sort(q.nodes), np.sort(x), 1e-10), 'nodes')
            if kind != F:
                ctx.check(ref.close(q.weights, w, 1e-10), 'weights')
            ctx.check(ref.close(np.sum(q.weights), np.sum(w), 1e-10), 'mass')
            ctx.check(p.dim == dim and list(p.dirs) == dirs and list(p.types) == [F if kind == F else H]*dim,
                      lambda: 'directions or types: %s %s' % (p.dirs, p.types))
            ctx.check(ref.close(p.mean, mean, 1e-12) and ref.close(p.cov, cov, 1e-12), lambda: 'mean %s or cov %s' % (p.mean, p.cov))
            ctx.check(q.factor == hm.Function(factor, dirs=dirs), lambda: 'factor %s' % q.factor)
            ctx.check(str(dim) in str(q) and str(q) == repr(q), 'text of the quadrature')
            pts = mean + ref.grid(q.nodes).dot(p.factor.T)
            ctx.check(ref.close(p.factor.dot(p.factor.T), cov, 1e-12), 'factor of the covariance')
            ctx.check(ref.close(q.mapped_nodes(), pts), 'mapped nodes')
            W = ref.grid_weights(q.weights)
            v = pts.dot(np.arange(1., dim + 1)) + 2.
            ctx.check(ref.close(q.integrate('+'.join('%d*x%d' % (i + 1, d) for i, d in enumerate(dirs)) + '+2'), W.dot(v)), 'integral')
            built.append((label, want, q))
        ctx.guard({'constructor': label, 'n': k, 'dirs': dirs}, one)
    for i, (la_, a, qa) in enumerate(built):
        for lb, b, qb in built[:i + 1]:
            def pair():
                same = a[0] == b[0] and a[1] == b[1] and a[2] == b[2] and np.array_equal(a[3], b[3]) and np.array_equal(a[4], b[4]) and a[5] == b[5]
                if a[1] + (a[0] == 'newton') == 1 and a[0] != b[0]:
                    return
                ctx.check(bool(qa == qb) == same and bool(qb == qa) == same, lambda: 'equality is %s, expected %s' % (qa == qb, same))
            ctx.guard({'equality of': [la_, a[2], lb, b[2]], 'n': n}, pair)
        ctx.step()
    ctx.trace()


def run_comp(ctx, task):
    name = task['name']
    dim = len(menus.POSITIONS[name][0])
    four = any(t == 'fourier' for t in menus.POSITIONS[name][0])
    degree = 2
    specs = {n: menus.Spec(name, n) for n in (2, 3, 5)}
    quads = {n: s.make(hm) for n, s in specs.items()}
    dirs = menus.POSITIONS[name][1]
    text = '+'.join(['1'] + ['%d*x%d**2' % (i + 1, d) for i, d in enumerate(dirs)]) + '-x%d' % dirs[0]
    import sympy
    f = sympy.Function('f')(*[hm.Function.x_sub[d] for d in dirs])
    ops = [f.diff(hm.Function.x_sub[dirs[-1]]), hm.Function.x_sub[dirs[0]]*f]

    def part_values(n):
        q, spec = quads[n], specs[n]
        pts = points(q, spec)
        v = menus.numeric(text, dirs)(pts)
        W = ref.grid_weights(q.weights)
        return q, v, W

    for sizes in [(2,), (5,), (2, 3), (3, 2), (5, 5), (2, 3, 5)]:
        for qw in [[1.]*len(sizes), [.3, -1.5, 2.][:len(sizes)]]:
            def one():
                cq = CompQuad([quads[n] for n in sizes], qw)
                want = sum(c*W.dot(v) for c, (q, v, W) in zip(qw, map(part_values, sizes)))
                got = cq.integrate(text)
                ctx.step()
                ctx.check(ref.close(got, want), lambda: 'integrate: got %r, expected %r' % (got, want))
                for kind in ('triangle', 'cube'):
                    inds = core.iterator_list_indices(dim, degree, index_set=kind)
                    tr = 0
                    for c, (q, v, W) in zip(qw, map(part_values, sizes)):
                        b = ref.vandermonde(inds, ref.grid(q.nodes), specs[2].fourier)
                        tr = tr + c*b.T.dot(W*v)
                    s = cq.transform(text, degree, index_set=kind)
                    ctx.check(ref.close(s.coeffs, tr), lambda: 'transform: ' + ref.maxdiff(s.coeffs, tr))
                    ctx.check(s.position == quads[2].position and s.index_set == kind and s.degree == degree, 'series')
                    parts = [quads[n].varf(text, degree, index_set=kind) for n in sizes]
                    dpart = [quads[n].varfd(text, degree, [dirs[-1]], index_set=kind) for n in sizes] \
                        if (not four or kind == 'cube') else None
                    for sp in (False, True):
                        def dense(m):
                            return m.toarray() if sp else np.asarray(m)
                        m = cq.varf(text, degree, sparse=sp, index_set=kind)
                        w = sum(c*p.matrix for c, p in zip(qw, parts))
                        ctx.check(ref.close(dense(m.matrix), w), 'varf of a composite quadrature')
                        if dpart is not None:
                            m = cq.varfd(text, degree, [dirs[-1]], sparse=sp, index_set=kind)
                            w = sum(c*p.matrix for c, p in zip(qw, dpart))
                            ctx.check(ref.close(dense(m.matrix), w), 'varfd of a composite quadrature')
                            for o in ops:
                                m = cq.discretize_op(o, degree, sparse=sp, index_set=kind)
                                w = sum(c*quads[n].discretize_op(o, degree, index_set=kind).matrix
                                        for c, n in zip(qw, sizes))
                                ctx.check(ref.close(dense(m.matrix), w), 'discretize_op of a composite quadrature')
                        ctx.step(4)
                if specs[2].diag:
                    for sub in ref.subsets(dirs, 1):
                        p = cq.project(sub)
                        ctx.check(list(p.qweights) == list(qw) and
                                  all(a == quads[n].project(sub) for a, n in zip(p.quads, sizes)), 'project')
                        ctx.step()
                ctx.check(cq == CompQuad([quads[n] for n in sizes], list(qw)), 'equality')
                if len(sizes) == 1 and qw == [1.]:
                    ctx.check(cq == quads[sizes[0]], 'equality with a quadrature')
                if len(sizes) > 1:
                    ctx.check(not (cq == CompQuad([quads[sizes[0]]], [qw[0]])), 'inequality')
                ctx.check(not (cq == CompQuad([quads[n] for n in sizes], [c + 1 for c in qw])), 'inequality')
                ctx.state()
                ctx.outcome(want)
            ctx.guard({'position': name, 'parts': sizes, 'weights': qw}, one)
    ctx.trace()


def run_task(ctx, task):
    {'expr': run_expr, 'moments': run_moments, 'core': run_core, 'newton': run_newton,
     'comp': run_comp, 'constructors': run_constructors, 'magnitudes': run_magnitudes, 'many': run_many}[task['what']](ctx, task)
