"""C03: transforms are the exact change of basis."""
import itertools
import json

import numpy as np
import ref
import menus

MEANING = ('states = (shape, input vector) pairs, transitions = transforms executed on the library, '
           'traces = shapes on which all unit inputs and a dense input were compared with the reference '
           '(by linearity: all inputs of the shape)')
BOUNDS = {'quick': 'core: 5 index sets x all Hermite/Fourier masks, dim 1 (1..5 points, degree 0..6), dim 2 '
                   '(all point counts 1..4 squared, degree 0..4), dim 3 (6 grids, degree 0..3), dim 4 (2 grids, '
                   'degree <= 2), all unit inputs; the same nodes in several directions; degrees up to 40 in dim 1, 16 in dim 2, 11 in dim 3, 8 in dim 4 '
                   'on one grid each; weights and values from 1e-60 to 1e60, negative or zero (dim 1..5); objects: 24 positions x factors x index sets, degree <= 4',
          'thorough': 'dim 1 (1..12 points, degree 0..16), dim 2 (1..5 squared, degree 0..7), dim 3 (1..3 cubed, '
                      'degree 0..4), dim 4 (8 grids, degree <= 3); objects: degree <= 6'}
ASSUMPTIONS = ['even degree when a direction is Fourier, degree >= 1 for crosses (otherwise refused)',
               'comparison tolerance 1e-9 relative to the largest entry']

FACTORS = {1: ['1', 'exp(-{0}**2/9)', '2+sin({0})'],
           2: ['1', 'exp(-{0}**2/9)*exp(-{1}**2/7)', 'exp(-{0}*{1}/12)*(2+cos({1}))'],
           3: ['1', 'exp(-{0}**2/9)*exp(-{1}*{2}/20)']}


def shapes(tier):
    q = tier == 'quick'
    for n in range(1, 6 if q else 13):
        yield (n,), range(0, 7 if q else 17)
    for ns in itertools.product(range(1, 5 if q else 6), repeat=2):
        yield ns, range(0, 5 if q else 8)
    three = [(1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 2, 1), (2, 3, 4), (3, 3, 3)]
    for ns in (three if q else itertools.product((1, 2, 3), repeat=3)):
        yield ns, range(0, 4 if q else 5)
    four = [(2, 1, 2, 3), (1, 2, 3, 2)]
    for ns in (four if q else four + [(2, 2, 2, 2), (3, 1, 1, 2), (1, 1, 1, 1), (2, 3, 1, 2), (1, 2, 1, 3), (3, 2, 2, 1)]):
        yield ns, range(0, 3 if q else 4)


def tasks(tier):
    out = []
    for ns, degs in shapes(tier):
        for kind in ref.SETS:
            if len(ns) == 1 and kind not in ('triangle', 'cross'):
                continue
            out.append({'what': 'core', 'ns': list(ns), 'degrees': list(degs), 'kind': kind})
            if len(ns) > 1 and len(set(ns)) < len(ns):      # the same nodes in several directions
                out.append({'what': 'core', 'ns': list(ns), 'degrees': [d for d in degs if d in (1, 2, 4)], 'kind': kind, 'same': True})
    for kind in ref.SETS:       # multi-indices with entries of two digits, high degrees
        if kind in ('triangle', 'cross'):
            out.append({'what': 'core', 'ns': [9], 'degrees': [11, 12, 20, 31, 40], 'kind': kind, 'large': True})
        out.append({'what': 'core', 'ns': [4, 3], 'degrees': [11, 12, 16], 'kind': kind, 'large': True})
        out.append({'what': 'core', 'ns': [2, 1, 3], 'degrees': [10, 11], 'kind': kind, 'large': True})
        out.append({'what': 'core', 'ns': [1, 2, 1, 2], 'degrees': [6 if kind == 'cube' else 7, 8], 'kind': kind, 'large': True})
    for name in menus.POSITIONS:
        dim = len(menus.POSITIONS[name][0])
        out.append({'what': 'quad', 'name': name})
    for kind in ref.SETS:
        for ns, degs in (((5,), [1, 4]), ((3, 2), [2, 3]), ((2, 3, 2), [2]), ((2, 1, 2, 2), [2]), ((1, 2, 1, 2, 1), [2])):
            if len(ns) > 1 or kind in ('triangle', 'cross'):
                out.append({'what': 'magnitudes', 'ns': list(ns), 'degrees': degs, 'kind': kind})
    out.append({'what': 'eval'})
    return sorted(out, key=lambda t: (t['what'] == 'core', -int(np.prod(t.get('ns', [1])))))


def setup(ctx):
    global core, hm
    import hermipy as hm
    import hermipy.core as core


def run_core(ctx, task):
    ns, kind = task['ns'], task['kind']
    dim = len(ns)
    nodes = [ref.generic(n, 3 + (0 if 'same' in task else d))*1.1 for d, n in enumerate(ns)]
    weights = [np.abs(ref.generic(n, 11 + d)) + .1 for d, n in enumerate(ns)]
    pts, w = ref.grid(nodes), ref.grid_weights(weights)
    for degree in task['degrees']:
        if degree < ref.min_degree(kind):
            continue
        inds = None
        for mask in itertools.product((0, 1), repeat=dim):
            if any(mask) and degree % 2:
                continue
            if dim == 4 and sum(mask) > 1 and ctx.tier == 'quick':
                continue

            def one():
                nonlocal inds
                if inds is None:
                    inds = core.iterator_list_indices(dim, degree, index_set=kind)
                v = ref.vandermonde(inds, pts, mask)
                for forward in (True, False):
                    n_in = len(pts) if forward else len(inds)
                    mat = (v*w[:, None]).T if forward else v   # output = mat @ input
                    inputs = list(range(n_in)) if 'large' not in task or n_in < 100 else []
                    got = np.empty(mat.shape)
                    for i in inputs + [None]:
                        e = ref.generic(n_in)
                        if i is not None:
                            e = np.zeros(n_in)
                            e[i] = 1.
                        r = core.transform(degree, e, nodes, weights, forward,
                                           do_fourier=list(mask), index_set=kind)
                        ctx.step()
                        ctx.state()
                        if r.shape != (mat.shape[0],):
                            return ctx.fail('output of shape %s' % (r.shape,))
                        if i is None:
                            ctx.check(ref.close(r, mat.dot(e)), lambda: 'forward=%s dense input: %s'
                                      % (forward, ref.maxdiff(r, mat.dot(e))))
                            ctx.outcome(r.tobytes())
                        else:
                            got[:, i] = r
                    ctx.check(not inputs or ref.close(got, mat), lambda: 'forward=%s unit inputs: %s'
                              % (forward, ref.maxdiff(got, mat)))
                    ctx.trace()
            ctx.guard({'ns': ns, 'kind': kind, 'degree': degree, 'fourier': mask}, one)
    ctx.sample({'ns': ns, 'kind': kind, 'degrees': task['degrees']})


def run_magnitudes(ctx, task):
    """Weights and values that are tiny, huge, negative or zero: every entry to full relative precision."""
    ns, kind = task['ns'], task['kind']
    dim = len(ns)
    nodes = [ref.generic(n, 3 + d)*1.1 for d, n in enumerate(ns)]
    pts = ref.grid(nodes)
    menu = {'tiny': [1e-30, 1e-12, 1e-5, 1e-60, 1.], 'huge': [1e30, 1e8, 1., 1e-8, 1e60], 'signs': [-.5, .7, -1., .1, -2.],
            'zeros': [0., 1., 0., 2., 0.]}
    for degree in task['degrees']:
        inds = core.iterator_list_indices(dim, degree, index_set=kind)
        for mask in sorted({(0,)*dim, (1,)*dim, (0,)*(dim - 1) + (1,)}):
            if any(mask) and degree % 2:
                continue
            v = ref.vandermonde(inds, pts, mask)
            for where in range(dim):
                for label, ws in menu.items():
                    def one():
                        weights = [np.array(ws[:n]) if d == where else np.abs(ref.generic(n, 11 + d)) + .1 for d, n in enumerate(ns)]
                        w = ref.grid_weights(weights)
                        for forward in (True, False):
                            if not forward and (where, label) != (0, 'tiny'):
                                continue
                            mat = (v*w[:, None]).T if forward else v
                            for i in range(mat.shape[1]):
                                for s in (1., 1e-40, -1e40):
                                    e = np.zeros(mat.shape[1])
                                    e[i] = s
                                    r = core.transform(degree, e, nodes, weights, forward, do_fourier=list(mask), index_set=kind)
                                    want = mat[:, i]*s
                                    ctx.step()
                                    ctx.state()
                                    ctx.check(np.all(np.isfinite(r)) and abs(r - want).max() <= 1e-9*abs(want).max(),
                                              lambda: 'forward=%s, value %g at %d: %s' % (forward, s, i, ref.maxdiff(r, want)))
                        ctx.trace()
                    ctx.guard({'ns': ns, 'kind': kind, 'degree': degree, 'fourier': mask, 'direction': where, 'weights': label}, one)


def run_quad(ctx, task):
    name = task['name']
    dim = len(menus.POSITIONS[name][0])
    top = {1: 6, 2: 4, 3: 3}[dim] + (0 if ctx.tier == 'quick' else 2)
    fourier = any(t == 'fourier' for t in menus.POSITIONS[name][0])
    dirs = menus.POSITIONS[name][1]
    for fexpr in FACTORS[dim]:
        fexpr = fexpr.format(*['x%d' % d for d in dirs])
        n = top + 3 + (top % 2)
        spec = menus.Spec(name, n, fexpr)
        q = spec.make(hm)
        pos = q.position
        pts = pos.mean + ref.grid(q.nodes).dot(pos.factor.T)
        fac = menus.numeric(fexpr, dirs)(pts)
        for kind in ref.SETS:
            for degree in range(ref.min_degree(kind), top + 1):
                if fourier and degree % 2:
                    continue

                def one():
                    size = ref.size(kind, dim, degree)
                    pos0 = (pos.mean.copy(), pos.cov.copy(), list(pos.dirs))
                    inds = core.iterator_list_indices(dim, degree, index_set=kind)
                    v = ref.vandermonde(inds, ref.grid(q.nodes), spec.fourier)
                    vals, coeffs = np.empty((len(pts), size)), np.empty((size, size))
                    for j in range(size):
                        e = np.zeros(size)
                        e[j] = 1.
                        s = q.series(e, index_set=kind)
                        vals[:, j] = q.eval(s)
                        t = q.transform(vals[:, j].copy(), degree, index_set=kind)
                        coeffs[:, j] = t.coeffs
                        ctx.step(2)
                        ctx.state()
                        ctx.check(t.degree == degree and t.index_set == kind and t.position == pos
                                  and t.factor == q.factor and t.position.dirs == dirs, 'attributes of the series')
                    ctx.check(ref.close(vals, v*fac[:, None]), lambda: 'values of basis functions: %s'
                              % ref.maxdiff(vals, v*fac[:, None]))
                    ctx.check(ref.close(coeffs, np.eye(size)), lambda: 'round trip: %s'
                              % ref.maxdiff(coeffs, np.eye(size)))
                    ctx.check(np.array_equal(pos0[0], pos.mean) and np.array_equal(pos0[1], pos.cov)
                              and pos0[2] == pos.dirs, 'position was modified')
                    ctx.trace()
                    ctx.outcome((spec.key, kind, degree))
                ctx.guard({'quad': spec.key, 'kind': kind, 'degree': degree}, one)
    ctx.sample({'quad': spec.key})


def run_eval(ctx):
    """Evaluate a series of one position on quadratures of other compatible positions."""
    pairs = [('h0', 'h0m'), ('h0m', 'h0'), ('hh', 'hhm'), ('hhm', 'hh'), ('hhh', 'hhhm'), ('hhhm', 'hhh'),
             ('f0', 'f0'), ('hhn', 'hhn'), ('hhhn', 'hhhn'), ('fh', 'fh'), ('ff', 'ff'), ('h0', 'f0'), ('f0', 'h0'), ('hh', 'ff'), ('ff', 'hhm'),
             ('fh', 'hh'), ('hh', 'fh')]
    quads = {}
    for a, b in pairs:
        dim = len(menus.POSITIONS[a][0])
        fourier = any(t == 'fourier' for t in menus.POSITIONS[a][0])
        for kind in ref.SETS:
            for degree in ((2, 4) if fourier else (1, 3) if dim == 3 else (1, 2, 4)):
                for fexpr in (FACTORS[dim][0], FACTORS[dim][-1]):
                    def one():
                        fx = fexpr.format(*['x%d' % d for d in menus.POSITIONS[a][1]])
                        qa = quads.setdefault((a, fx, 2), menus.Spec(a, 2, fx).make(hm))
                        size = ref.size(kind, dim, degree)
                        s = qa.series(ref.generic(size), index_set=kind)
                        others = [menus.Spec(b, 3).make(hm)]
                        others.append(hm.Quad.newton_cotes([5]*dim, [2. + .5*i for i in range(dim)],
                                                           dirs=list(others[0].position.dirs),
                                                           mean=others[0].position.mean + .2,
                                                           cov=np.asarray(s.position.cov)*(1.7 if s.position.is_diag else 1.)))
                        if kind == 'triangle':      # an array stands for a series of the quadrature
                            c = np.array(ref.generic(size))
                            got, want = qa.eval(c), qa.eval(qa.series(c.copy()))
                            ctx.check(np.array_equal(c, ref.generic(size)), 'coefficients modified')
                            ctx.check(np.array_equal(got, want), 'values of an array of coefficients')
                        for q in others:
                            p = s.position
                            pts = q.position.mean + ref.grid(q.nodes).dot(q.position.factor.T)
                            xi = np.linalg.solve(p.factor, (pts - p.mean).T).T
                            inds = core.iterator_list_indices(dim, degree, index_set=kind)
                            want = ref.vandermonde(inds, xi, [t == 'fourier' for t in p.types]).dot(s.coeffs)
                            want = want*menus.numeric(fx, p.dirs)(pts)
                            state = (q.nodes.copy(), s.coeffs.copy())
                            got = q.eval(s)
                            ctx.check(np.array_equal(q.nodes, state[0]) and np.array_equal(s.coeffs, state[1]) and np.array_equal(q.eval(s), got),
                                      'eval modified its arguments')
                            ctx.step()
                            ctx.state()
                            ctx.check(ref.close(got, want), lambda: 'values elsewhere: %s' % ref.maxdiff(got, want))
                            ctx.outcome(got.tobytes())
                        ctx.trace()
                    ctx.guard({'series': a, 'on': b, 'kind': kind, 'degree': degree, 'factor': fexpr}, one)


def run_task(ctx, task):
    {'core': run_core, 'magnitudes': run_magnitudes, 'quad': run_quad, 'eval': lambda c, t: run_eval(c)}[task['what']](ctx, task)
