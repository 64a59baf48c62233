"""C05: matrices of multiplication operators."""
import itertools

import numpy as np
import ref
import menus

MEANING = ('states = (shape, coefficient) pairs; transitions = matrices assembled by the library; traces = shapes on '
           'which all unit coefficients were compared entry by entry with exact triple products (by linearity: all '
           'coefficients of the shape)')
BOUNDS = {'quick': 'core: 5 index sets x all Hermite/Fourier masks x dense/sparse, dim 1 (1..4 points, degree 0..6), '
                   'dim 2 (7 grids, degree 0..4), dim 3 (3 grids, degree 0..2), dim 4 (1 grid, degree <= 1); every basis '
                   'function of the cube of twice the degree as coefficient on exact quadratures; all monomials as text; '
                   'triple products: all triples, degree 0..20 (Hermite), 0..20 (Fourier); four coefficients at degrees 11, 20, 30 in dim 1, 10 and 11 in dim 2, 4 in dim 3, 1 or 2 in dim 4..6; '
                   'coefficients with parts of sizes 1e-9..1e9 (49 pairs) in dim 1..3',
          'thorough': 'dim 1 (1..8 points, degree 0..12), dim 2 (all grids 1..4, degree 0..6), dim 3 (all grids 1..2 and '
                      '(3,2,1), degree 0..4), dim 4 (4 grids, degree <= 2); triple products degree 0..30'}
ASSUMPTIONS = ['coefficients below 1e-12 of the norm may be dropped (threshold of the code)',
               'tolerance 1e-9 relative to the largest entry']


def shapes(tier):
    q = tier == 'quick'
    for n in range(1, 5 if q else 9):
        yield (n,), range(0, 7 if q else 13)
    two = [(1, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
    for ns in (two if q else itertools.product(range(1, 5), repeat=2)):
        yield ns, range(0, 5 if q else 7)
    three = [(2, 1, 2), (1, 2, 3), (3, 2, 1)]
    for ns in (three if q else list(itertools.product((1, 2), repeat=3)) + [(3, 2, 1)]):
        yield ns, range(0, 3 if q else 5)
    four = [(1, 2, 2, 1)]
    for ns in (four if q else four + [(2, 1, 1, 2), (2, 2, 1, 1), (1, 1, 1, 1)]):
        yield ns, range(0, 2 if q else 3)


def tasks(tier):
    out = []
    for ns, degs in shapes(tier):
        for kind in ref.SETS:
            if len(ns) == 1 and kind not in ('triangle', 'cross'):
                continue
            for d in ([list(degs)] if len(ns) < 3 else [[x] for x in degs]):
                out.append({'what': 'core', 'ns': list(ns), 'degrees': d, 'kind': kind})
    out.sort(key=lambda t: -len(t['ns'])*100 - max(t['degrees']))
    for name in menus.POSITIONS:
        for kind in ref.SETS:
            out.insert(0, {'what': 'exact', 'name': name, 'kind': kind})
    out += [{'what': 'large', 'dim': dim, 'kind': kind, 'degree': d} for dim, d in ((1, 11), (1, 20), (1, 30), (2, 10), (2, 11), (3, 4))
            for kind in ref.SETS if dim > 1 or kind in ('triangle', 'cross')]
    out += [{'what': 'large', 'dim': dim, 'kind': kind, 'degree': d} for dim, d in ((4, 2), (5, 1), (5, 2), (6, 1)) for kind in ref.SETS
            if (dim*d < 9 or kind == 'triangle') and (dim < 5 or kind != 'cross_nc')]
    out += [{'what': 'scale', 'dim': dim, 'kind': kind} for dim in (1, 2, 3) for kind in ref.SETS if dim > 1 or kind in ('triangle', 'cross')]
    out += [{'what': 'triple', 'degree': d} for d in range(0, 21 if tier == 'quick' else 31)]
    return out


def setup(ctx):
    global core, hm
    import hermipy as hm
    import hermipy.core as core


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def run_core(ctx, task):
    import scipy.sparse as ss
    ns, kind = task['ns'], task['kind']
    dim = len(ns)
    nodes = [ref.generic(n, 3 + d) for d, n in enumerate(ns)]
    weights = [np.abs(ref.generic(n, 11 + d)) + .1 for d, n in enumerate(ns)]
    pts, w = ref.grid(nodes), ref.grid_weights(weights)
    for degree in task['degrees']:
        if degree < ref.min_degree(kind):
            continue
        for mask in itertools.product((0, 1), repeat=dim):
            if any(mask) and degree % 2:
                continue

            def one():
                inds = core.iterator_list_indices(dim, degree, index_set=kind)
                inds2 = core.iterator_list_indices(dim, 2*degree, index_set=kind)
                if degree == 0:
                    inds2 = [[0]*dim]
                A = ref.varf_tensor(inds, inds2, mask, degree)
                hf = ref.vandermonde(inds2, pts, mask)*w[:, None]     # (points, k)
                want = np.tensordot(hf, A, 1)
                for sp in (False, True):
                    for i in list(range(len(pts))) + [None]:
                        e = np.zeros(len(pts))
                        if i is None:
                            e = ref.generic(len(pts), 1)
                        else:
                            e[i] = 1.
                        m = core.varf(degree, e, nodes, weights, sparse=sp, do_fourier=list(mask), index_set=kind)
                        ctx.step()
                        ctx.state()
                        ctx.check(isinstance(m, ss.csr_matrix if sp else np.ndarray), 'storage %s' % type(m))
                        r = np.tensordot(e, want, 1)
                        got = dense(m)
                        ctx.check(ref.close(got, r), lambda: 'sparse=%s input %s: %s' % (sp, i, ref.maxdiff(got, r)))
                        ctx.outcome(got.tobytes())
                ctx.trace()
            ctx.guard({'ns': ns, 'kind': kind, 'degree': degree, 'fourier': mask}, one)
    ctx.sample(task)


def run_exact(ctx, task):
    """Coefficients on exact quadratures: every basis function of the cube of degree 2d."""
    import scipy.sparse as ss
    name, kind = task['name'], task['kind']
    dim = len(menus.POSITIONS[name][0])
    four = any(t == 'fourier' for t in menus.POSITIONS[name][0])
    dirs = menus.POSITIONS[name][1]
    top = {1: 4, 2: 4, 3: 2}[dim] if ctx.tier == 'quick' else {1: 6, 2: 5, 3: 3}[dim]
    if dim == 1 and kind not in ('triangle', 'cube'):
        return
    factor = 'exp(-x%d**2/8)' % dirs[0]
    for degree in range(ref.min_degree(kind), top + 1):
        if four and degree % 2:
            continue
        spec = menus.Spec(name, 2*degree + 2, factor)
        q = spec.make(hm)
        g, W = ref.grid(q.nodes), ref.grid_weights(q.weights)
        inds = core.iterator_list_indices(dim, degree, index_set=kind)
        v = ref.vandermonde(inds, g, spec.fourier)
        inset = set(map(tuple, core.iterator_list_indices(dim, max(2*degree, 1), index_set=kind).tolist()))
        scale = 0.
        for k in itertools.product(range(2*degree + 1), repeat=dim):
            def one():
                hk = ref.vandermonde([k], g, spec.fourier)[:, 0]
                want = v.T.dot((W*hk)[:, None]*v)
                for sp in (False, True):
                    m = q.varf(hk.copy(), degree, sparse=sp, index_set=kind)
                    ctx.step()
                    ctx.state()
                    got = dense(m.matrix)
                    ctx.check(m.is_sparse == sp and isinstance(m.matrix, ss.csr_matrix if sp else np.ndarray)
                              and m.index_set == kind and m.degree == degree and m.position == q.position
                              and m.factor == q.factor, 'attributes of the operator')
                    ctx.check(ref.close(got, got.T), 'matrix is not symmetric')
                    if ref.close(got, want, 1e-8):
                        continue
                    if (kind in ('cross', 'cross_nc') or four and kind in ('triangle', 'rectangle')) \
                            and tuple(k) not in inset and ref.close(got, 0*want, 1e-8):
                        # The coefficient is truncated to the index set of degree 2d
                        ctx.fail('basis function %s as coefficient: %s' % (k, ref.maxdiff(got, want)),
                                 key='%s-truncation:%s:dim%d' % ('fourier' if four else 'cross', kind, dim))
                        ctx.count('coefficients outside the index set of degree 2d that matter')
                        continue
                    ctx.fail('sparse=%s basis function %s as coefficient: %s' % (sp, k, ref.maxdiff(got, want)))
            ctx.guard({'quad': spec.key, 'kind': kind, 'degree': degree, 'coefficient': k}, one)
        ctx.trace()

        # Text coefficients (monomials or trigonometric monomials): tensorised by the library
        if degree > 3 or not spec.diag:
            continue
        pts = spec.mean + g.dot(q.position.factor.T)
        for k in itertools.product(range(3), repeat=dim):
            def text():
                t = []
                for i, m in enumerate(k):
                    x = 'x%d' % dirs[i]
                    if spec.fourier[i]:
                        u = '(%s-(%r))/%r' % (x, float(spec.mean[i]), float(np.sqrt(spec.cov[i, i])))
                        t.append(['1', 'sin(%s)' % u, '(2+cos(%s))' % u][m])
                    else:
                        t.append('%s**%d' % (x, m))
                t = '*'.join(t)
                vals = menus.numeric(t, dirs)(pts)
                want = v.T.dot((W*vals)[:, None]*v)
                for sp in (False, True):
                    m = q.varf(t, degree, sparse=sp, index_set=kind)
                    got = dense(m.matrix)
                    ctx.step()
                    ctx.state()
                    ctx.check(m.is_sparse == sp and m.index_set == kind and m.position == q.position
                              and m.factor == q.factor, 'attributes of the operator')
                    ctx.check(ref.close(got, want, 1e-8), lambda: 'coefficient %s, sparse=%s: %s'
                              % (t, sp, ref.maxdiff(got, want)))
                    ctx.outcome(got.round(8).tobytes())
            ctx.guard({'quad': spec.key, 'kind': kind, 'degree': degree, 'powers': k}, text)
    ctx.sample(task)


def polynomials(dim, degree):
    """A few coefficients of low degree with their expansion: generic on small multi-indices, one high and one mixed monomial."""
    yield [m for m in itertools.product(range(2), repeat=dim)]
    yield [(min(2*degree, 12),) + (0,)*(dim - 1), (0,)*dim]
    yield [(0,)*(dim - 1) + (min(2*degree, 11),)]
    yield [(3,) + (1,)*(dim - 1), (0,)*(dim - 1) + (2,)]


def expected(inds, coeffs, mask, degree):
    out = np.zeros((len(inds), len(inds)))
    ts = {f: ref.triple(f, degree) for f in set(mask)}
    for k, c in coeffs:
        m = np.full(out.shape, float(c))
        for d, f in enumerate(mask):
            m *= ts[f][k[d]][np.ix_(inds[:, d], inds[:, d])]
        out += m
    return out


def run_large(ctx, task):
    """High degrees: coefficients given by a few basis functions, exact quadratures."""
    dim, kind, degree = task['dim'], task['kind'], task['degree']
    inds = core.iterator_list_indices(dim, degree, index_set=kind)
    inds2 = set(map(tuple, core.iterator_list_indices(dim, 2*degree, index_set=kind).tolist()))
    for mask in itertools.product((0, 1), repeat=dim):
        if any(mask) and degree % 2:
            continue
        # exact for the products of the coefficient and one basis function of degree 2d
        nodes, weights = ref.gauss_nd([2*degree + 14 if f else degree + 8 for f in mask] if dim < 4 else
                                      [2*degree + 3 if f else 2*degree + 2 for f in mask], mask)
        g = ref.grid(nodes)
        for ci, ks in enumerate(polynomials(dim, degree)):
            ks = [k for k in ks if k in inds2]
            if not ks:
                continue

            def one():
                cs = [(k, 1. + .3*i) for i, k in enumerate(ks)]
                f = ref.vandermonde(ks, g, mask).dot([c for _, c in cs])
                want = expected(inds, cs, mask, degree)
                for sp in (False, True):
                    got = dense(core.varf(degree, f, nodes, weights, sparse=sp, do_fourier=list(mask), index_set=kind))
                    ctx.step()
                    ctx.state()
                    ctx.check(ref.close(got, want, 1e-8), lambda: 'sparse=%s: %s' % (sp, ref.maxdiff(got, want)))
                ctx.trace()
            ctx.guard({'dim': dim, 'kind': kind, 'degree': degree, 'fourier': mask, 'coefficient': ks}, one)


def run_scale(ctx, task):
    """The matrix is linear in the coefficient, also for coefficients of very different sizes."""
    dim, kind, degree = task['dim'], task['kind'], 2
    inds = core.iterator_list_indices(dim, degree, index_set=kind)
    inds2 = [tuple(m) for m in core.iterator_list_indices(dim, 2*degree, index_set=kind).tolist()]
    for mask in itertools.product((0, 1), repeat=dim):
        nodes, weights = ref.gauss_nd([2*degree + 4 if not f else 4*degree + 5 for f in mask], mask)
        v = ref.vandermonde(inds2, ref.grid(nodes), mask)
        for a, b in itertools.product((-9, -6, -3, 0, 3, 6, 9), repeat=2):
            def one():
                n = len(inds2)
                big, small = 10.**a*ref.generic(n, 1)*(np.arange(n) % 2), 10.**b*ref.generic(n, 2)*(np.arange(n) % 2 == 0)
                c = big + small
                want = expected(inds, list(zip(inds2, c)), mask, degree)
                tol = 1e-10*np.abs(c).max()
                for sp in (False, True):
                    got = dense(core.varf(degree, v.dot(c), nodes, weights, sparse=sp, do_fourier=list(mask), index_set=kind))
                    ctx.step()
                    ctx.state()
                    ctx.check(np.abs(got - want).max() <= tol + 1e-11, lambda: 'sparse=%s: %s' % (sp, ref.maxdiff(got, want)))
                ctx.trace()
            ctx.guard({'dim': dim, 'kind': kind, 'fourier': mask, 'sizes': ['1e%d' % a, '1e%d' % b]}, one)


def run_triple(ctx, task):
    d = task['degree']

    def one():
        for name, fn, rf in (('hermite', core.triple_products, ref.triple_hermite),
                             ('fourier', core.triple_products_fourier, ref.triple_fourier)):
            if name == 'fourier' and d % 2:
                try:
                    fn(d)
                except Exception:
                    continue
                ctx.fail('odd degree accepted')
                continue
            got, want = fn(d), rf(d)
            ctx.step()
            ctx.state()
            ctx.trace()
            ctx.count('triples', want.size)
            # Entry by entry, relative precision
            ok = got.shape == want.shape and np.all(np.abs(got - want) <= 1e-9*(np.abs(want) + 1e-3*np.abs(want).max()))
            ctx.check(ok, lambda: '%s: %s' % (name, ref.maxdiff(got, want)))
    ctx.guard({'triple products': d}, one)


def run_task(ctx, task):
    {'core': run_core, 'exact': run_exact, 'triple': run_triple, 'large': run_large, 'scale': run_scale}[task['what']](ctx, task)
