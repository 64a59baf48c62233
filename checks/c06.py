"""C06: discretised differential operators."""
import itertools
import math

import numpy as np
import ref
import menus

MEANING = ('states = (operator or matrix, quadrature, index set, degree); transitions = matrices assembled by the '
           'library; traces = index sets on which all operators of the alphabet were compared entry by entry')
BOUNDS = {'quick': 'elementary derivative: 5 index sets x Hermite/Fourier, dim 1..6, degree 0..4 (0..2 in dim 3, 4, lower in 5, 6), every '
                   'direction, all unit matrices (<= 10 rows) and dense ones, dense and sparse; band and dense matrices at degrees up to 60 / 12 / 10 / 4; operators: all products '
                   '(coefficient menu) x (derivative multi-indices up to order 4 / 3 / 2 in dim 1 / 2 / 3; orders 4 and 5 on 10 positions of dim 1, 2) x 24 '
                   'positions x 5 index sets, degrees 2..4 (with a factor and in dim 3 the index sets are dealt out over the operators), all direction lists '
                   'of varfd up to length 3 (2 in dim 3)',
          'thorough': 'degree 0..8 / 0..4 for the elementary step; operators: degrees 0..5'}
ASSUMPTIONS = ['coefficients are polynomial (trigonometric) so that the quadrature is exact; the factor is the '
               'exponential of a polynomial', 'index sets that are not closed under the derivative of a Fourier '
               'direction (triangle and crosses in dim >= 2, not tensorised) may be refused with an exception',
               'tolerance 1e-8 relative to the largest entry']

COEF = {1: ['1', '{0}', '{0}**2', '{0}**3-{0}', '-2'],
        2: ['1', '{0}', '{1}', '{0}*{1}', '{0}**2', '{1}**2+{0}', '3*{0}**2*{1}'],
        3: ['1', '{0}', '{1}*{2}', '{2}**2-{1}']}
FCOEF = ['1', 'sin({0})', '2+cos({0})', 'cos(2*{0})', '-sin(2*{0})']
NAMES = 'xyzwv'


def tasks(tier):
    out = []
    for name in menus.POSITIONS:
        dim = len(menus.POSITIONS[name][0])
        for f in (0, 1):
            if dim == 3:
                for kind in ref.SETS:
                    out.append({'what': 'op', 'name': name, 'factor': f, 'kinds': [kind]})
            elif dim == 2:
                out.append({'what': 'op', 'name': name, 'factor': f, 'kinds': ref.SETS[:2]})
                out.append({'what': 'op', 'name': name, 'factor': f, 'kinds': ref.SETS[2:]})
            else:
                out.append({'what': 'op', 'name': name, 'factor': f, 'kinds': ['triangle', 'cube']})
    q = tier == 'quick'
    for dim in (1, 2, 3, 4, 5, 6):
        for kind in ref.SETS:
            if dim == 1 and kind != 'triangle':
                continue
            for degree in range(0, {1: 5, 2: 5, 3: 3, 4: 3, 5: 2, 6: 1}[dim] if q else {1: 9, 2: 9, 3: 5, 4: 4, 5: 3, 6: 2}[dim]):
                if degree >= ref.min_degree(kind):
                    out.append({'what': 'core', 'dim': dim, 'kind': kind, 'degree': degree})
            for degree in {1: (11, 12, 30, 60), 2: (11, 12), 3: (5, 10), 4: (4,), 5: (2,), 6: (1, 2)}[dim]:
                out.append({'what': 'core', 'dim': dim, 'kind': kind, 'degree': degree, 'large': True})
    for name in ('h0m', 'h3', 'f0', 'f1b', 'hh', 'hh02', 'hhn', 'ff02b', 'hf', 'fh13m'):      # the highest orders of derivatives
        for f in (0, 1):
            out.insert(0, {'what': 'op', 'name': name, 'factor': f, 'kinds': ['triangle', 'cube'][:3 - len(menus.POSITIONS[name][1])], 'high': True})
    return [{'what': 'varfd', 'name': n} for n in list(menus.POSITIONS)[::-1]] + out


def setup(ctx):
    global core, hm, ss, sympy
    import hermipy as hm
    import hermipy.core as core
    import scipy.sparse as ss
    import sympy


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


def run_core(ctx, task):
    dim, kind, degree = task['dim'], task['kind'], task['degree']
    inds = core.iterator_list_indices(dim, degree, index_set=kind)
    where = {tuple(m): i for i, m in enumerate(inds.tolist())}
    n = len(inds)
    for direction in range(dim):
        for fourier in (0, 1):
            if fourier and degree % 2:
                continue
            D, closed = np.zeros((n, n)), True      # derivative of h_j = sum_k D[k, j] h_k
            for m, j in where.items():
                k = list(m)
                if fourier:
                    if m[direction] == 0:
                        continue
                    wave, is_sin = (m[direction] + 1)//2, m[direction] % 2 == 1
                    k[direction] += 1 if is_sin else -1
                    value = wave if is_sin else -wave
                else:
                    if m[direction] == 0:
                        continue
                    k[direction] -= 1
                    value = math.sqrt(m[direction])
                if tuple(k) in where:
                    D[where[tuple(k)], j] = value
                else:
                    closed = False
            mats = [('generic', ref.generic(n*n, 2).reshape(n, n)),
                    ('Fortran order', np.asfortranarray(ref.generic(n*n, 3).reshape(n, n))),
                    ('slice', ref.generic(4*n*n, 3).reshape(2*n, 2*n)[::2, 1::2]),
                    ('upper', np.triu(ref.generic(n*n, 2).reshape(n, n))),
                    ('zero', np.zeros((n, n))), ('magnitudes', ref.magnitudes(ref.generic(n*n, 4).reshape(n, n)))]
            if 'large' in task:
                band = np.diag(ref.generic(n, 1)) + np.diag(ref.generic(n - 1, 2), 1) + np.diag(ref.generic(n - 2, 5), -2)
                mats = [('band', band)] + (mats[:1] if n < 300 else [])
                mats += [('column', np.outer(ref.generic(n, 1), np.eye(n)[j])) for j in range(n - 1, -1, -max(1, n//6))] if n < 300 else []
            elif n <= (10 if ctx.tier == 'quick' else 16):
                for i, j in itertools.product(range(n), repeat=2):
                    e = np.zeros((n, n))
                    e[i, j] = 1.
                    mats.append(('unit %d,%d' % (i, j), e))
            else:
                for j in range(n):
                    e = np.zeros((n, n))
                    e[j % 3:, j] = 1.5
                    mats.append(('column %d' % j, e))
            for label, m in mats:
                for sp in (False, True):
                    def one():
                        arg = ss.csr_matrix(m) if sp else m
                        want = m.dot(D)
                        before = m.copy()
                        try:
                            got = core.varfd(dim, degree, direction, arg, do_fourier=fourier, index_set=kind)
                        except Exception:
                            ctx.step()
                            ctx.count('refused (set not closed under the derivative)')
                            if closed:
                                raise
                            return
                        ctx.step()
                        ctx.check(isinstance(got, ss.csr_matrix if sp else np.ndarray), 'storage')
                        got = dense(got)
                        # every column of the product is a multiple of a column of the matrix
                        ctx.check(ref.exact(got, want, 1e-10), lambda: '%s: %s' % (label, ref.maxdiff(got, want)))
                        ctx.check(np.array_equal(m, before), 'argument modified')
                        ctx.state()
                    ctx.guard({'dim': dim, 'kind': kind, 'degree': degree, 'direction': direction,
                               'fourier': fourier, 'matrix': label, 'sparse': sp}, one)
            ctx.outcome(D.tobytes() + bytes([fourier]))
    ctx.trace()


class Galerkin:
    """Reference matrices on a fine quadrature."""

    def __init__(self, spec, q, degree, extra):
        self.spec, self.F = spec, q.position.factor
        self.inv = np.linalg.inv(self.F)
        n = degree + extra
        nodes, weights = ref.gauss_nd([2*n + 2 if f else n for f in spec.fourier], spec.fourier)
        self.g, self.W = ref.grid(nodes), ref.grid_weights(weights)
        self.pts = spec.mean + self.g.dot(self.F.T)
        self.memo = {}

    def basis(self, key, inds, orders):
        k = (key, tuple(orders))
        if k not in self.memo:
            self.memo[k] = ref.vandermonde(inds, self.g, self.spec.fourier, orders)
        return self.memo[k]

    def deriv(self, key, inds, alpha):
        """Derivative with respect to x of multi-order alpha of the basis functions."""
        k = (key, 'x', tuple(alpha))
        if k not in self.memo:
            dim = self.spec.dim
            dirs = [d for d in range(dim) for _ in range(alpha[d])]
            total = 0.
            for ks in itertools.product(range(dim), repeat=len(dirs)):
                c = 1.
                for a, d in zip(ks, dirs):
                    c *= self.inv[a, d]
                if c != 0.:
                    total = total + c*self.basis(key, inds, [ks.count(i) for i in range(dim)])
            self.memo[k] = total
        return self.memo[k]

    def matrix(self, key, inds, terms):
        """terms: list of (values of the coefficient at the points, alpha)."""
        v = self.basis(key, inds, [0]*self.spec.dim)
        total = 0.
        for c, alpha in terms:
            total = total + v.T.dot((self.W*c)[:, None]*self.deriv(key, inds, alpha))
        return total


def coefs(spec):
    x = ['x%d' % d for d in spec.dirs]
    if not any(spec.fourier):
        return [c.format(*x) for c in COEF[spec.dim]]
    out = []
    for i in range(spec.dim):
        if spec.fourier[i]:
            u = '(%s-(%r))/%r' % (x[i], float(spec.mean[i]), float(np.sqrt(spec.cov[i, i])))
            out += [f.format('(%s)' % u) for f in (FCOEF if spec.dim == 1 else FCOEF[:3])]
        else:
            out += ['%s*%s' % (x[i], x[i]), '%s-1' % x[i]]
    if spec.dim > 1:
        out.append('(%s)*(%s)' % (out[1], out[-1]))
    return out


def alphas(dim, high=False):
    if high:
        return [a for a in itertools.product(range(6), repeat=dim) if dim < sum(a) <= 5 and (sum(a) > 3 or dim == 1)]
    top = {1: 4, 2: 3, 3: 2}[dim]
    return [a for a in itertools.product(range(top + 1), repeat=dim) if sum(a) <= top]


def leibniz(spec, gal, fexpr, coef, alpha):
    """Terms of g^-1 c d^alpha (g u)."""
    syms = [sympy.Symbol('x%d' % d, real=True) for d in spec.dirs]
    vals = menus.numeric(coef, spec.dirs)(gal.pts)
    if fexpr == '1':
        return [(vals, alpha)]
    g = sympy.sympify(fexpr, locals={s.name: s for s in syms})
    out = []
    for beta in itertools.product(*[range(a + 1) for a in alpha]):
        c, e = 1, g
        for a, b, s in zip(alpha, beta, syms):
            c *= math.comb(a, b)
            e = sympy.diff(e, s, a - b) if a > b else e
        e = sympy.simplify(e/g)
        if e != 0:
            out.append((c*vals*menus.numeric(e, spec.dirs)(gal.pts), beta))
    return out


def run_op(ctx, task):
    name = task['name']
    dim = len(menus.POSITIONS[name][0])
    four = any(t == 'fourier' for t in menus.POSITIONS[name][0])
    dirs = menus.POSITIONS[name][1]
    fexpr = '1'
    if task['factor']:
        hd = [i for i, t in enumerate(menus.POSITIONS[name][0]) if t != 'fourier'] or []
        fexpr = '*'.join(['exp(-x%d**2/%d-x%d/3)' % (dirs[i], 8 + i, dirs[i]) for i in hd]) or '1'
        if fexpr == '1':
            return
    q_tier = ctx.tier == 'quick'
    degrees = ([4] if four and dim == 1 else [2] if four else [2] if dim == 3 else [3]) if q_tier else \
        ([2, 4] if four else [0, 1, 2, 3] if dim == 3 else [0, 1, 2, 3, 4, 5])
    high = 'high' in task
    if high:
        degrees = [6]
    spec = menus.Spec(name, max(degrees) + 6, fexpr)
    q = spec.make(hm)
    gal = Galerkin(spec, q, max(degrees), 6)
    x = [hm.Function.x_sub[d] for d in dirs]
    xyz = [hm.Function.xyz[d] for d in dirs]
    menu = []
    for ci, c in enumerate(coefs(spec)[:3 if dim == 1 else 1] if high else coefs(spec)):
        for ai, a in enumerate(alphas(dim, high)):
            menu.append([(c, a)])
    if task['factor'] and q_tier:
        menu = [t for t in menu if t[0][0] in coefs(spec)[:3]]
    # sums of two terms, operator given in the other notation
    menu += [menu[i] + menu[(3*i + 5) % len(menu)] for i in range(0, len(menu), 4)]
    memo = {}
    for n_op, terms in enumerate(menu):
        use = xyz if n_op % 2 else x
        f = sympy.Function('f' if n_op % 3 else 'u')(*use)
        expr = 0
        for c, a in terms:
            e = f
            for s, k in zip(use, a):
                e = e.diff(s, k) if k else e
            expr = expr + hm.Function(c, dirs=list(dirs)).sym.subs(dict(zip(x, use)))*e
        op = hm.Operator(expr, dirs=list(dirs)) if n_op % 2 else expr
        ref_terms = None
        for kind in task['kinds']:
            # with a factor the quick tier deals the index sets out over the operators
            if q_tier and not high and (task['factor'] or dim == 3) and ref.SETS.index(kind) != n_op % 5 and (dim == 3 or kind != 'triangle'):
                continue
            for degree in degrees:
                if degree < ref.min_degree(kind):
                    continue
                # crosses truncate coefficients that are not tensorised: known finding of C05
                if not spec.diag and kind in ('cross', 'cross_nc'):
                    continue

                def one():
                    nonlocal ref_terms
                    inds = core.iterator_list_indices(dim, degree, index_set=kind)
                    if ref_terms is None:
                        ref_terms = []
                        for c, a in terms:
                            if (c, a) not in memo:
                                memo[c, a] = leibniz(spec, gal, fexpr, c, a)
                            ref_terms += memo[c, a]
                    want = gal.matrix((kind, degree), inds, ref_terms)
                    for sp in ((False, True) if not q_tier else (bool(n_op % 2),)):
                        v = q.discretize_op(op, degree, sparse=sp, index_set=kind)
                        ctx.step()
                        ctx.state()
                        ctx.check(v.is_sparse == sp and v.index_set == kind and v.degree == degree
                                  and v.position == q.position and v.factor == q.factor, 'attributes of the operator')
                        got = dense(v.matrix)
                        ctx.check(ref.close(got, want, 1e-8), lambda: 'sparse=%s: %s' % (sp, ref.maxdiff(got, want)))
                        ctx.outcome(got.round(8).tobytes())
                    s = q.series(ref.generic(len(inds)), index_set=kind)
                    r = v(s)
                    ctx.step()
                    ctx.check(ref.close(r.coeffs, want.dot(s.coeffs), 1e-8) and r.index_set == kind
                              and r.position == q.position and r.factor == q.factor, 'operator applied to a series')
                ctx.guard({'quad': spec.key, 'op': str(expr), 'kind': kind, 'degree': degree}, one)
    for kind in task['kinds']:
        def zero():
            degree = degrees[-1]
            v = q.discretize_op(0, degree, index_set=kind)
            ctx.step()
            ctx.check(not np.any(dense(v.matrix)), 'zero operator')
        ctx.guard({'quad': spec.key, 'op': '0', 'kind': kind}, zero)
        ctx.trace()
    ctx.sample({'quad': spec.key, 'operators': len(menu)})


def run_varfd(ctx, task):
    """Quad.varfd with every list of directions up to length 3 (derivatives commute)."""
    name = task['name']
    dim = len(menus.POSITIONS[name][0])
    spec = menus.Spec(name, 7)
    q = spec.make(hm)
    degree = 2
    gal = Galerkin(spec, q, degree, 6)
    coef = coefs(spec)[:3]
    if dim > 1:
        coef.append('(%s)*(%s)' % (coefs(spec)[1], coefs(spec)[-1]))
    four = any(spec.fourier)
    for kind in ref.SETS:
        if not spec.diag and kind in ('cross', 'cross_nc'):
            continue
        inds = core.iterator_list_indices(dim, degree, index_set=kind)
        for c in coef:
            vals = menus.numeric(c, spec.dirs)(gal.pts)
            for length in range(4 if dim < 3 or ctx.tier != 'quick' else 3):
                for lst in itertools.product(spec.dirs, repeat=length):
                    def one():
                        alpha = tuple(list(lst).count(d) for d in spec.dirs)
                        want = gal.matrix((kind, degree), inds, [(vals, alpha)])
                        for arg in (c, hm.Function(c, dirs=list(spec.dirs))):
                            for t in (None, False):
                                if t is False and (four and kind != 'cube' and dim > 1 or kind in ('cross', 'cross_nc')):
                                    continue
                                v = q.varfd(arg, degree, list(lst), index_set=kind, tensorize=t,
                                            sparse=bool(length % 2))
                                ctx.step()
                                ctx.state()
                                got = dense(v.matrix)
                                ctx.check(ref.close(got, want, 1e-8), lambda: 'tensorize=%s: %s'
                                          % (t, ref.maxdiff(got, want)))
                        ctx.outcome(got.round(8).tobytes())
                    ctx.guard({'quad': spec.key, 'kind': kind, 'coefficient': c, 'directions': lst}, one)
        ctx.trace()


def run_task(ctx, task):
    {'core': run_core, 'op': run_op, 'varfd': run_varfd}[task['what']](ctx, task)
