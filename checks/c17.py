"""C17: solving and eigenvalue computations return solutions of the stated problem."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import ref

MEANING = ('states = (operator, storage, solver, removed vector, cache state) problems; transitions = solves and eigenvalue computations executed; '
           'traces = problems or histories of problems whose results all satisfied the defining equations')
BOUNDS = {'quick': 'matrices: generic, ill-scaled, triangular, symmetric and discretised operators on all 5 index sets, dim 1..3, up to 27 unknowns and 7 sets of 100 to 151 unknowns, '
                   'with and without factor, dense and sparse; right-hand sides: unit vectors (first, second, middle, last), a generic one and zero (two of them for cross sets in several dimensions); solvers: direct, gmres, gmres with '
                   'ILU; options of gmres (5 restarts x 3 tolerances, 9 small numbers of iterations, 3 first guesses, callback) and of the sparse solver; removed vectors: kernel, generic vectors, and the eigenspace found by the library; eigenvalues: k in 1..3, 4 selections; '
                   'cache: off, cold, warm, and all ordered pairs of 20 solves and of 8 eigenvalue problems in one cache directory',
          'thorough': 'degrees one higher, all ordered triples of solves'}
ASSUMPTIONS = ['iterative solvers are called with a tolerance of 1e-12 and at most 1000 iterations; the residual is compared at 1e-8',
               'with a removed vector v, the problem is M u + mu v = b with u orthogonal to v (the bordered system)',
               'eigenvalue problems of the menus have well separated eigenvalues and fixed starting vectors']


def setup(ctx):
    global hm, ss, sympy, rc, scratch
    import sys
    import hermipy as hm
    import scipy.sparse as ss
    import scipy.sparse.linalg
    import sympy
    import warnings
    warnings.simplefilter('ignore')
    rc = sys.modules['hermipy.settings']
    rc.settings['cache'] = False
    scratch = tempfile.mkdtemp(prefix='solve-', dir=os.environ['HOME'])


@contextlib.contextmanager
def cache_dir(on=True):
    old = dict(rc.settings)
    path = tempfile.mkdtemp(dir=scratch)
    rc.settings.update({'cache': on, 'cachedir': path})
    try:
        yield path
    finally:
        rc.settings.update(old)
        shutil.rmtree(path, ignore_errors=True)


POS = {1: [dict(dim=1), dict(dirs=[2], mean=[.5], cov=[[2.]])], 2: [dict(dim=2), dict(dirs=[0, 3], mean=[.5, -1.], cov=[[2., 0.], [0., .5]])],
       3: [dict(dim=3)]}


def matrix(name, n):
    g = np.array(ref.generic(n*n, 3)).reshape(n, n)
    if name == 'generic':
        return np.diag(2. + np.arange(n)/3) + .3*g/np.sqrt(n)
    if name == 'scaled':
        return np.diag(10.**(np.arange(n) % 5 - 2)).dot(np.eye(n) + .1*g/np.sqrt(n))
    if name == 'upper':
        return np.triu(.3*g, 1) + np.diag(1. + np.arange(n)/2)
    if name == 'symmetric':
        return .3*(g + g.T)/np.sqrt(n) - np.diag(2. + np.arange(n))
    if name == 'sparse pattern':
        m = np.diag(1.5 + np.arange(n)/4)
        for i in range(n - 1):
            m[i, i + 1], m[i + 1, i] = .4, -.3
        return m
    if name in ('pairs', 'nearly real'):       # complex eigenvalues; eigenvectors with small imaginary parts
        m = np.diag(1. + np.arange(n)//2*2.)
        for i in range(0, n - 1, 2):
            m[i, i + 1], m[i + 1, i] = (1., -.3) if name == 'pairs' else (1., -10.**(-2 - i))
            if i + 2 < n:
                m[i, i + 2] = .1
        return m
    if name == 'singular':       # kernel and cokernel known: rows sum to zero
        m = np.diag(1. + np.arange(n)) + .2*g/np.sqrt(n)
        return m - m.dot(np.ones((n, n)))/n
    raise KeyError(name)


def varf(name, dim, which, kind, degree, factor, sparse):
    pos = hm.Position(**POS[dim][which])
    n = ref.size(kind, dim, degree)
    m = matrix(name, n)
    if factor:
        factor = 'exp(-x%d**2/6)' % pos.dirs[0]
    return hm.Varf(ss.csr_matrix(m) if sparse else m, pos, factor=factor or 1, index_set=kind)


SOLVERS = {'direct': {}, 'gmres': dict(use_gmres=True, tol=1e-12, atol=0., maxiter=1000, restart=200),
           'ilu': dict(use_gmres=True, preconditioner='ilu', tol=1e-12, atol=0., maxiter=1000, restart=200)}


def dense(m):
    return np.asarray(m.todense()) if ss.issparse(m) else np.asarray(m)


def solve(ctx, v, b, **kw):
    m0, b0 = dense(v.matrix).copy(), b.coeffs.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        s = v.solve(b, quiet=True, **kw)
    ctx.step()
    ctx.check(np.array_equal(m0, dense(v.matrix)) and np.array_equal(b0, b.coeffs), 'solve modified the operator or the right-hand side')
    ctx.check(isinstance(s, hm.Series) and s.position == v.position and s.factor == v.factor and s.index_set == v.index_set
              and s.degree == v.degree and len(s.coeffs) == len(b0), lambda: 'position, factor, index set or degree of the solution: %r' % s)
    return s


def rhs_menu(v):
    n = v.matrix.shape[0]
    for j in sorted({0, 1, n//2, n - 1} & set(range(n))):
        e = np.zeros(n)
        e[j] = 1.
        yield 'e%d' % j, e
    yield 'generic', np.array(ref.generic(n, 7))
    yield 'zero', np.zeros(n)


def series(v, c):
    return hm.Series(np.array(c, float), v.position, factor=v.factor, index_set=v.index_set)


def run_solve(ctx, task):
    for dim, kind, degree in task['sets']:
        for which in range(len(POS[dim])):
            for name in ('generic', 'scaled', 'upper', 'symmetric', 'sparse pattern'):
                for factor in (False, True):
                    for sparse in (False, True):
                        def one():
                            v = varf(name, dim, which, kind, degree, factor, sparse)
                            m = dense(v.matrix)
                            for solver, kw in SOLVERS.items():
                                for key, b in rhs_menu(v):
                                    if task['few'] and key not in ('generic', 'e1'):
                                        continue
                                    ctx.state()
                                    s = solve(ctx, v, series(v, b), **kw)
                                    r = np.linalg.norm(m.dot(s.coeffs) - b)
                                    tol = 1e-8*(np.linalg.norm(b) + np.abs(m).max()*np.linalg.norm(s.coeffs))
                                    ctx.check(r <= tol, lambda: '%s, %s: residual %s' % (solver, key, r))
                                    t = v(s)
                                    ctx.check(np.linalg.norm(t.coeffs - b) <= tol, lambda: '%s, %s: the image of the solution is not the right-hand side'
                                              % (solver, key))
                            ctx.trace()
                        ctx.guard({'matrix': name, 'dim': dim, 'position': which, 'kind': kind, 'degree': degree, 'factor': factor, 'sparse': sparse}, one)


def run_remove(ctx, task):
    for dim, kind, degree in task['sets']:
        for which in range(len(POS[dim])):
            for name in ('generic', 'symmetric', 'singular'):
                for factor in (False, True):
                    for sparse in (False, True):
                        def one():
                            v = varf(name, dim, which, kind, degree, factor, sparse)
                            m = dense(v.matrix)
                            n = len(m)
                            if n < 2:
                                return
                            vecs = {'ones': np.ones(n), 'generic': np.array(ref.generic(n, 9)), 'first': np.eye(n)[0], 'small': 1e-3*np.array(ref.generic(n, 4))}
                            for vk, u in vecs.items():
                                if task['few'] and vk in ('first', 'small'):
                                    continue
                                if name == 'singular' and vk == 'first':
                                    continue
                                big = np.block([[m, u[:, None]], [u[None, :], np.zeros((1, 1))]])
                                if np.linalg.cond(big) > 1e6 and vk != 'small':
                                    continue
                                for solver in ('direct', 'gmres'):
                                    for key, b in rhs_menu(v):
                                        if task['few'] and key not in ('generic', 'e1'):
                                            continue
                                        ctx.state()
                                        s = solve(ctx, v, series(v, b), remove_vec=series(v, u), **SOLVERS[solver])
                                        un = u/np.linalg.norm(u)
                                        scale = np.linalg.norm(b) + np.abs(m).max()*np.linalg.norm(s.coeffs)
                                        ctx.check(abs(un.dot(s.coeffs)) <= 1e-7*(np.linalg.norm(s.coeffs) + scale),
                                                  lambda: '%s, %s, %s: not orthogonal to the removed vector' % (vk, solver, key))
                                        r = m.dot(s.coeffs) - b
                                        r = r - un*un.dot(r)
                                        ctx.check(np.linalg.norm(r) <= 1e-7*scale, lambda: '%s, %s, %s: not a solution up to the removed vector: %s'
                                                  % (vk, solver, key, np.linalg.norm(r)))
                            ctx.trace()
                        ctx.guard({'remove from': name, 'dim': dim, 'position': which, 'kind': kind, 'degree': degree, 'factor': factor, 'sparse': sparse}, one)


def operators():
    f1 = sympy.Function('f')
    x, y = sympy.symbols('x y', real=True)
    fx, fxy = f1(x), f1(x, y)
    return {'ou': (1, fx.diff(x, x) - x*fx.diff(x)), 'ou shifted': (1, fx.diff(x, x) - x*fx.diff(x) - fx),
            'drift': (1, fx.diff(x, x) - (x - 1)*fx.diff(x) - 2*fx),
            'ou2': (2, fxy.diff(x, x) - x*fxy.diff(x) + fxy.diff(y, y)*2 - 2*y*fxy.diff(y)),
            'langevin': (2, y*fxy.diff(x) - x*fxy.diff(y) + fxy.diff(y, y) - y*fxy.diff(y)),
            'langevin shifted': (2, y*fxy.diff(x) - x*fxy.diff(y) + fxy.diff(y, y) - y*fxy.diff(y) - fxy)}


def run_operators(ctx, task):
    for name in task['names']:
        dim, op = operators()[name]
        for kind in (('triangle', 'cube', 'cross', 'rectangle') if dim == 2 else ('triangle', 'cube')):
            for degree in (3, 5):
                for factor in (1, 'exp(-x**2/8)'):
                    for sparse in (False, True):
                        def one():
                            q = hm.Quad.gauss_hermite(2*degree + 6, dim=dim, factor=factor)
                            if factor != 1:
                                fac = sympy.sympify(factor, locals={'x': sympy.Symbol('x', real=True)})
                                fu = [a for a in op.atoms(sympy.core.function.AppliedUndef)][0]
                                mapped = (op.subs(fu, fu/fac).doit()*fac).expand()
                            else:
                                mapped = op
                            v = q.discretize_op(mapped, degree, sparse=sparse, index_set=kind)
                            m = dense(v.matrix)
                            n = len(m)
                            b = series(v, ref.generic(n, 5))
                            if 'shifted' in name or name == 'drift':
                                for solver, kw in SOLVERS.items():
                                    s = solve(ctx, v, b, **kw)
                                    ctx.state()
                                    ctx.check(np.linalg.norm(m.dot(s.coeffs) - b.coeffs) < 1e-7*(1 + np.linalg.norm(s.coeffs)), lambda: '%s: residual' % solver)
                            else:
                                one_ = q.transform(factor, degree, index_set=kind)
                                for kw in (dict(remove_vec=one_), dict(remove0=True)):
                                    if 'remove0' in kw and np.sort(np.abs(np.linalg.eigvals(m)))[1] < .5:
                                        continue
                                    s = solve(ctx, v, b, **kw)
                                    ctx.state()
                                    u = one_.coeffs/np.linalg.norm(one_.coeffs)
                                    ctx.check(not np.iscomplexobj(s.coeffs) or np.abs(np.imag(s.coeffs)).max() < 1e-9, 'complex solution')
                                    c = np.real(s.coeffs)
                                    ctx.check(abs(u.dot(c)) < 1e-6*np.linalg.norm(c), lambda: '%s: not orthogonal to the constants' % list(kw))
                                    r = m.dot(c) - b.coeffs
                                    r = r - u*u.dot(r)
                                    ctx.check(np.linalg.norm(r) < 1e-6*(1 + np.linalg.norm(c)), lambda: '%s: not a solution up to constants' % list(kw))
                            ctx.trace()
                        ctx.guard({'operator': name, 'kind': kind, 'degree': degree, 'factor': factor, 'sparse': sparse}, one)


def run_options(ctx, task):
    """Options of the solvers reach them: restarts, iterations, tolerances, first guesses, callbacks, column orders."""
    dim, kind, degree = task['set']
    n = ref.size(kind, dim, degree)
    far = np.diag(np.linspace(1., 50., n)) + np.diag(2.*np.ones(n - 1), 1)
    near = np.diag(2. + np.arange(n) % 3) + np.diag(.5*np.ones(n - 1), -1)
    for mname, m in (('far', far), ('near', near)):
        for factor in (1, 'exp(-x0**2/6)'):
            for sparse in (False, True):
                for cached in (False, True):
                    def one():
                        v = hm.Varf(ss.csr_matrix(m) if sparse else m.copy(), hm.Position(dim=dim), factor=factor, index_set=kind)
                        b = np.array(ref.generic(n, 5))
                        sb = series(v, b)
                        exact = np.linalg.solve(m, b)
                        res = lambda s: np.linalg.norm(m.dot(s.coeffs) - b)/np.linalg.norm(b)
                        with (cache_dir() if cached else contextlib.nullcontext()):
                            for rs in (1, 2, 3, 5, n):
                                for tol in (1e-12, 1e-6, 1e-2):
                                    for times in range(2 if cached else 1):
                                        s = solve(ctx, v, sb, use_gmres=True, restart=rs, maxiter=5000, tol=tol, atol=0.)
                                        ctx.state()
                                        ctx.check(res(s) < 10*tol, lambda: 'restart %d, tolerance %s: residual %s' % (rs, tol, res(s)))
                            # few iterations: what gmres itself gives
                            for rs, it in itertools.product((1, 2, 4), (1, 2, 3)):
                                kw = dict(restart=rs, maxiter=it, tol=1e-13, atol=0.)
                                want = ss.linalg.gmres(ss.csr_matrix(m) if sparse else m, b, **kw)[0]
                                s = solve(ctx, v, sb, use_gmres=True, **kw)
                                ctx.state()
                                ctx.check(ref.close(s.coeffs, want, 1e-9), lambda: 'restart %d, %d iterations: %s' % (rs, it, ref.maxdiff(s.coeffs, want)))
                            # a first guess, with no iteration to correct it by much
                            for key, x0 in (('solution', exact), ('close', exact + 1e-3), ('zero', np.zeros(n))):
                                kw = dict(x0=x0.copy(), restart=1, maxiter=1, tol=1e-14, atol=0.)
                                want = ss.linalg.gmres(ss.csr_matrix(m) if sparse else m, b, **kw)[0]
                                s = solve(ctx, v, sb, use_gmres=True, **dict(kw, x0=x0.copy()))
                                ctx.state()
                                ctx.check(ref.close(s.coeffs, want, 1e-9), lambda: 'first guess: %s' % key)
                            if not cached:
                                seen = []
                                s = solve(ctx, v, sb, use_gmres=True, restart=n, maxiter=100, tol=1e-12, atol=0., callback=lambda r: seen.append(r))
                                ctx.check(len(seen) > 1 and res(s) < 1e-10, 'callback')
                            if sparse:
                                for order in ('COLAMD', 'NATURAL', 'MMD_ATA', 'MMD_AT_PLUS_A'):
                                    ctx.check(res(solve(ctx, v, sb, permc_spec=order)) < 1e-10, lambda: 'column order %s' % order)
                        out = io.StringIO()
                        with contextlib.redirect_stdout(out):
                            s = v.solve(sb, remove_vec=series(v, ref.generic(n, 3)))
                        t = solve(ctx, v, sb, remove_vec=series(v, ref.generic(n, 3)))
                        ctx.check('Removing' in out.getvalue() and ref.close(s.coeffs, t.coeffs, 1e-9), 'quiet')
                        ctx.trace()
                    ctx.guard({'options': mname, 'set': [dim, kind, degree], 'factor': factor, 'sparse': sparse, 'cached': cached}, one)


def check_eigs(ctx, v, k, which, sigma=None):
    m = dense(v.matrix)
    n = len(m)
    kw = dict(k=k, which=which, v0=np.array(ref.generic(n, 2)) + 2.)
    if sigma is not None:
        kw['sigma'] = sigma
    vals, vecs = v.eigs(**kw)
    ctx.step()
    ctx.check(len(vals) == k and len(vecs) == k, 'number of eigenpairs')
    for e, s in zip(vals, vecs):
        ctx.check(isinstance(s, hm.Series) and s.position == v.position and s.factor == v.factor and s.index_set == v.index_set
                  and s.degree == v.degree, 'position, factor, index set or degree of an eigenvector')
        ctx.check(abs(np.linalg.norm(s.coeffs)) > 1e-3, 'zero eigenvector')
        r = np.linalg.norm(m.dot(s.coeffs) - e*s.coeffs)
        ctx.check(r < 1e-7*(1 + abs(e))*np.linalg.norm(s.coeffs), lambda: 'not an eigenpair: %s, residual %s' % (e, r))
    exact = np.linalg.eigvals(m)
    order = {'LM': -np.abs(exact), 'SM': np.abs(exact), 'LR': -np.real(exact), 'SR': np.real(exact)}[which]
    if sigma is not None:
        order = -1/np.abs(exact - sigma)
    want = np.sort(exact[np.argsort(order)[:k]].real)
    ctx.check(ref.close(np.sort(np.real(vals)), want, 1e-6), lambda: 'eigenvalues %s instead of %s' % (vals, want))
    ctx.check(all(np.abs(exact - e).min() < 1e-5*(1 + abs(e)) for e in vals), lambda: 'eigenvalues %s' % (vals,))


def run_eigs(ctx, task):
    for dim, kind, degree in task['sets']:
        for which in range(len(POS[dim])):
            for name in ('symmetric', 'upper', 'pairs', 'nearly real'):
                for factor in (False, True):
                    for sparse in (False, True):
                        def one():
                            v = varf(name, dim, which, kind, degree, factor, sparse)
                            n = v.matrix.shape[0]
                            for k in (1, 2, 3):
                                if k >= n - 1 or n > 30 and k > 2:
                                    continue
                                if name in ('pairs', 'nearly real') and (k != 2 or n % 2 or n > 6 and name == 'nearly real'):
                                    continue        # a selection does not separate conjugates
                                for sel in ('LM', 'SM', 'LR', 'SR'):
                                    ctx.state()
                                    check_eigs(ctx, v, k, sel)
                            ctx.trace()
                        ctx.guard({'eigenvalues of': name, 'dim': dim, 'position': which, 'kind': kind, 'degree': degree, 'factor': factor,
                                   'sparse': sparse}, one)


def calls():
    """Near-colliding solves: (key, thunk) with the cache."""
    out = []
    for sparse in (False, True):
        a = varf('generic', 2, 0, 'triangle', 2, False, sparse)
        t = hm.Varf(ss.csr_matrix(dense(a.matrix).T) if sparse else dense(a.matrix).T.copy(), a.position)
        c = varf('generic', 2, 1, 'triangle', 2, True, sparse)
        b1, b2 = ref.generic(6, 5), -np.array(ref.generic(6, 5))
        for key, v, b, kw in (('a', a, b1, {}), ('a, other rhs', a, b2, {}), ('transposed', t, b1, {}), ('other position', c, b1, {}),
                              ('gmres', a, b1, SOLVERS['gmres']), ('gmres, transposed', t, b1, SOLVERS['gmres']), ('ilu', t, b1, SOLVERS['ilu']),
                              ('removed', a, b1, dict(remove_vec=1)), ('removed, transposed', t, b1, dict(remove_vec=2)),
                              ('gmres, rough', a, b1, dict(use_gmres=True, tol=1e-2, atol=0., maxiter=1))):
            out.append(('%s, %s' % (key, 'sparse' if sparse else 'dense'), v, b, kw))
    return out


def history(ctx, seq, want):
    with cache_dir() as d:
        for i, (key, v, b, kw) in enumerate(seq):
            s = do(ctx, v, b, kw)
            ctx.state()
            ctx.check(np.array_equal(s.coeffs, want[key]) or ref.close(s.coeffs, want[key], 1e-9), lambda: 'with the cache, call %d of the history (%s) differs: %s'
                      % (i, key, ref.maxdiff(s.coeffs, want[key])))
    ctx.trace()


def do(ctx, v, b, kw):
    if 'remove_vec' in kw:
        kw = dict(kw, remove_vec=series(v, ref.generic(len(b), kw['remove_vec'])))
    return solve(ctx, v, series(v, b), **kw)


def run_history(ctx, task):
    cs = calls()
    want = {c[0]: do(ctx, *c[1:]).coeffs for c in cs}
    for i, a in enumerate(cs):
        if i % task['parts'] != task['part']:
            continue
        for b in cs:
            ctx.guard({'history': [a[0], b[0], a[0], b[0]]}, lambda: history(ctx, [a, b, a, b], want))
            if task['th']:
                for c in cs:
                    ctx.guard({'history': [a[0], b[0], c[0], a[0]]}, lambda: history(ctx, [a, b, c, a], want))
    # eigenvalue problems
    vs = [varf(n, 2, p, k, 2, f, sp) for n in ('symmetric', 'upper') for p, k, f in ((0, 'triangle', False), (1, 'cross', True)) for sp in (False, True)]
    for i, a in enumerate(vs):
        if i % task['parts'] != task['part']:
            continue
        for j, b in enumerate(vs):
            def one():
                with cache_dir():
                    for k, sel in ((1, 'LM'), (2, 'LR')):
                        for v in (a, b, a):
                            check_eigs(ctx, v, k, sel)
                            ctx.state()
                ctx.trace()
            ctx.guard({'eigenvalue problems': [i, j, i]}, one)


def tasks(tier):
    th = tier == 'thorough'
    sets = []
    for dim, degs in ((1, (0, 1, 4)), (2, (1, 2, 4)), (3, (1, 2))):
        for kind in ref.SETS:
            for d in degs + ((degs[-1] + 1,) if th else ()):
                if d >= ref.min_degree(kind) and ref.size(kind, dim, d) <= (64 if th else 27):
                    sets.append([dim, kind, d])
    out = []
    for s in reversed(sets):
        for what in ('solve', 'remove', 'eigs'):
            out.append({'what': what, 'sets': [s], 'few': not th and s[0] > 1 and s[1] in ('cross', 'cross_nc')})
    for s in [[2, 'triangle', 14], [1, 'triangle', 150], [2, 'cube', 10], [3, 'triangle', 7], [2, 'cross', 30], [3, 'cube', 4], [2, 'rectangle', 10]]:
        out = [{'what': what, 'sets': [s], 'few': True} for what in ('solve', 'remove', 'eigs')] + out
    out += [{'what': 'operators', 'names': [n]} for n in ('langevin shifted', 'langevin', 'ou2', 'ou', 'ou shifted', 'drift')]
    out += [{'what': 'options', 'set': s} for s in ([1, 'triangle', 39], [2, 'triangle', 7], [2, 'cube', 5], [1, 'cube', 9], [3, 'rectangle', 2])]
    out = [{'what': 'history', 'part': p, 'parts': 8, 'th': th} for p in range(8)] + out
    return out


def run_task(ctx, task):
    {'solve': run_solve, 'remove': run_remove, 'eigs': run_eigs, 'operators': run_operators, 'options': run_options, 'history': run_history}[task['what']](ctx, task)
    ctx.sample(str(task)[:150])
