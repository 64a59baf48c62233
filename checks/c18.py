"""C18: the equations shipped with the library are the models they name.

Each model is described here once, by its drift vector and diffusion matrix. Every operator returned by the library for
every combination of parameters and potentials in the menus is compared, exactly, with the one of the stochastic process:
operators are compared through their full symbol (their action on exp(xi.x)), which determines a differential operator."""
import contextlib
import io
import itertools
import math

MEANING = ('states = distinct (model, parameters, potential) and (linear process) combinations; transitions = operators, '
           'fluxes and densities computed by the library and compared; traces = models checked for all of their clauses')
BOUNDS = {'quick': 'all 8 models; parameters: all combinations of beta in 3, theta in 3, m in 3, gamma in 3, epsilon in 2 values (and symbols, '
                   'and floats), 6 potentials; GLE: one auxiliary process (2x3x3x4 combinations), two (15 matrices A x 4 x 3); map_operator: '
                   '9 operators x 5 factors; solve_gaussian: all stable drifts from a menu of 1 variable (60), 2 variables (entries in '
                   '{-2,-1,0,1}, 3 diffusions) and 3 variables (24 processes)',
          'thorough': 'larger menus of parameters, drifts with entries in {-3..2} in 2 variables, 120 processes in 3 variables'}
ASSUMPTIONS = ['parameters of the menus are rational numbers, symbols or floats; identities for symbols hold for all values',
               'the coefficient of the noise of McKean_Vlasov for a concrete potential Vy is compared with numerical integration (1e-4)']


def setup(ctx):
    global sym, eq, hm
    import sympy as sym
    import hermipy as hm
    import hermipy.equations as eq
    __import__('sys').modules['hermipy.settings'].settings['cache'] = False
    global x, y, z, w, XI
    x, y, z, w = sym.symbols('x y z w', real=True)
    XI = sym.symbols('xi0:4', real=True)


# ------------------------------------------------------------------ reference operators

def symbol(op, f, variables):
    """op applied to exp(xi.x), divided by it: determines the operator."""
    e = sym.exp(sum(k*v for k, v in zip(XI, variables)))
    return sym.expand(sym.powsimp(sym.expand(op.subs(f, e).doit()/e)))


def unknown(op):
    fs = [a for a in op.atoms(sym.core.function.AppliedUndef) if a.func.__name__ == 'f']
    return fs[0] if len(fs) == 1 else None


def forward(drift, diff, f, variables):
    out = 0
    n = len(variables)
    for i in range(n):
        out -= sym.diff(drift[i]*f, variables[i])
        for j in range(n):
            out += sym.diff(diff[i][j]*f, variables[i], variables[j])
    return out


def flux(drift, diff, f, variables, i):
    return drift[i]*f - sum(sym.diff(diff[i][j]*f, variables[j]) for j in range(len(variables)))


def backward(drift, diff, f, variables):
    out = 0
    n = len(variables)
    for i in range(n):
        out += drift[i]*sym.diff(f, variables[i])
        for j in range(n):
            out += diff[i][j]*sym.diff(f, variables[i], variables[j])
    return out


def adjoint_on(op, f, variables, density):
    """Formal adjoint of op applied to a density, from the coefficients of op."""
    s = sym.Poly(symbol(op, f, variables), *XI[:len(variables)])
    out = 0
    for mono, c in s.terms():
        t = c*density
        for v, k in zip(variables, mono):
            t = sym.diff(t, v, k) if k else t
        out += (-1)**sum(mono)*t
    return out


def zero(e, tol=0):
    e = sym.expand(e)
    if e == 0:
        return True
    if not e.atoms(sym.Float) and not tol:
        e = sym.expand(sym.powsimp(e))
        if e == 0:
            return True
        return sym.simplify(e) == 0
    for k, g in enumerate(sorted(e.atoms(sym.core.function.AppliedUndef), key=str)):
        e = e.subs(g, g.args[0]**4/(5 + k) + g.args[0]).doit()
    free = sorted(e.free_symbols, key=str)
    for k in range(3):
        at = {s: sym.Rational(3*i + 2*k + 1, 7 + i) for i, s in enumerate(free)}
        if abs(sym.N(e.subs(at))) > max(tol, 1e-9):
            return False
    return True


# ------------------------------------------------------------------ models

def potentials(v, th):
    out = [v**2/2, v**4/4 - v**2/2, sym.Integer(0), v, sym.cos(v), v**3/3 + 2*v]
    if th:
        out += [sym.exp(v), sym.sin(2*v) + v**2, v**6/6, (v**2 - 1)**2]
    return out


def models(th):
    """name -> list of (args of the call, drift, diffusion, variables, invariant density or None)"""
    R = sym.Rational
    beta = [R(1, 2), sym.Integer(1), sym.Integer(3), sym.Symbol('β', real=True, positive=True), .8]
    theta = [sym.Integer(0), R(-1, 2), sym.Integer(2), sym.Symbol('θ', real=True), .3]
    mm = [sym.Integer(0), R(-1, 3), sym.Integer(1), sym.Symbol('m', real=True), -.25]
    gamma = [sym.Integer(0), R(1, 2), sym.Integer(1), sym.Symbol('γ', real=True, positive=True), .7]
    eps = [R(1, 4), sym.Integer(1), sym.Symbol('ε', real=True, positive=True), .5]
    lam = [R(1, 3), sym.Integer(1), sym.Integer(2), sym.Symbol('λ', real=True, positive=True), 1.5]
    if th:
        beta += [sym.Integer(2), R(7, 5)]
        theta += [sym.Integer(1), R(-3, 2)]
        mm += [R(5, 2)]
        gamma += [R(1, 3)]
        eps += [R(1, 2), sym.Integer(2)]

    def rational(seq):
        return [a for a in seq if isinstance(a, sym.Rational)]

    def combos(*menus):
        yield from itertools.product(*[rational(a) for a in menus])
        yield tuple([b for b in a if isinstance(b, sym.Symbol)][0] for a in menus)
        yield tuple([b for b in a if isinstance(b, float)][0] for a in menus)
    out = []
    for (b,) in combos(beta):
        for V in potentials(x, th) + [sym.Function('Vp')(x)]:
            out.append(('Fokker_Planck_1d', {'β': b, 'Vp': V}, [-V.diff(x)], [[1/b]], [x], sym.exp(-b*V)))
            out.append(('Overdamped', {'β': b, 'V': V}, [-V.diff(x)], [[1/b]], [x], sym.exp(-b*V)))
    for b, t, m in combos(beta, theta, mm):
        for V in potentials(x, th) + [sym.Function('Vp')(x)]:
            out.append(('McKean_Vlasov_white', {'β': b, 'θ': t, 'm': m, 'Vp': V}, [-V.diff(x) - t*(x - m)], [[1/b]], [x],
                        sym.exp(-b*(V + t*(x - m)**2/2))))
    for b, t, m, g, e in combos(beta, theta, mm, gamma, eps):
        for V in (potentials(x, th)[:2] if not th else potentials(x, th)[:6]) + [sym.Function('Vp')(x)]:
            W = V + t*(x - m)**2/2
            Vy = sym.Function('Vy')(y)
            par = {'β': b, 'θ': t, 'm': m, 'γ': g, 'ε': e, 'Vp': V}
            inv = sym.exp(-b*W - Vy) if g == 1 else None
            out.append(('McKean_Vlasov', dict(par, Vy=Vy),
                        [-W.diff(x) + (1 - g)*sym.sqrt(1/b)*y/e, -Vy.diff(y)/e**2],
                        [[g**2/b, 0], [0, 1/e**2]], [x, y], inv))
            inv = sym.exp(-b*W - y**2/2 - z**2/2) if g == 1 else None
            out.append(('McKean_Vlasov_harmonic_noise', par,
                        [-W.diff(x) + (1 - g)*sym.sqrt(1/b)*z/e, -(z + y)/e**2, y/e**2],
                        [[g**2/b, 0, 0], [0, 1/e**2, 0], [0, 0, 0]], [x, y, z], inv))
    for (la,) in combos(lam):
        out.append(('Langevin.forward', la, [-y - la*x, x], [[la, 0], [0, 0]], [x, y], sym.exp(-(x**2 + y**2)/2)))
    for b, g in combos(beta, gamma):
        for V in potentials(y, th) + [sym.Function('Vy')(y)]:
            out.append(('Langevin', {'β': b, 'γ': g, 'Vy': V}, [-V.diff(y) - g*x, x], [[g/b, 0], [0, 0]], [x, y],
                        sym.exp(-b*(V + x**2/2))))
        for V in potentials(x, th) + [sym.Function('Vx')(x)]:
            out.append(('Generalized_Langevin', {'β': b, 'γ': g, 'Vx': V}, [y, -V.diff(x) - g*y], [[0, 0], [0, g/b]], [x, y],
                        sym.exp(-b*(V + y**2/2))))
    alpha = [R(1, 2), sym.Integer(1), sym.Integer(3), sym.Symbol('α', real=True, positive=True), .9]
    for b, l, a in combos(beta, lam, alpha):
        for V in potentials(x, th)[:4] + [sym.Function('Vx')(x)]:
            out.append(('Generalized_Langevin', {'β': b, 'λ': l, 'α': a, 'Vx': V}, [y, -V.diff(x) + l*z, -l*y - a*z],
                        [[0, 0, 0], [0, 0, 0], [0, 0, a/b]], [x, y, z], sym.exp(-b*(V + y**2/2 + z**2/2))))
    entries = [sym.Integer(-1), sym.Integer(0), R(1, 2)]
    mats = [(sym.Integer(1), p, q, sym.Integer(2)) for p in entries for q in entries]
    mats += [(sym.Integer(2), sym.Integer(1), sym.Integer(1), sym.Integer(1)), (sym.Integer(0), sym.Integer(-1), sym.Integer(1), sym.Integer(1)),
             (sym.Integer(0), sym.Integer(1), sym.Integer(-1), sym.Integer(3)), (R(1, 3), sym.Integer(0), sym.Integer(2), sym.Integer(5))]
    mats += [tuple(sym.symbols('A11 A12 A21 A22', real=True)), (1.5, .25, -.5, .75)]
    for A in mats:
        for b in rational(beta)[:2] + [beta[3]]:
            for l1, l2 in ((R(1, 2), sym.Integer(2)), (sym.Integer(1), sym.Integer(0)), sym.symbols('λ1 λ2', real=True, positive=True)):
                for V in (potentials(x, th)[1:2] if not th else potentials(x, th)[:3]) + [sym.Function('Vx')(x)]:
                    a11, a12, a21, a22 = A
                    s = (a12 + a21)/2/b
                    O = 0
                    out.append(('Generalized_Langevin', {'β': b, 'λ1': l1, 'λ2': l2, 'A11': a11, 'A12': a12, 'A21': a21, 'A22': a22, 'Vx': V},
                                [y, -V.diff(x) + l1*z + l2*w, -l1*y - a11*z - a12*w, -l2*y - a21*z - a22*w],
                                [[O]*4, [O]*4, [O, O, a11/b, s], [O, O, s, a22/b]], [x, y, z, w],
                                sym.exp(-b*(V + y**2/2 + z**2/2 + w**2/2))))
    return out


def run_model(ctx, case):
    name, par, drift, diff, var, inv = case
    f = sym.Function('f')(*var)
    back = None
    with contextlib.redirect_stdout(io.StringIO()):
        cls = getattr(eq, name.split('.')[0])
        if name in ('Overdamped', 'Langevin', 'Generalized_Langevin'):
            op, back = cls.backward(par), True
        elif name == 'Langevin.forward':
            op, back = cls.forward(par), False
        else:
            op, back = cls.equation(par), False
    ctx.step()
    ctx.check(unknown(sym.sympify(op)) == f, lambda: 'the unknown is not %s' % f)
    want = (backward if back else forward)(drift, diff, f, var)
    d = symbol(op, f, var) - symbol(want, f, var)
    ctx.check(zero(d), lambda: 'operator differs from the one of the process by (symbol) %s' % d)
    if back:
        ctx.check(zero(op.subs(f, 1).doit()), 'constants are not mapped to zero')
        if inv is not None:
            r = adjoint_on(op, f, var, inv)/inv
            ctx.check(zero(r.doit()), lambda: 'the Gibbs measure is not invariant: %s' % r)
    else:
        one = adjoint_on(op, f, var, sym.Integer(1))
        ctx.check(zero(one), lambda: 'mass is not conserved: %s' % one)
        if inv is not None:
            r = op.subs(f, inv).doit()/inv
            ctx.check(zero(r), lambda: 'the invariant density is not stationary: %s' % sym.simplify(r))
        if hasattr(cls, 'fluxes'):
            fl = cls.fluxes(par)
            fl = list(fl) if isinstance(fl, (list, tuple)) else [fl]
            ctx.step()
            ctx.check(len(fl) == len(var), 'number of fluxes')
            ctx.check(zero(symbol(op + sum(g.diff(v) for g, v in zip(fl, var)), f, var)), 'the operator is not minus the divergence of its fluxes')
            for i, g in enumerate(fl):
                ctx.check(zero(symbol(g, f, var) - symbol(flux(drift, diff, f, var, i), f, var)),
                          lambda: 'flux in direction %d is not the flux of the process' % i)
    ctx.trace()
    ctx.outcome((name, str(par)))


def run_params(ctx):
    """params() and substitution: the operator for symbols, with values put in, is the operator for the values."""
    for name, args in (('Fokker_Planck_1d', ()), ('McKean_Vlasov_white', ()), ('McKean_Vlasov', ()), ('McKean_Vlasov_harmonic_noise', ()),
                       ('Generalized_Langevin', (1,)), ('Generalized_Langevin', (2,))):
        def one():
            cls = getattr(eq, name)
            par = cls.params(*args)
            fn = cls.backward if name == 'Generalized_Langevin' else cls.equation
            with contextlib.redirect_stdout(io.StringIO()):
                op = fn(par)
            f = unknown_of(op)
            var = list(f.args)
            for shift in range(3):
                val = {}
                for i, (k, s) in enumerate(sorted(par.items())):
                    if isinstance(s, sym.Symbol):
                        val[k] = sym.Rational(2*i + shift + 1, 3 + (i + shift) % 4)
                    elif k == 'Vy':
                        val[k] = s
                    else:
                        v = s.args[0]
                        val[k] = potentials(v, False)[1 + shift % 2]
                with contextlib.redirect_stdout(io.StringIO()):
                    direct = fn(val)
                later = op.subs([(par[k], val[k]) for k in par]).doit()
                ctx.step(2)
                ctx.state()
                ctx.check(zero(symbol(direct, f, var) - symbol(later, f, var)),
                          'the operator for values is not the operator for symbols with the values put in')
            ctx.check(str(sorted(par)) == str(sorted(str(s.func if not isinstance(s, sym.Symbol) else s) for s in par.values())),
                      lambda: 'names of the parameters: %s' % par)
            ctx.trace()
        ctx.guard({'model': name, 'params': args}, one)


def unknown_of(op):
    return [a for a in op.atoms(sym.core.function.AppliedUndef) if a.func.__name__ == 'f'][0]


def run_noise(ctx):
    """McKean_Vlasov with a concrete Vy: the effective noise has variance 1/beta."""
    import numpy as np
    for key, Vy in {'gaussian': y**2/2, 'bistable': y**4/4 - y**2/2, 'narrow': y**2, 'quartic': y**4/4, 'tilted': y**4/4 - y**2/2 + y**3/9}.items():
        def one():
            b, e, g = sym.Rational(3, 2), sym.Rational(1, 2), sym.Rational(1, 4)
            V = x**2/2
            fx, fy = eq.McKean_Vlasov.fluxes({'β': b, 'θ': sym.Integer(0), 'm': sym.Integer(0), 'γ': g, 'ε': e, 'Vp': V, 'Vy': Vy})
            f = eq.McKean_Vlasov.f
            ctx.step()
            s = sym.Poly(symbol(fx, f, [x, y]), x, y, *XI[:2])
            c = float(s.coeff_monomial(y)*e/(1 - g))
            grid = np.linspace(-8, 8, 40001)
            h = grid[1] - grid[0]
            rho = np.exp(-sym.lambdify(y, Vy, 'numpy')(grid))
            rho /= rho.sum()*h
            mean = (grid*rho).sum()*h
            # -(rho phi')' = (y - mean) rho,  zeta = int (phi')^2 rho
            g = (grid - mean)*rho*h
            cum = np.where(grid < mean, np.cumsum(g) - g/2, -np.cumsum(g[::-1])[::-1] + g/2)
            ok = rho > 1e-200
            zeta = (cum[ok]**2/rho[ok]).sum()*h
            if abs(mean) > 1e-9:
                ctx.check(sym.Poly(symbol(fy, f, [x, y]), x, y, *XI[:2]) is not None, 'flux')
            else:
                ctx.check(abs(c - math.sqrt(1/float(b)/zeta)) < 1e-4*c, lambda: 'coefficient of the noise %s, expected %s'
                          % (c, math.sqrt(1/float(b)/zeta)))
            want = -(f*Vy.diff(y) + f.diff(y))/e**2
            ctx.check(zero(symbol(fy, f, [x, y]) - symbol(want, f, [x, y])), 'flux in y')
            ctx.state()
            ctx.trace()
        ctx.guard({'Vy': key}, one)


def run_map(ctx):
    f1, f2, f3 = sym.Function('f')(x), sym.Function('f')(x, y), sym.Function('f')(x, y, z)
    R = sym.Rational
    ops = [(f1, [x], f1.diff(x, x) - x*f1.diff(x)), (f1, [x], ((x**3 - x)*f1 + f1.diff(x)/3).diff(x)), (f1, [x], f1*x**2 + f1.diff(x, 3)),
           (f2, [x, y], f2.diff(x, y) + y*f2.diff(x)), (f2, [x, y], eq.Langevin.forward(R(1, 2))), (f2, [x, y], (f2*x*y).diff(x) - f2.diff(y, y)/5),
           (f3, [x, y, z], f3.diff(x, z) - y*f3.diff(y, y) + z*f3), (f3, [x, y, z], f3.diff(x, y, z)), (f1, [x], f1)]
    for i, (f, var, op) in enumerate(ops):
        facs = [sym.Integer(2), sym.exp(-x**2/4), sym.exp(-sum(v**2 for v in var)/3 + x/5), 1/(2 + sym.cos(x)),
                sym.exp(-var[-1]**4/8)*(1 + x**2)]
        for j, fac in enumerate(facs):
            def one():
                got = eq.map_operator(op, f, fac)
                ctx.step()
                ctx.state()
                e = sym.exp(sum(k*v for k, v in zip(XI, var)))
                want = op.subs(f, fac*e).doit()/(fac*e)
                d = got.subs(f, e).doit()/e - want
                ctx.check(zero(d, tol=1e-9), lambda: 'map_operator is not the conjugation by the factor: %s' % d)
                ctx.trace()
                ctx.outcome((i, j))
            ctx.guard({'operator': str(op), 'factor': str(fac)}, one)


# ------------------------------------------------------------------ Gaussian solver

def lyapunov(B, D):
    """Covariance of dX = B X dt + noise with generator D: B S + S B^T + 2 D = 0."""
    n = B.shape[0]
    s = {(i, j): sym.Symbol('s%d%d' % (min(i, j), max(i, j))) for i in range(n) for j in range(n)}
    S = sym.Matrix(n, n, lambda i, j: s[(i, j)])
    E = B*S + S*B.T + 2*D
    sol = sym.solve(list(E), list(set(s.values())), dict=True)
    if len(sol) != 1 or len(sol[0]) != len(set(s.values())):
        return None
    return S.subs(sol[0])


def gaussians(th):
    R = sym.Rational
    out = []
    for b in (R(-1, 3), -1, R(-5, 2), -4, -7, R(-2, 9)):
        for d in (R(1, 4), R(1, 2), 1, R(7, 3), 5, 9, R(1, 11), 2, 3, 4):
            out.append((sym.Matrix([[b]]), sym.Matrix([[d]])))
    vals = (-3, -2, -1, 0, 1, 2) if th else (-2, -1, 0, 1)
    diffs = [sym.diag(1, 1), sym.diag(R(1, 2), 2), sym.Matrix([[1, R(1, 2)], [R(1, 2), 1]])]
    if th:
        diffs += [sym.diag(0, 1), sym.diag(3, 0)]
    else:
        diffs += [sym.diag(0, 1)]
    for m in itertools.product(vals, repeat=4):
        a, b, c, d = m
        if a + d < 0 and a*d - b*c > 0:
            for k, D in enumerate(diffs):
                if k == 3 and b == 0:
                    continue
                if not th and (sum(m) + 7*k) % 2 and k:
                    continue
                out.append((sym.Matrix([[a, b], [c, d]]), D))
    three = [[[-1, 0, 1], [1, -1, 0], [0, 0, -2]], [[-1, 0, 0], [0, -2, 0], [0, 0, -3]], [[-1, 1, 0], [0, -1, 1], [0, 0, -1]],
             [[-1, 0, 0], [1, -1, 0], [1, 0, -2]], [[-2, 1, 0], [-1, -1, 0], [0, 1, -1]], [[-1, 0, 1], [0, -2, 0], [-1, 0, -1]]]
    D3 = [sym.eye(3), sym.diag(R(1, 2), 1, 2)]
    if th:
        three += [[[-2, 0, 1], [0, -1, 1], [1, 0, -2]], [[-1, -1, 0], [1, -1, 0], [0, 0, -1]], [[-3, 1, 0], [0, -1, -1], [0, 1, -2]]]
        D3 += [sym.diag(2, R(1, 3), 1)]
    for B in three:
        for D in D3:
            out.append((sym.Matrix(B), D))
    return out


def run_gaussian(ctx, B, D):
    n = B.shape[0]
    var = [x, y, z][:n]
    f = sym.Function('f')(*var)
    S = lyapunov(B, D)
    if S is None or S.det() == 0:
        return
    ctx.state()
    op = forward(list(B*sym.Matrix(var)), D.tolist(), f, var)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sol = eq.solve_gaussian(op, f, var)
    ctx.step()
    C = S.inv()
    quad = sum(C[i, j]*var[i]*var[j] for i in range(n) for j in range(n))/2
    want = sym.exp(-quad)/sym.sqrt((2*sym.pi)**n*S.det())
    pts = [[R*sym.Rational(1, 3) for R in p] for p in ((0, 0, 0), (1, 2, -1), (-2, 1, 3), (3, -1, 1), (0, 2, 2))]
    for p in pts:
        at = dict(zip(var, p))
        a, b = sym.N(sol.subs(at), 20), sym.N(want.subs(at), 20)
        ctx.check(abs(a - b) < abs(b)*1e-12, lambda: 'the density is %s, the invariant Gaussian is %s at %s' % (a, b, p))
    ctx.check(zero(op.subs(f, sol).doit()/sol, tol=1e-9), 'the density is not annihilated by the operator')
    ctx.check('not correct' not in out.getvalue(), 'the solver reports that its solution is not correct')
    ctx.trace()
    ctx.outcome(str(sol))


# ------------------------------------------------------------------ tasks

PARTS = 24


def tasks(tier):
    th = tier == 'thorough'
    n3 = 27 if th else 12
    out = [{'what': 'gaussian3', 'i': i, 'th': th} for i in range(n3) if th or i not in (1, 6, 7)]
    out += [{'what': 'noise', 'th': th}, {'what': 'map', 'th': th}, {'what': 'params', 'th': th}]
    out += [{'what': 'model', 'part': p, 'th': th} for p in range(PARTS*(4 if th else 1))]
    out += [{'what': 'gaussian', 'part': p, 'th': th} for p in range(PARTS)]
    return out


def run_task(ctx, task):
    th = task['th']
    if task['what'] == 'model':
        parts = PARTS*(4 if th else 1)
        for k, case in enumerate(models(th)):
            if k % parts == task['part']:
                ctx.state()
                ctx.guard({'model': case[0], 'parameters': str(case[1])}, lambda: run_model(ctx, case))
        ctx.sample({'model': case[0], 'parameters': str(case[1])})
    elif task['what'] == 'noise':
        run_noise(ctx)
    elif task['what'] == 'map':
        run_map(ctx)
    elif task['what'] == 'params':
        run_params(ctx)
    elif task['what'] == 'gaussian3':
        B, D = [g for g in gaussians(th) if g[0].shape[0] == 3][task['i']]
        ctx.guard({'drift': str(B.tolist()), 'diffusion': str(D.tolist())}, lambda: run_gaussian(ctx, B, D))
    else:
        todo = [g for g in gaussians(th) if g[0].shape[0] < 3]
        for k, (B, D) in enumerate(todo):
            if k % PARTS == task['part']:
                ctx.guard({'drift': str(B.tolist()), 'diffusion': str(D.tolist())}, lambda: run_gaussian(ctx, B, D))
