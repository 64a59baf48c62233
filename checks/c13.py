"""C13: symbolic decompositions reconstruct the original function or operator."""
import itertools
import math

import numpy as np

MEANING = ('states = distinct functions, operators and pairs of partitions built; transitions = symbolic operations '
           'executed on the real objects and checked; traces = expressions followed through all their operations')
BOUNDS = {'quick': 'functions: all products of at most 3 atoms (menu of 3 to 13 atoms over 6 lists of directions, dim 1..3, '
                   '4 constants) and all sums of two of 14 products, in both notations; every partition of the directions '
                   'and every block; operators: all sums of one or two terms (coefficient menu x derivatives up to order 3, '
                   'single terms up to order 6; every second pair of terms in dim 3) in dim 1..3, unevaluated derivatives of products, all pairs from menus of 8 to 12 for sums, differences, products and '
                   'compositions, conjugation by 4 factors; partitions: all pairs for 1..5 elements',
          'thorough': 'products of at most 4 atoms, all sums of two products from the whole menu and three from 14, operators with up to '
                      'three terms; partitions: all pairs for 1..6 elements'}
ASSUMPTIONS = ['equality of symbolic expressions is decided by their values at three fixed points (relative tolerance 1e-9)',
               'operators are linear (documented precondition of Operator)',
               'a product written as a sum may be refused by Function.project']

DIRS = [[0], [2], [0, 1], [1, 3], [0, 1, 2], [0, 2, 4]]
CONST = ['1', '-2', '1/3', '0.7*a']
ATOMS1 = ['{0}', '{0}**2', 'exp(-{0}**2/3)', 'cos(2*{0})', '1/(1+{0}**2)', 'sqrt(3+{0})', '({0}-2)']
ATOMS2 = ['{0}*{1}', 'exp({0}*{1})', 'sin({0}+{1})', 'exp({0}+2*{1})', '1/(2+{0}**2+{1}**2)']
ATOMS3 = ['exp({0}*{1}+{2})', 'sqrt(1+{0}**2+{1}**2+{2}**2)']
NAMES = {'xyz': 'xyzwv', 'sub': ['x0', 'x1', 'x2', 'x3', 'x4']}
POINTS = [[.37, -.61, .93, .21, -.44], [-.83, .15, .52, -.77, .68], [1.21, .94, -.35, .49, -.12]]


def setup(ctx):
    global hm, Function, Operator, lib, sympy, X, XYZ
    import sympy
    import hermipy as hm
    import hermipy.lib as lib
    from hermipy.function import Function
    from hermipy.operator import Operator
    X = [sympy.Symbol('x%d' % i, real=True) for i in range(5)]
    XYZ = [sympy.Symbol(c, real=True) for c in 'xyzwv']


# --------------------------------------------------------------- helpers

_val = {}


def value(e):
    """Values of a sympy expression at the fixed points; variables by name; a -> 1.3."""
    key = e
    if key not in _val:
        names = {}
        for s in e.free_symbols:
            if s.name in 'xyzwv':
                names[s] = 'xyzwv'.index(s.name)
            elif s.name == 'a':
                names[s] = None
            else:
                names[s] = int(s.name[1:])
        syms = list(names)
        f = sympy.lambdify(syms, e, 'math')
        out = []
        for p in POINTS:
            out.append(float(f(*[1.3 if names[s] is None else p[names[s]] for s in syms])))
        if len(_val) > 20000:
            _val.clear()
        _val[key] = out
    return _val[key]


def same(a, b):
    va = a if isinstance(a, list) else value(sympy.sympify(a))
    vb = b if isinstance(b, list) else value(sympy.sympify(b))
    return all(abs(x-y) <= 1e-9*(1 + abs(x) + abs(y)) for x, y in zip(va, vb))


def direct(e):
    """Reference sympy expression (in x0..x4) of a text in either notation, without the library."""
    loc = {'a': sympy.Symbol('a')}
    for i in range(5):
        loc['xyzwv'[i]] = X[i]
        loc['x%d' % i] = X[i]
    return sympy.sympify(e, locals=loc)


def partitions(s):
    s = list(s)
    if not s:
        yield []
        return
    for p in partitions(s[1:]):
        yield [[s[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[s[0]] + p[i]] + p[i+1:]


def atoms(dirs):
    """Indices of atoms: (template, tuple of directions)."""
    out = []
    n1 = {1: 7, 2: 4, 3: 3}[len(dirs)]
    for d in dirs:
        out += [(t, (d,)) for t in (ATOMS1 if len(dirs) == 1 else ATOMS1[:1] + ATOMS1[2:1+n1] if len(dirs) == 2 else
                                    [ATOMS1[1], ATOMS1[3]])]
    for i, j in itertools.combinations(dirs, 2):
        out += [(t, (i, j)) for t in (ATOMS2 if len(dirs) == 2 else ATOMS2[1:3])]
    if len(dirs) == 3:
        out += [(t, tuple(dirs)) for t in ATOMS3]
    return out


def write(prod, const, notation):
    names = NAMES[notation]
    return '*'.join([const] + ['(' + t.format(*[names[d] for d in ds]) + ')' for t, ds in prod])


# --------------------------------------------------------------- functions

def check_function(ctx, text, dirs):
    """All decompositions of one function."""
    want = value(direct(text))
    f = Function(text, dirs=list(dirs))
    ctx.state(('f', tuple(dirs), text))
    ctx.step()
    ctx.check(f.dirs == list(dirs), 'directions of the function')
    ctx.check(same(f.sym, want), 'value of the function: %s' % f.sym)
    ctx.check(same(f.as_xyz(), want), 'as_xyz: %s' % f.as_xyz())
    ctx.check(not (f.as_xyz().free_symbols & set(X)), 'as_xyz keeps subscript variables')
    g = Function(f.as_xyz(), dirs=list(dirs))
    ctx.check(f == g and not (f != g), 'Function(f.as_xyz()) is not f')
    ctx.check(same(Function(f).sym, want) and Function(f).dirs == f.dirs, 'copy of the function')

    # split in groups
    terms = f.split(legacy=False)
    ctx.step()
    total = [0.]*len(POINTS)
    for t in terms:
        p = [1.]*len(POINTS)
        seen = set()
        for key, fac in t.items():
            ctx.check(not (seen & key), 'groups of directions overlap: %s' % (list(t),))
            seen |= key
            ctx.check(sorted(key) == sorted(fac.dirs), 'directions of a factor')
            ctx.check({X.index(s) for s in fac.sym.free_symbols if s in X} <= set(key),
                      'the factor of %s is %s' % (sorted(key), fac.sym))
            p = [a*b for a, b in zip(p, value(fac.sym))]
        ctx.check(seen == set(dirs), 'groups %s do not cover %s' % (list(t), dirs))
        total = [a+b for a, b in zip(total, p)]
    ctx.check(same(total, want), lambda: 'split(legacy=False) gives %s instead of %s' % (total, want))

    # legacy split
    total = [0.]*len(POINTS)
    for t in f.split():
        ctx.step()
        p = value(sympy.sympify(t[-1]))
        ctx.check(not sympy.sympify(t[-1]).free_symbols & set(X), 'the multiplicator is not constant')
        if len(t) == 2 and len(dirs) != 1:
            ctx.check(t[0].dirs == list(dirs), 'directions of the unsplit factor')
        else:
            ctx.check([u.dirs for u in t[:-1]] == [[d] for d in dirs], 'directions of the legacy split')
        for u in t[:-1]:
            p = [a*b for a, b in zip(p, value(u.sym))]
        total = [a+b for a, b in zip(total, p)]
    ctx.check(same(total, want), lambda: 'split() gives %s instead of %s' % (total, want))
    ctx.check(same(f.sym, want) and f.dirs == list(dirs), 'splitting changed the function')

    # projections
    # (must succeed when the expanded expression is a product compatible with the block)
    comps, flat = None, sympy.expand(direct(text))
    if not isinstance(flat, sympy.Add):
        comps = components(dirs, [[X.index(s) for s in a.free_symbols if s in X]
                                  for a in sympy.Mul.make_args(flat)])
    for part in partitions(dirs):
        got, refused = [], False
        for block in part:
            block = sorted(block)
            arg = block[0] if len(block) == 1 and sum(block) % 2 else list(block)
            try:
                g = f.project(arg)
            except ValueError:
                refused = True
                if comps is not None and all(c <= set(block) or not c & set(block) for c in comps):
                    ctx.fail('projection on %s refused; components %s' % (block, comps))
                continue
            ctx.step()
            ctx.check(g.dirs == block, 'directions %s of the projection on %s' % (g.dirs, block))
            ctx.check({X.index(s) for s in g.sym.free_symbols if s in X} <= set(block),
                      'projection on %s is %s' % (block, g.sym))
            got.append(g)
        if not refused:
            p = [1.]*len(POINTS)
            for g in got:
                p = [a*b for a, b in zip(p, value(g.sym))]
            ctx.check(same(p, want), lambda: 'the product of the projections on %s is %s instead of %s (%s)' %
                      (part, p, want, [str(g.sym) for g in got]))
            t = Function.tensorize(got)
            ctx.check(t.dirs == list(dirs) and same(t.sym, want), 'tensorize of the projections on %s' % part)
            ctx.count('factorisations')
            if len(got) > 1:
                try:
                    Function.tensorize([got[0], got[0]])
                    ctx.fail('tensorize accepts a repeated direction')
                except ValueError:
                    pass
        else:
            ctx.count('refused_partitions')
    ctx.trace()
    ctx.outcome(repr(terms))


def components(dirs, factors):
    comps = [{d} for d in dirs]
    for f in factors:
        f = set(f)
        hit = [c for c in comps if c & f]
        if hit:
            comps = [c for c in comps if not c & f] + [set().union(*hit)]
    return comps


def task_products(ctx, dirs, size, part, n_parts):
    k = -1
    for prod in itertools.combinations_with_replacement(atoms(dirs), size):
        k += 1
        if k % n_parts != part:
            continue
        const = CONST[k % len(CONST)]
        text = write(prod, const, ['xyz', 'sub'][k % 2])
        ctx.guard('Function(%r, dirs=%s)' % (text, dirs), lambda: check_function(ctx, text, dirs))
    ctx.sample('all products of %d atoms in directions %s, part %d of %d' % (size, dirs, part, n_parts))


def task_sums(ctx, dirs, n_terms, part, n_parts, whole):
    at = atoms(dirs)
    if whole:
        menu = [p for s in (1, 2) for p in itertools.combinations_with_replacement(at, s)][:40]
    else:
        menu = [(a,) for a in at][:7] + [(a, b) for a, b in zip(at, at[::-1])][:7]
    for k, pr in enumerate(itertools.combinations(menu, n_terms)):
        if k % n_parts != part:
            continue
        text = ' + '.join(write(p, CONST[(k+i) % len(CONST)], ['xyz', 'sub'][(k+i) % 2]) for i, p in enumerate(pr))
        ctx.guard('Function(%r, dirs=%s)' % (text, dirs), lambda: check_function(ctx, text, dirs))
    for text in ['0', '1', '-2*a', '0.3']:
        if part == 0:
            ctx.guard('Function(%r, dirs=%s)' % (text, dirs), lambda: check_function(ctx, text, dirs))


def task_arith(ctx, dirs):
    at = atoms(dirs)
    for (i, p), (j, q) in itertools.product(enumerate(at), repeat=2):
        tp, tq = write((p,), CONST[i % 4], 'xyz'), write((q,), CONST[(i+j) % 4], 'sub')

        def go():
            f, g = Function(tp, dirs=list(dirs)), Function(tq, dirs=list(dirs))
            vf, vg = value(direct(tp)), value(direct(tq))
            for name, r, w in (('f*g', f*g, [a*b for a, b in zip(vf, vg)]),
                               ('f+g', f+g, [a+b for a, b in zip(vf, vg)]),
                               ('f/g', f/g, [a/b for a, b in zip(vf, vg)]),
                               ('f*text', f*tq, [a*b for a, b in zip(vf, vg)]),
                               ('text*f', tq*f, [a*b for a, b in zip(vf, vg)]),
                               ('f+text', f+tq, [a+b for a, b in zip(vf, vg)]),
                               ('2*f+g', 2*f+g, [2*a+b for a, b in zip(vf, vg)])):
                ctx.step()
                ctx.check(r.dirs == list(dirs), 'directions of ' + name)
                ctx.check(same(r.sym, w), lambda: '%s = %s' % (name, r.sym))
            if i == j or not i:
                for num, v in ((3, 3.), (-.25, -.25), (1e-3, 1e-3), (sympy.Rational(2, 7), 2/7), (np.float64(1.5), 1.5), (sympy.sqrt(2), 2**.5),
                               (direct(tq), None), (X[dirs[-1]]**2, None)):
                    vn = value(num) if v is None else [v]*len(POINTS)
                    for name, op, w in (('f*n', lambda: f*num, [a*b for a, b in zip(vf, vn)]), ('n*f', lambda: num*f, [a*b for a, b in zip(vf, vn)]),
                                        ('f+n', lambda: f + num, [a + b for a, b in zip(vf, vn)]), ('n+f', lambda: num + f, [a + b for a, b in zip(vf, vn)]),
                                        ('f/n', lambda: f/num, [a/b for a, b in zip(vf, vn)])):
                        ctx.step()
                        r = op()
                        ctx.check(type(r) is Function and r.dirs == list(dirs) and same(r.sym, w), lambda: '%s with n = %r: %s' % (name, num, r))
                r = Function(f, dirs=list(dirs))
                ctx.check(r == f and r.dirs == list(dirs) and same(r.sym, vf), 'function of a function')
            ctx.check(same(f.sym, vf) and same(g.sym, vg), 'operands changed')
            ctx.check((f == g) == (i == j and tp.replace(' ', '') and
                                   all(abs(a-b) < 1e-12 for a, b in zip(vf, vg))), 'equality of functions')
            other = Function('1', dirs=[d for d in range(5) if d not in dirs][:1])
            for name, op in (('*', lambda: f*other), ('+', lambda: f+other), ('/', lambda: f/other)):
                try:
                    op()
                    ctx.fail('%s accepts functions of different directions' % name)
                except ValueError:
                    pass
            ctx.trace()
        ctx.state(('arith', tuple(dirs), i, j))
        ctx.guard('f = Function(%r), g = Function(%r), dirs=%s' % (tp, tq, dirs), go)


def task_dims(ctx):
    """Directions deduced, given, or too few."""
    names = NAMES['xyz']
    for used in itertools.chain.from_iterable(itertools.combinations(range(5), k) for k in range(4)):
        for notation in ('xyz', 'sub'):
            text = '+'.join(['1'] + ['%s**2' % NAMES[notation][d] for d in used])
            for dim in [None] + list(range(6)):
                def go():
                    ctx.step()
                    need = 0 if not used else max(used) + 1
                    try:
                        f = Function(text) if dim is None else Function(text, dim=dim)
                    except (AssertionError, ValueError):
                        ctx.check(dim is not None and dim < need, 'construction refused')
                        return
                    except IndexError:
                        ctx.check(dim is not None and dim > 5 or dim is not None and dim < need, 'construction refused')
                        return
                    ctx.check(dim is None or dim >= need, 'too few directions accepted')
                    ctx.check(f.dirs == list(range(need if dim is None else dim)), 'directions %s' % f.dirs)
                ctx.state(('dim', used, notation, dim))
                ctx.guard('Function(%r, dim=%s)' % (text, dim), go)
            for k in range(4):
                for dirs in itertools.permutations(range(5), k):
                    def go():
                        ctx.step()
                        ok = list(dirs) == sorted(dirs) and set(used) <= set(dirs)
                        try:
                            f = Function(text, dirs=list(dirs))
                        except (AssertionError, ValueError):
                            ctx.check(not ok, 'construction refused')
                            return
                        ctx.check(ok, 'directions %s accepted' % (dirs,))
                        ctx.check(f.dirs == list(dirs), 'directions')
                    ctx.state(('dirs', used, notation, dirs))
                    ctx.guard('Function(%r, dirs=%s)' % (text, dirs), go)
    # sanitize keeps rational coefficients
    for c in itertools.product([0, 1, -.5, .125, 1/3, 2e-15], repeat=3):
        def go():
            e = c[0]*X[0]**2 + c[1]*sympy.exp(X[1]) + sympy.Float(c[2])
            s = Function.sanitize(e)
            ctx.step()
            va, vb = value(sympy.sympify(e)), value(sympy.sympify(s))
            ctx.check(all(abs(x-y) < 1e-7 for x, y in zip(va, vb)), 'sanitize: %s' % s)
            ctx.check(not sympy.sympify(s).atoms(sympy.Float), 'sanitize leaves floats')
        ctx.state(('sanitize', c))
        ctx.guard('Function.sanitize with coefficients %s' % (c,), go)
    ctx.trace()


# --------------------------------------------------------------- operators

OPDIRS = [[0], [1], [0, 1], [1, 3], [0, 1, 2]]


def coefs(dirs):
    d0, d1 = dirs[0], dirs[-1]
    return ['1', '-1/2', 'x%d' % d0, '2*x%d**2 - 1' % d1, 'cos(x%d)' % d0, 'a*x%d*x%d' % (d0, d1)]


def tests(dirs):
    v = ['x%d' % d for d in dirs]
    out = ['exp(%s/2)' % '+'.join('%s*(%d)' % (x, i+1) for i, x in enumerate(v)),
           'sin(%s) + %s' % ('+'.join(v), '*'.join('%s**6' % x for x in v))]
    return out


def orders(dim, maxo):
    return [m for m in itertools.product(range(maxo+1), repeat=dim) if sum(m) <= maxo]


def apply(terms, dirs, g):
    """Reference: the operator given as a list of (coefficient, multi-index) applied to an expression."""
    r = sympy.Integer(0)
    for c, m in terms:
        h = g
        for d, k in zip(dirs, m):
            for _ in range(k):
                h = sympy.diff(h, X[d])
        r += direct(c)*h
    return r


def build(terms, dirs, form=0):
    """The operator as the user writes it."""
    v = [(XYZ if form % 2 else X)[d] for d in dirs]
    f = sympy.Function('fgu'[form % 3])(*v)
    e = sympy.Integer(0)
    for c, m in terms:
        h = f
        for x, k in zip(v, m):
            h = sympy.diff(h, x, k) if k else h
        cc = direct(c)
        if form % 2:
            cc = cc.subs(list(zip(X, XYZ)))
        e += cc*h
    return e


def check_operator(ctx, terms, dirs, form):
    e = build(terms, dirs, form)
    if e == 0:
        return
    op = Operator(e)
    ctx.state(('op', tuple(dirs), tuple(terms), form))
    ctx.check(op.dirs == list(dirs), 'directions of the operator: %s' % op.dirs)
    for t in tests(dirs):
        g = direct(t)
        want = value(apply(terms, dirs, g))
        for arg in (Function(t, dirs=list(dirs)), g):
            r = op(arg)
            ctx.step()
            ctx.check(type(r) is Function and r.dirs == list(dirs), 'type of the image')
            ctx.check(same(r.sym, want), lambda: 'image of %s: %s' % (t, r.sym))
    # splitting
    if max(sum(m) for _, m in terms) <= 5:
        s = op.split()
        ctx.step()
        merged = {}
        for c, m in terms:
            merged[m] = merged.get(m, 0) + direct(c)
        for m in set(merged) | set(s):
            have = s[m].sym if m in s else sympy.Integer(0)
            ctx.check(same(have, merged.get(m, sympy.Integer(0))),
                      lambda: 'coefficient of the derivative %s: %s instead of %s' % (m, have, merged.get(m, 0)))
            if m in s:
                ctx.check(s[m].dirs == list(dirs), 'directions of a coefficient')
    else:
        try:
            op.split()
            ctx.fail('split of an operator of order above 5 is not refused')
        except ValueError:
            pass
    # notations
    e2 = Operator(op.as_xyz())
    ctx.check(e2.dirs == op.dirs and (e2 == op), 'Operator(as_xyz()) is not the operator')
    ctx.trace()
    ctx.outcome(repr(op))


def task_terms(ctx, dirs, n_terms, part, n_parts):
    dim = len(dirs)
    maxo = {1: 5, 2: 3, 3: 2}[dim] if n_terms == 1 else {1: 3, 2: 2, 3: 2}[dim] if n_terms == 2 else {1: 2, 2: 2, 3: 1}[dim]
    if n_terms == 1:
        maxo = {1: 6, 2: 6, 3: 4}[dim]
    elem = [(c, m) for m in orders(dim, maxo) for c in coefs(dirs)]
    for k, terms in enumerate(itertools.combinations(elem, n_terms)):
        if k % n_parts != part:
            continue
        if n_terms == 1 and dim == 2 and sum(terms[0][1]) > 3 and k % 3:
            continue
        if n_terms == 2 and dim == 3 and (terms[0][0] == terms[1][0] or k % 2):
            continue
        ctx.guard('operator %s in directions %s' % (terms, dirs),
                  lambda: check_operator(ctx, list(terms), dirs, k % 6))


def op_menu(dirs):
    dim = len(dirs)
    c = coefs(dirs)
    e = [tuple(1 if i == j else 0 for i in range(dim)) for j in range(dim)]
    z = (0,)*dim
    two = tuple(2*x for x in e[0])
    mix = tuple(1 for _ in range(dim)) if dim == 2 else tuple(e[-1])
    menu = [[(c[0], z)], [(c[2], z)], [(c[0], e[0])], [(c[2], e[-1])], [(c[3], two)], [(c[1], mix), (c[4], z)],
            [(c[0], two), (c[3], e[-1]), (c[0], z)], [(c[5], e[0]), (c[2], e[-1])]]
    if dim > 1:
        menu += [[(c[4], e[1]), (c[5], tuple(a+b for a, b in zip(e[0], e[1])))]]
    return menu


def check_pair(ctx, A, B, dirs, k):
    oa, ob = Operator(build(A, dirs, k % 6)), Operator(build(B, dirs, (k//2) % 6))
    d = list(dirs)
    ctx.state(('pair', tuple(dirs), repr(A), repr(B)))
    for t in tests(dirs)[:1 + k % 2]:
        g = direct(t)
        G = Function(t, dirs=d)
        va, vb = value(apply(A, dirs, g)), value(apply(B, dirs, g))
        vab = value(apply(A, dirs, apply(B, dirs, g)))

        def chk(name, op, want):
            ctx.step()
            if ctx.check(type(op) is Operator and op.dirs == d, 'result of %s' % name):
                r = op(G)
                ctx.check(same(r.sym, want), lambda: '(%s)(%s) = %s; operator %s' % (name, t, value(r.sym), op))
        chk('A+B', oa + ob, [x+y for x, y in zip(va, vb)])
        chk('-A', -oa, [-x for x in va])
        # A - A is the zero operator: keeps its directions
        chk('A-B', oa - ob, [x-y for x, y in zip(va, vb)])
        chk('A(B)', oa(ob), vab)
        chk('A + text', oa + build(B, dirs, 1), [x+y for x, y in zip(va, vb)])
        chk('A - text', oa - build(B, dirs, 1), [x-y for x, y in zip(va, vb)])
        chk('text + A', build(B, dirs, 1) + oa, [x+y for x, y in zip(va, vb)])
        chk('Operator(A)', Operator(oa), va)
        chk('2*A', 2*oa, [2*x for x in va])
        chk('A*.5', oa*.5, [.5*x for x in va])
        chk('3/7*A', sympy.Rational(3, 7)*oa, [3*x/7 for x in va])
        chk('A(text of B)', oa(build(B, dirs, 0)), vab)
        for h in ('2', 'x%d' % d[0], 'exp(-x%d**2/4)' % d[-1]):
            vh = value(direct(h))
            chk('A*h', oa*Function(h, dirs=d), [x*y for x, y in zip(va, vh)])
            chk('h*A', h*oa, [x*y for x, y in zip(va, vh)])
        sa = (oa + ob)
        # compositions are again operators that split
        comp = oa(ob)
        if comp.sym != 0:
            s = comp.split()
            tot = [0.]*len(POINTS)
            for m, c in s.items():
                h = apply([('1', m)], dirs, g)
                tot = [x + y*z for x, y, z in zip(tot, value(c.sym), value(h))]
            ctx.check(same(tot, vab), lambda: 'split of A(B): %s' % s)
        ctx.check(sa == oa + ob and same(oa(G).sym, va) and same(ob(G).sym, vb), 'operands changed')
    ctx.trace()
    for wrong in ([x for x in range(5) if x not in dirs][:len(dirs)], d + [4] if 4 not in d else d[:-1]):
        if not wrong or len(wrong) < 1:
            continue
        ow = Operator(build([('1', tuple(0 for _ in wrong))], wrong, 0))
        for name, f in (('+', lambda: oa + ow), ('-', lambda: oa - ow), ('*', lambda: oa*Function('1', dirs=list(wrong))),
                        ('map', lambda: oa.map(Function('1', dirs=list(wrong))))):
            try:
                f()
                ctx.fail('%s accepts objects with different directions' % name)
            except ValueError:
                pass


def check_map(ctx, A, dirs, k):
    d = list(dirs)
    oa = Operator(build(A, dirs, k % 6))
    for h in ('2', 'exp(x%d)' % d[0], 'exp(-x%d**2/4 + x%d)' % (d[0], d[-1]), '1/(1+x%d**2)' % d[-1],
              'exp(%s)' % '*'.join(['-1/2'] + ['x%d' % x for x in d])):
        hh = direct(h)
        ctx.state(('map', tuple(dirs), repr(A), h))
        for t in tests(dirs)[:1]:
            g = direct(t)
            want = value(apply(A, dirs, g*hh)/hh)
            for fac in (Function(h, dirs=d), h):
                r = oa.map(fac)
                ctx.step()
                ctx.check(r.dirs == d, 'directions of the mapped operator')
                ctx.check(same(r(Function(t, dirs=d)).sym, want),
                          lambda: 'conjugation by %s gives %s on %s' % (h, value(r(Function(t, dirs=d)).sym), t))
            s = r.split()
            tot = [0.]*len(POINTS)
            for m, c in s.items():
                tot = [x + y*z for x, y, z in zip(tot, value(c.sym), value(apply([('1', m)], dirs, g)))]
            ctx.check(same(tot, want), lambda: 'split of the conjugation by %s: %s' % (h, s))
            # conjugating back
            back = r.map(1/hh)
            ctx.check(same(back(Function(t, dirs=d)).sym, value(apply(A, dirs, g))), 'conjugating back by 1/%s' % h)
    ctx.trace()


def check_unevaluated(ctx, dirs):
    """Derivatives of products left unevaluated by the user."""
    v = [X[d] for d in dirs]
    f = sympy.Function('f')(*v)
    for t in tests(dirs):
        g = direct(t)
        for c in coefs(dirs):
            for i, x in enumerate(v):
                for e in (sympy.Derivative(direct(c)*f, x), x*sympy.Derivative(direct(c)*f.diff(x), x) + f,
                          sympy.Derivative(direct(c)*f, x, x), direct(c)*sympy.Derivative(f, v[0], x)):
                    op = Operator(e)
                    want = value(e.subs(f, g).doit())
                    ctx.state(('uneval', tuple(dirs), str(e)))
                    ctx.case('operator %s in directions %s' % (e, dirs))
                    ctx.step()
                    ctx.check(same(op(Function(t, dirs=list(dirs))).sym, want), 'application')
                    s = op.split()
                    tot = [0.]*len(POINTS)
                    for m, cc in s.items():
                        tot = [p + y*z for p, y, z in zip(tot, value(cc.sym), value(apply([('1', m)], dirs, g)))]
                    ctx.check(same(tot, want), lambda: 'split: %s' % s)
    ctx.trace()


# --------------------------------------------------------------- partitions

def finest(p1, p2, n):
    parent = list(range(n))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for p in (p1, p2):
        for b in p:
            for e in b[1:]:
                parent[find(e)] = find(b[0])
    out = {}
    for i in range(n):
        out.setdefault(find(i), set()).add(i)
    return {frozenset(b) for b in out.values()}


def task_partitions(ctx, n, part, n_parts):
    ps = list(partitions(range(n)))
    for i, p in enumerate(ps):
        if i % n_parts != part:
            continue
        for q in ps:
            for shift in (0, 2):
                s1 = {frozenset(e+shift for e in b) for b in p}
                s2 = {frozenset(e+shift for e in b) for b in q}
                c1, c2 = set(s1), set(s2)
                if shift == 0:
                    ctx.case('finest_common(%s, %s)' % (p, q))
                r = lib.finest_common(s1, s2)
                ctx.step()
                want = {frozenset(e+shift for e in b) for b in finest(p, q, n)}
                ctx.check(r == want, lambda: 'result %s instead of %s' % (r, want))
                ctx.check(s1 == c1 and s2 == c2, 'arguments modified')
            ctx.state()
            ctx.trace()
    ctx.sample('finest_common for all pairs of partitions of %d elements' % n)


# --------------------------------------------------------------- driver

def tasks(tier):
    th = tier == 'thorough'
    out = [['dims']]
    for dirs in DIRS:
        n = {1: 1, 2: 2, 3: 4}[len(dirs)]
        for size in (1, 2, 3) + ((4,) if th else ()):
            k = n if size < 3 else 4*n if size == 3 else 16*n
            for p in range(k):
                out.append(['products', dirs, size, p, k])
        for p in range(n):
            out.append(['sums', dirs, 2, p, n, False])
        if th:
            for p in range(8):
                out.append(['sums', dirs, 2, p, 8, True])
                out.append(['sums', dirs, 3, p, 8, False])
        out.append(['arith', dirs])
    for dirs in OPDIRS:
        for nt in (1, 2) + ((3,) if th else ()):
            k = {1: 2, 2: 10, 3: 40}[nt]
            for p in range(k):
                out.append(['terms', dirs, nt, p, k])
        k = 4
        for p in range(k):
            out.append(['pairs', dirs, p, k])
        out.append(['map', dirs])
        out.append(['uneval', dirs])
    for n in range(1, 7 if th else 6):
        k = 8 if n == 6 else 1
        for p in range(k):
            out.append(['partitions', n, p, k])
    return out


def run_task(ctx, task):
    kind = task[0]
    if kind == 'dims':
        task_dims(ctx)
    elif kind == 'products':
        task_products(ctx, *task[1:])
    elif kind == 'sums':
        task_sums(ctx, *task[1:])
    elif kind == 'arith':
        task_arith(ctx, task[1])
    elif kind == 'terms':
        task_terms(ctx, *task[1:])
    elif kind == 'pairs':
        dirs, part, n_parts = task[1:]
        for k, (A, B) in enumerate(itertools.product(op_menu(dirs), repeat=2)):
            if k % n_parts == part:
                ctx.guard('A = %s, B = %s in directions %s' % (A, B, dirs), lambda: check_pair(ctx, A, B, dirs, k))
    elif kind == 'map':
        for k, A in enumerate(op_menu(task[1])):
            ctx.guard('A = %s in directions %s' % (A, task[1]), lambda: check_map(ctx, A, task[1], k))
    elif kind == 'uneval':
        ctx.guard('unevaluated derivatives in directions %s' % task[1], lambda: check_unevaluated(ctx, task[1]))
    elif kind == 'partitions':
        task_partitions(ctx, *task[1:])
