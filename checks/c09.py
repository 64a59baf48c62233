"""C09: algebra of Series, Varf, Position and Quad objects, in every history of operations."""
import itertools
import math

import numpy as np
import ref

MEANING = ('states = distinct abstract objects (directions, mean, covariance, types, index set, degree, factor, '
           'coefficients) reached; transitions = operations executed on the real objects in lockstep with the '
           'reference model; traces = histories of operations validated step by step')
BOUNDS = {'quick': 'breadth-first search over all histories of length 2 from 14 roots (Series and Varf, dim 1..2, dense and '
                   'sparse, 5 index sets, degree 2 or 3, Hermite/Fourier/mixed, 6 factors) with about 40 operations each '
                   '(negation, multiples, quotients, projections, sub- and superdegrees, cross, application, and sums, '
                   'differences, products on both sides with a pool of 9 to 12 compatible and incompatible objects); '
                   'objects of dimension at most 3 are expanded; Position: all pairs and triples from a menu of 14; Quad: all partitions; '
                   'equality: positions, series and matrices of dim 1..3 that differ in any one component',
          'thorough': 'the same with histories of length 3 (products of dimension at most 3)'}
ASSUMPTIONS = ['addition of a series and a number is not modelled (it adds the number to every coefficient)',
               'factors without a multiplicative constant when series share a direction']

PTS = [.37, -.61, .93, .21, -.44]


# ------------------------------------------------------------------ model

class Refuse(Exception):
    pass


class Model:
    """A Series (mat False) or Varf (mat True): plain dictionaries."""

    def __init__(self, dirs, data, kind, degree, factor, coefs, mat=False, sparse=False):
        self.dirs = tuple(dirs)
        self.data = data            # direction -> (mean, var, type)
        self.kind, self.degree = kind, degree
        self.factor = factor        # frozenset of (frozenset of directions, text)
        self.coefs = coefs          # multi-index (or pair) -> value
        self.mat, self.sparse = mat, sparse
        self.optional = False

    def clone(self, **kw):
        m = Model(self.dirs, self.data, self.kind, self.degree, self.factor, self.coefs, self.mat, self.sparse)
        m.__dict__.update(kw)
        m.optional = False
        m.dirs = tuple(m.dirs)
        m.data = {d: m.data[d] for d in m.dirs}
        return m

    def key(self):
        return (self.mat, self.dirs, tuple(self.data[d] for d in self.dirs), self.kind, self.degree,
                tuple(sorted((tuple(sorted(b)), t) for b, t in self.factor)),
                tuple(round(self.coefs[k], 8) for k in sorted(self.coefs)))

    def indices(self, dirs=None, degree=None):
        dim = len(self.dirs if dirs is None else dirs)
        if dim == 0:
            return [()]
        return ilist(self.kind, dim, self.degree if degree is None else degree)


_il = {}


def ilist(kind, dim, degree):
    k = (kind, dim, degree)
    if k not in _il:
        _il[k] = sorted(tuple(m) for m in ref.index_set(kind, dim, degree))
    return _il[k]


def same_space(a, b):
    return a.dirs == b.dirs and all(a.data[d] == b.data[d] for d in a.dirs)


def m_scale(a, c):
    return a.clone(coefs={k: v*c for k, v in a.coefs.items()})


def m_add(a, b, sign=1):
    if a.mat != b.mat or not same_space(a, b) or a.kind != b.kind or a.factor != b.factor or a.degree != b.degree:
        raise Refuse
    return a.clone(coefs={k: v + sign*b.coefs[k] for k, v in a.coefs.items()}, sparse=a.sparse and b.sparse)


def restrict(factor, dirs):
    dirs = set(dirs)
    out = []
    for b, t in factor:
        if b <= dirs:
            out.append((b, t))
        elif b & dirs:
            raise Refuse
    return frozenset(out)


def m_mul(a, b):
    if a.mat != b.mat:
        raise Refuse
    common = [d for d in a.dirs if d in b.dirs]
    if not a.mat and (len(a.dirs) == 0 or len(b.dirs) == 0):
        s, v = (a, b) if len(a.dirs) == 0 else (b, a)
        r = m_scale(v, s.coefs[()])
        r.optional = a.kind != b.kind      # a number has no index set: the library may insist
        return r
    if a.kind != b.kind or a.degree != b.degree:
        raise Refuse
    if a.mat and common:
        raise Refuse
    for d in common:
        if a.data[d] != b.data[d]:
            raise Refuse
    fa, fb = restrict(a.factor, common), restrict(b.factor, common)
    if common and fa != fb:
        raise Refuse
    factor = (a.factor - fa) | (b.factor - fb)
    dirs = sorted(set(a.dirs) ^ set(b.dirs))
    data = {**a.data, **b.data}
    if a.mat:
        def sub(m, ds):
            return tuple(m[dirs.index(d)] for d in ds)
        ind = a.indices(dirs)
        coefs = {(m, n): a.coefs[sub(m, a.dirs), sub(n, a.dirs)] * b.coefs[sub(m, b.dirs), sub(n, b.dirs)]
                 for m in ind for n in ind}
        return a.clone(dirs=dirs, data=data, factor=factor, coefs=coefs, sparse=False)
    ind = a.indices(dirs)
    coefs = dict.fromkeys(ind, 0.)
    by = {}
    for m, v in b.coefs.items():
        by.setdefault(tuple(m[b.dirs.index(d)] for d in common), []).append((m, v))
    for m, v in a.coefs.items():
        for n, w in by.get(tuple(m[a.dirs.index(d)] for d in common), []):
            r = tuple(m[a.dirs.index(d)] if d in a.dirs else n[b.dirs.index(d)] for d in dirs)
            if r in coefs:
                coefs[r] += v*w
    return a.clone(dirs=dirs, data=data, factor=factor, coefs=coefs)


def m_project(a, dirs):
    if list(dirs) != sorted(dirs) or not set(dirs) <= set(a.dirs):
        raise Refuse
    factor = restrict(a.factor, dirs)

    def lift(m):
        return tuple(m[dirs.index(d)] if d in dirs else 0 for d in a.dirs)
    ind = a.indices(dirs)
    if a.mat:
        coefs = {(m, n): a.coefs.get((lift(m), lift(n)), 0.) for m in ind for n in ind}
    else:
        coefs = {m: a.coefs.get(lift(m), 0.) for m in ind}
    return a.clone(dirs=dirs, factor=factor, coefs=coefs)


def m_sub(a, degree):
    if a.kind == 'cross_nc' or degree < ref.min_degree(a.kind) or len(a.dirs) == 0:
        raise Refuse
    if a.mat and degree > a.degree:
        raise Refuse
    ind = a.indices(degree=degree)
    if a.mat:
        coefs = {(m, n): a.coefs[m, n] for m in ind for n in ind}
    else:
        coefs = {m: a.coefs.get(m, 0.) for m in ind}
    return a.clone(degree=degree, coefs=coefs)


def m_cross(a, degree):
    if a.kind != 'triangle' or degree < 1 or degree + len(a.dirs) - 1 > a.degree:
        raise Refuse
    b = a.clone(kind='cross', degree=degree)
    ind = b.indices()
    b.coefs = {(m, n): a.coefs[m, n] for m in ind for n in ind} if a.mat else {m: a.coefs[m] for m in ind}
    return b


def m_apply(v, s):
    if s.mat or not same_space(v, s) or v.kind != s.kind or v.degree != s.degree or v.factor != s.factor:
        raise Refuse
    ind = s.indices()
    return s.clone(coefs={m: math.fsum(v.coefs[m, n]*s.coefs[n] for n in ind) for m in ind})


# ------------------------------------------------------- real objects

def setup(ctx):
    global hm, ss, sympy
    import hermipy as hm
    import scipy.sparse as ss
    import sympy


def text(factor):
    return '*'.join(sorted(t for _, t in factor)) or '1'


def position(m):
    return hm.Position(dirs=list(m.dirs), mean=[m.data[d][0] for d in m.dirs],
                       cov=np.diag([m.data[d][1] for d in m.dirs]), types=[m.data[d][2] for d in m.dirs])


_order = {}


def order(kind, dim, degree):
    """The library's order of the multi-indices (C01 checks that it enumerates the set)."""
    k = (kind, dim, degree)
    if k not in _order:
        import hermipy.core as core
        _order[k] = [tuple(x) for x in core.iterator_list_indices(dim, degree, index_set=kind).tolist()]
    return _order[k]


def real(m):
    if len(m.dirs) == 0:
        ind = [()]
    else:
        ind = order(m.kind, len(m.dirs), m.degree)
    if m.mat:
        a = np.array([[m.coefs[i, j] for j in ind] for i in ind])
        if m.sparse:
            a = ss.csr_matrix(a)
        return hm.Varf(a, position(m), factor=text(m.factor), index_set=m.kind)
    return hm.Series(np.array([m.coefs[i] for i in ind]), position(m), factor=text(m.factor), index_set=m.kind)


_fv = {}


def factor_values(expr, dirs):
    k = (str(expr), tuple(dirs))
    if k not in _fv:
        pts = [{hm.Function.x_sub[i]: c*PTS[(i + j) % 5] for i in range(5)} for j, c in ((0, 1.), (2, -.8))]
        e = hm.Function(expr, dirs=list(dirs)).sym
        _fv[k] = [float(e.subs(p)) for p in pts]
    return _fv[k]


def compare(obj, m):
    """None if the real object is the one of the model, else a description."""
    if isinstance(obj, hm.Varf) != m.mat or not isinstance(obj, (hm.Varf, hm.Series)):
        return 'the result is a %s' % type(obj).__name__
    p = obj.position
    if list(p.dirs) != list(m.dirs) or p.dim != len(m.dirs):
        return 'directions %s, expected %s' % (p.dirs, m.dirs)
    if list(p.types) != [m.data[d][2] for d in m.dirs]:
        return 'types %s, expected %s' % (p.types, [m.data[d][2] for d in m.dirs])
    if len(m.dirs):
        if not np.allclose(p.mean, [m.data[d][0] for d in m.dirs], atol=1e-12):
            return 'mean %s' % p.mean
        if not np.allclose(p.cov, np.diag([m.data[d][1] for d in m.dirs]), atol=1e-12):
            return 'covariance %s' % p.cov
    if list(obj.factor.dirs) != list(m.dirs):
        return 'directions of the factor %s' % obj.factor.dirs
    if not np.allclose(factor_values(obj.factor.sym, m.dirs), factor_values(text(m.factor), m.dirs), rtol=1e-9):
        return 'factor %s, expected %s' % (obj.factor, text(m.factor))
    if len(m.dirs) == 0:
        if len(obj.coeffs) != 1 or not ref.close(float(obj), m.coefs[()], 1e-10):
            return 'value %s, expected %s' % (obj.coeffs, m.coefs[()])
        return None
    if obj.index_set != m.kind:
        return 'index set %s, expected %s' % (obj.index_set, m.kind)
    if obj.degree != m.degree:
        return 'degree %s, expected %s' % (obj.degree, m.degree)
    ind = [tuple(x) for x in np.asarray(obj.multi_indices()).tolist()]
    if sorted(ind) != m.indices():
        return 'multi-indices %s' % ind
    if m.mat:
        a = obj.matrix
        if obj.is_sparse != isinstance(a, ss.csr_matrix) or (not obj.is_sparse and not isinstance(a, np.ndarray)):
            return 'is_sparse is %s but the matrix is a %s' % (obj.is_sparse, type(a).__name__)
        a = a.toarray() if obj.is_sparse else np.asarray(a)
        want = np.array([[m.coefs[i, j] for j in ind] for i in ind])
    else:
        a = obj.coeffs
        want = np.array([m.coefs[i] for i in ind])
    if a.shape != want.shape or not ref.close(a, want, 1e-9):
        return 'coefficients: %s' % (ref.maxdiff(a, want) if a.shape == want.shape else a.shape,)
    return None


def snapshot(obj):
    p = obj.position
    if isinstance(obj, hm.Varf):
        a = obj.matrix
        arr = (a.data.tobytes(), a.indices.tobytes(), a.indptr.tobytes()) if obj.is_sparse else a.tobytes()
    else:
        arr = obj.coeffs.tobytes()
    return (arr, obj.degree, obj.index_set, tuple(p.dirs), p.mean.tobytes(), p.cov.tobytes(), p.factor.tobytes(),
            tuple(p.types), str(obj.factor.sym), tuple(obj.factor.dirs))


# --------------------------------------------------------------- menus

H, F = 'hermite', 'fourier'
DATA = {0: (.3, .7, H), 1: (-.4, 1.6, H), 2: (.1, 2., H), 3: (.2, .5, H), 4: (0., 1., H)}
FX = (frozenset({0}), 'exp(-x0**2/4)')
FY = (frozenset({1}), 'exp(-x1/3)')
FZ = (frozenset({2}), 'cosh(x2)')
FXY = (frozenset({0, 1}), 'exp(-x0*x1/8)')


def make(dirs, kind, degree, factor=(), data=None, seed=1, mat=False, sparse=False, unit=None):
    data = {d: (data or DATA)[d] for d in dirs}
    ind = ilist(kind, len(dirs), degree) if dirs else [()]
    n = len(ind)
    if mat:
        v = ref.generic(n*n, seed).reshape(n, n)
        if sparse:
            v = v*(np.add.outer(np.arange(n), np.arange(n)) % 3 != 1)
        coefs = {(i, j): float(v[a, b]) for a, i in enumerate(ind) for b, j in enumerate(ind)}
    else:
        v = ref.generic(n, seed)
        coefs = {i: float(v[a]) for a, i in enumerate(ind)}
    return Model(dirs, data, kind, degree, frozenset(factor), coefs, mat, sparse)


FDATA = {**DATA, 0: (.5, 1.44, F), 1: (0., 1., F)}
ODATA = {**DATA, 0: (.3 + 1e-3, .7, H), 1: (-.4, 1.6 + 1e-3, H)}

ROOTS = {
    # name: (dirs, degree, factor, data, mat, sparse)
    's0': ([0], 2, [FX], DATA, False, False),
    's01': ([0, 1], 2, [FX, FY], DATA, False, False),
    's01deg3': ([0, 1], 3, [], DATA, False, False),
    's01xy': ([0, 1], 2, [FXY], DATA, False, False),
    's12': ([1, 2], 2, [FY], DATA, False, False),
    's02': ([0, 2], 3, [FZ], DATA, False, False),
    's013': ([0, 1, 3], 2, [FX], DATA, False, False),
    's01f': ([0, 1], 2, [], FDATA, False, False),
    's12f': ([1, 2], 2, [FZ], FDATA, False, False),
    'v0': ([0], 3, [FX], DATA, True, False),
    'v01': ([0, 1], 2, [FX, FY], DATA, True, False),
    'v01sp': ([0, 1], 2, [FX], DATA, True, True),
    'v12': ([1, 2], 3, [], DATA, True, False),
    'v02fsp': ([0, 2], 2, [FZ], FDATA, True, True),
    'v012': ([0, 1, 2], 2, [FX], DATA, True, False),
}
SLOW = {('s013', 'cross_nc'), ('v012', 'cross_nc'), ('v012', 'rectangle'), ('v012', 'cube'),
        ('v12', 'rectangle'), ('v12', 'cube')}


def root(name, kind):
    dirs, degree, factor, data, mat, sparse = ROOTS[name]
    return make(dirs, kind, degree, factor, data, 3, mat, sparse)


def pool(name, kind):
    """Objects combined with the ones of the history: compatible ones and near misses."""
    dirs, degree, factor, data, mat, sparse = ROOTS[name]
    free = [d for d in range(5) if d not in dirs]

    def mk(dirs, factor, data=data, degree=degree, kind=kind, seed=5, sparse=sparse):
        factor = [f for f in factor if f[0] <= set(dirs)]
        return make(dirs, kind, degree, factor, data, seed, mat, sparse)
    out = {'same': mk(dirs, factor)}
    out['sub'] = mk(dirs[:1], factor, seed=6)
    out['last'] = mk(dirs[-1:], factor, seed=7)
    out['other'] = mk([free[0]], [FX, FY, FZ], seed=8)
    out['overlap'] = mk(sorted([dirs[-1], free[-1]]), factor, seed=9)
    out['nofactor'] = mk(dirs, [] if factor else [FX if 0 in dirs else FY])
    out['nofactor1'] = mk(dirs[-1:], [] if factor else [FX, FY, FZ])
    out['shifted'] = mk(dirs, factor, data=ODATA if dirs != [0, 2] else FDATA)
    out['degree'] = mk(dirs, factor, degree=degree - 1)
    out['degree0'] = mk(dirs, factor, degree=0 if kind in ('triangle', 'cube', 'rectangle') else 1)
    out['set'] = mk(dirs, factor, kind='triangle' if kind != 'triangle' else 'cube')
    if mat:
        out['storage'] = mk(dirs, factor, sparse=not sparse)
    else:
        out['number'] = mk([], [])
    return out


def operators(m):
    """Matrices applied to a series: one that fits and near misses."""
    good = m.clone(mat=True, sparse=False)
    ind = good.indices()
    n = len(ind)
    v = ref.generic(n*n, 11).reshape(n, n)
    good.coefs = {(i, j): float(v[a, b]) for a, i in enumerate(ind) for b, j in enumerate(ind)}
    out = {'fits': good, 'fits-sparse': good.clone(sparse=True)}
    d = m.dirs[0]
    out['other-mean'] = good.clone(data={**m.data, d: (m.data[d][0] + .01,) + m.data[d][1:]})
    out['other-type'] = good.clone(data={**m.data, d: m.data[d][:2] + (F if m.data[d][2] == H else H,)})
    out['other-factor'] = good.clone(factor=m.factor | {(frozenset({d}), 'exp(-x%d)' % d)})
    return out


def vectors(m):
    """Series given to a matrix."""
    ind = m.indices()
    v = ref.generic(len(ind), 12)
    good = m.clone(mat=False, coefs={i: float(v[a]) for a, i in enumerate(ind)})
    d = m.dirs[0]
    out = {'fits': good}
    out['other-mean'] = good.clone(data={**m.data, d: (m.data[d][0] + .01,) + m.data[d][1:]})
    out['other-factor'] = good.clone(factor=m.factor | {(frozenset({d}), 'exp(-x%d)' % d)})
    return out


def moves(m, others):
    """All operations on m: (name, function on the model, function on the real object, operand)."""
    out = []

    def op(name, fm, fr, other=None):
        out.append((name, fm, fr, other))
    op('neg', lambda a, b: m_scale(a, -1), lambda a, b: -a)
    op('*2', lambda a, b: m_scale(a, 2), lambda a, b: a*2)
    op('.5*', lambda a, b: m_scale(a, .5), lambda a, b: .5*a)
    op('np.float64*', lambda a, b: m_scale(a, 1.5), lambda a, b: a*np.float64(1.5))
    if not m.mat:
        if m.dirs:
            op('significant=3', lambda a, b: a.clone(coefs={k: round(v, 3) for k, v in a.coefs.items()}),
               lambda a, b: hm.Series(a.coeffs, a.position, factor=a.factor, index_set=a.index_set, significant=3))
        op('/4', lambda a, b: m_scale(a, .25), lambda a, b: a/4)
    if m.dirs:
        for ds in ref.subsets(list(m.dirs), 1):
            ds = sorted(ds)
            op('project %s' % ds, lambda a, b, ds=ds: m_project(a, ds), lambda a, b, ds=ds: a.project(list(ds)))
            if len(ds) > 1:
                op('project reversed %s' % ds, lambda a, b, ds=ds: m_project(a, ds[::-1]),
                   lambda a, b, ds=ds: a.project(ds[::-1]))
        op('project int', lambda a, b: m_project(a, [a.dirs[-1]]), lambda a, b: a.project(a.position.dirs[-1]))
        missing = [d for d in range(5) if d not in m.dirs][0]
        op('project missing', lambda a, b: m_project(a, [missing]), lambda a, b: a.project([missing]))
        for dd in (-1, -2, 0) + (() if m.mat else (1,)):
            deg = m.degree + dd
            if deg >= ref.min_degree(m.kind):
                op('subdegree %d' % deg, lambda a, b, g=deg: m_sub(a, g), lambda a, b, g=deg: a.subdegree(g))
        if m.mat:
            op('subdegree too high', lambda a, b: m_sub(a, a.degree + 1), lambda a, b: a.subdegree(a.degree + 1))
        for g in (1, 2, 3):
            op('to_cross %d' % g, lambda a, b, g=g: m_cross(a, g), lambda a, b, g=g: a.to_cross(g))
        if m.mat:
            for n, s in vectors(m).items():
                op('apply to ' + n, lambda a, b: m_apply(a, b), lambda a, b: a(b), s)
        else:
            for n, v in operators(m).items():
                op('apply ' + n, lambda a, b: m_apply(b, a), lambda a, b: b(a), v)
    for n, o in others.items():
        if len(set(m.dirs) ^ set(o.dirs)) <= 3:
            op('* ' + n, m_mul, lambda a, b: a*b, o)
            op(n + ' *', lambda a, b: m_mul(b, a), lambda a, b: b*a, o)
        if len(o.dirs) or not len(m.dirs):
            op('+ ' + n, m_add, lambda a, b: a + b, o)
            op(n + ' +', lambda a, b: m_add(b, a), lambda a, b: b + a, o)
            op('- ' + n, lambda a, b: m_add(a, b, -1), lambda a, b: a - b, o)
    op('* itself', lambda a, b: m_mul(a, a), lambda a, b: a*a)
    op('+ itself', lambda a, b: m_add(a, a), lambda a, b: a + a)
    return out


def function_values(ctx, obj, m, history):
    """to_function: numerical comparison with the expansion."""
    ctx.case('%s: to_function' % history)
    try:
        f = obj.to_function()
    except Exception as e:
        if all(m.data[d][2] == H for d in m.dirs):
            ctx.fail('to_function raised %r' % e)
        return
    ctx.step()
    for j in (0, 2):
        x = {d: PTS[(d + j) % 5] for d in m.dirs}
        b = {d: (ref.hermite_1d if m.data[d][2] == H else ref.fourier_1d)(
            m.degree if m.data[d][2] == H else m.degree + m.degree % 2,
            np.array([(x[d] - m.data[d][0])/math.sqrt(m.data[d][1])]))[0] for d in m.dirs}
        v = 0.
        for i, c in m.coefs.items():
            v += c*float(np.prod([b[d][i[k]] for k, d in enumerate(m.dirs)]))
        sub = {hm.Function.x_sub[d]: x[d] for d in m.dirs}
        v *= float(hm.Function(text(m.factor), dirs=list(m.dirs)).sym.subs(sub))
        got = float(f.sym.subs(sub))
        ctx.check(abs(got - v) < 1e-8*max(1, abs(v)), 'to_function gives %r at %s, expected %r' % (got, x, v))
        ctx.check(list(f.dirs) == list(m.dirs), 'directions of to_function: %s' % f.dirs)


def search(ctx, name, kind, depth, first):
    m0 = root(name, kind)
    others = pool(name, kind)
    reals = {}

    def real_of(m):
        k = id(m)
        if k not in reals:
            r = real(m)
            reals[k] = (m, r, snapshot(r))
        return reals[k][1:]

    r0 = real(m0)
    ctx.case('%s/%s: root' % (name, kind))
    bad = compare(r0, m0)
    ctx.check(bad is None, lambda: 'constructor: ' + bad)
    seen = {m0.key()}
    ctx.state(m0.key())
    frontier = [(m0, r0, ())]
    for level in range(depth):
        nxt = []
        for m, r, hist in frontier:
            snap = snapshot(r)
            if not m.mat and 0 < len(m.dirs) <= 2 and level <= 1 and m.degree <= 3 and len(m.coefs) <= 9 \
                    and (level == 0 or hist[-1].split()[0] in ('project', 'subdegree', 'to_cross', '*')):
                function_values(ctx, r, m, '%s/%s: %s' % (name, kind, ' ; '.join(hist)))
            for k, (op, fm, fr, o) in enumerate(moves(m, others)):
                if level == 0 and first is not None and k % first[1] != first[0]:
                    continue
                ctx.case('%s/%s: %s' % (name, kind, ' ; '.join(hist + (op,))))
                ro = real_of(o) if o is not None else (None, None)
                try:
                    want = fm(m, o)
                except Refuse:
                    want = None
                if want is not None and kind == 'cross_nc' and len(want.dirs) == 3 and level > 0:
                    continue     # the library's look-up of the degree is slow there: one level only
                try:
                    got, err = fr(r, ro[0]), None
                except Exception as e:
                    got, err = None, e
                ctx.step()
                if want is None:
                    ctx.count('refusals')
                    ctx.check(err is not None, lambda: 'accepted, but the operands are incompatible: %s' % describe(got))
                elif err is not None:
                    ctx.check(want.optional, 'raised %s: %s' % (type(err).__name__, err))
                else:
                    bad = compare(got, want)
                    ctx.check(bad is None, lambda: bad)
                    if bad is None:
                        ctx.trace()
                ctx.check(snapshot(r) == snap, 'the object itself was modified')
                if o is not None:
                    ctx.check(snapshot(ro[0]) == ro[1], 'the other operand was modified')
                if want is not None and got is not None and bad is None and len(want.dirs) <= 3:
                    key = want.key()
                    if key not in seen:
                        seen.add(key)
                        ctx.state(key)
                        nxt.append((want, got, hist + (op,)))
                if len(ctx.violations) > 5:
                    return
        frontier = nxt
    ctx.outcome((name, kind, len(seen)))
    ctx.sample('%s/%s: %d distinct objects' % (name, kind, len(seen)))


def describe(obj):
    try:
        return '%s dirs=%s degree=%s' % (type(obj).__name__, obj.position.dirs, obj.degree)
    except Exception:
        return repr(obj)[:200]


# ------------------------------------------------ positions, equality, quad

def run_equality(ctx):
    """Equality of series and matrices agrees with equality of the models."""
    objs = {}
    for kind in ('triangle', 'cross', 'cube'):
        for mat in (False, True):
            for name in ('s0', 's01', 's12'):
                dirs, degree, factor, data, _, _ = ROOTS[name]
                base = make(dirs, kind, degree, factor, data, 3, mat)
                vs = {'base': base, 'copy': base, 'twice': m_scale(base, 2), 'degree1': m_sub(base, 1),
                      'factor': base.clone(factor=frozenset([(frozenset({dirs[-1]}), 'exp(-x%d/7)' % dirs[-1])])),
                      'shift': base.clone(data={d: (v[0] + .1,) + v[1:] for d, v in base.data.items()}),
                      'type': base.clone(data={d: v[:2] + (F,) for d, v in base.data.items()})}
                const = m_sub(make(dirs, kind, 2, factor, data, 3, mat), 1)
                const = const.clone(coefs=dict.fromkeys(const.coefs, .7))
                vs['ones'] = const
                if kind != 'cross':
                    c0 = m_sub(base, 0)
                    vs['one'] = c0.clone(coefs=dict.fromkeys(c0.coefs, .7))
                if mat:
                    vs['sparse'] = base.clone(sparse=True)
                for k, v in vs.items():
                    objs[kind, mat, name, k] = v
    reals = {k: real(v) for k, v in objs.items()}
    for (ka, a), (kb, b) in itertools.product(objs.items(), objs.items()):
        if a.mat != b.mat or (len(a.dirs) == 1 and a.kind != b.kind):
            continue    # in one dimension the same function, whatever the index set is called
        ctx.case('%s == %s' % (ka, kb))
        want = a.key() == b.key()
        try:
            got = bool(reals[ka] == reals[kb])
        except Exception as e:
            if want:
                ctx.fail('raised %r' % e)
            continue
        ctx.step()
        ctx.trace()
        ctx.check(got == want, 'equality is %s' % got)
    ctx.state()


def run_components(ctx, dim):
    """Positions, and objects on them, that differ in one component of the data or of the coefficients."""
    base = {'dirs': list(range(dim)), 'mean': [.1*(i + 1) for i in range(dim)],
            'cov': (np.diag([1. + .5*i for i in range(dim)]) + .1*(np.ones((dim, dim)) - np.eye(dim)*1.)).tolist(), 'types': [H]*dim}
    menu = [('base', base), ('copy', base)]
    diag = dict(base, cov=np.diag(np.diag(base['cov'])).tolist())
    menu += [('diagonal', diag)]
    for size in (1., 1e-3, -1e-3, 1e-7):
        for i in range(dim):
            m = list(base['mean'])
            m[i] += size
            menu.append(('mean %d %g' % (i, size), dict(base, mean=m)))
            for j in range(i + 1):
                c = np.array(base['cov'])
                c[i, j] += size*.3
                if i != j:
                    c[j, i] += size*.3
                if np.linalg.eigvalsh(c)[0] > 0:
                    menu.append(('cov %d %d %g' % (i, j, size), dict(base, cov=c.tolist())))
    if dim > 1:
        m = list(base['mean'])
        m[0], m[1] = m[0] + .01, m[1] - .01
        menu.append(('mean +-', dict(base, mean=m)))
        c = np.array(base['cov'])
        c[0, 0], c[1, 1] = c[0, 0] + .01, c[1, 1] - .01
        menu.append(('cov +-', dict(base, cov=c.tolist())))
    for i in range(dim):
        d = list(base['dirs'])
        d[i] = 4
        menu.append(('dirs %d' % i, dict(base, dirs=sorted(d))))
        t = list(base['types'])
        t[i] = F
        menu.append(('type %d' % i, dict(diag, types=t)))
    if dim > 1:
        menu.append(('swapped', dict(base, mean=base['mean'][::-1], cov=np.array(base['cov'])[::-1, ::-1].tolist())))
    n = dim + 1
    v = np.arange(1., n + 1)
    made = []
    for label, kw in menu:
        p = hm.Position(**{k: list(x) for k, x in kw.items()})
        s = hm.Series(v.copy(), p)
        a = hm.Varf(np.diag(v) + .1, p)
        b = hm.Varf(ss.csr_matrix(np.diag(v)), p)
        made.append((label, kw, p, s, a, b))
    for (la_, ka, p, s, a, b), (lb, kb, p2, s2, a2, b2) in itertools.product(made, made):
        want = ka == kb

        def pair():
            ctx.step()
            ctx.state()
            ctx.check(bool(p == p2) == want, 'equality of the positions is %s' % (not want))
            ctx.check(bool(s == s2) == want, 'equality of series is %s' % (not want))
            ctx.check(bool(a == a2) == want and bool(b == b2) == want, 'equality of matrices is %s' % (not want))
            for name, f in (('sum of series', lambda: s + s2), ('difference of series', lambda: s - s2), ('sum of matrices', lambda: a + a2),
                            ('difference of sparse matrices', lambda: b - b2), ('dense + sparse', lambda: a + b2), ('application', lambda: a(s2)),
                            ('sparse application', lambda: b(s2)), ('solution', lambda: a.solve(s2))):
                try:
                    r = f()
                except Exception as e:
                    ctx.check(not want, lambda: '%s raised %r' % (name, e))
                    continue
                ctx.check(want, lambda: '%s is accepted' % name)
                ctx.check(r.position == p, lambda: 'position of the %s' % name)
        ctx.guard('%s and %s in dim %d' % (la_, lb, dim), pair)
    for label, kw, p, s, a, b in made:
        def plain():
            ctx.step()
            ctx.check(s + 0 == s and s + 0. == s and a + 0 == a and 0 + a == a, 'sum with zero')
            ctx.check(all(s[i] == v[i] for i in range(n)) and list(s[:]) == list(v), 'entries of the series')
            ctx.check(np.array_equal(a[1], a.matrix[1]) and a[0, 1] == .1 and b[1, 1] == v[1], 'entries of the matrix')
            lines = repr(s).splitlines()
            want = [(list(map(int, m)), x) for m, x in zip(s.multi_indices(), v)]
            ctx.check(len(lines) == n and all(str(x) == t.rpartition(': ')[2] and [int(c) for c in t.rpartition(': ')[0].strip('[] ').split()] == m
                                              for t, (m, x) in zip(lines, want)), lambda: 'text of the series: %s' % lines)
        ctx.guard('%s in dim %d' % (label, dim), plain)
    # Coefficients: every entry counts, and differences do not cancel
    base_p = made[0][2]
    vecs = [v]
    for i in range(n):
        for size in (1., -1e-3, 1e-7):
            w = v.copy()
            w[i] += size
            vecs.append(w)
            w = v.copy()
            w[i] += size
            w[(i + 1) % n] -= size
            vecs.append(w)
    vecs.append(v[::-1].copy())
    for x, y in itertools.product(vecs, vecs):
        def entries():
            want = bool(np.array_equal(x, y))
            if not want and np.linalg.norm(x - y) < 1e-9:
                return
            ctx.step()
            ctx.check(bool(hm.Series(x.copy(), base_p) == hm.Series(y.copy(), base_p)) == want, 'equality of series is %s' % (not want))
            for k in (0, n - 1):
                mx, my = np.eye(n), np.eye(n)
                mx[k], my[k] = x, y
                for fx, fy in itertools.product((np.array, ss.csr_matrix), repeat=2):
                    got = bool(hm.Varf(fx(mx), base_p) == hm.Varf(fy(my), base_p))
                    ctx.check(got == want, lambda: 'equality of matrices (%s, %s) is %s' % (fx.__name__, fy.__name__, not want))
        ctx.guard('coefficients %s and %s' % (x.tolist(), y.tolist()), entries)
    ctx.trace()


PMENU = [([0], 0), ([0], 1), ([0], 2), ([1], 0), ([1], 2), ([2], 0), ([3], 0), ([0, 1], 0), ([0, 1], 1), ([1, 2], 0),
         ([0, 2], 0), ([1, 3], 0), ([2, 4], 2), ([0, 1, 2], 0)]
PDATA = [DATA, ODATA, FDATA]


def run_position(ctx, first):
    objs = []
    for dirs, k in PMENU:
        data = {d: PDATA[k][d] for d in dirs}
        objs.append((dirs, data))

    def mk(o):
        return hm.Position(dirs=list(o[0]), mean=[o[1][d][0] for d in o[0]],
                           cov=np.diag([o[1][d][1] for d in o[0]]), types=[o[1][d][2] for d in o[0]])

    def model(args):
        count = {}
        for a in args:
            for d in a[0]:
                count[d] = count.get(d, 0) + 1
        cur = args[0]
        bad = any(c > 2 for c in count.values())
        for b in args[1:]:
            for d in cur[0]:
                if d in b[0] and cur[1][d] != b[1][d]:
                    bad = True
            dirs = sorted(set(cur[0]) ^ set(b[0]))
            cur = (dirs, {d: (cur[1].get(d) if d in cur[0] else b[1][d]) for d in dirs})
        return None if bad else cur

    def same(p, o):
        dirs, data = o
        return (list(p.dirs) == list(dirs) and p.dim == len(dirs)
                and list(p.types) == [data[d][2] for d in dirs]
                and np.allclose(p.mean, [data[d][0] for d in dirs], atol=1e-12)
                and np.allclose(p.cov, np.diag([data[d][1] for d in dirs]).reshape(len(dirs), len(dirs)), atol=1e-12)
                and np.allclose(p.factor.dot(p.factor.T), p.cov, atol=1e-12) and p.is_diag)

    for n in (2, 3):
        for combo in itertools.product(range(len(objs)), repeat=n):
            if combo[0] != first:
                continue
            args = [objs[i] for i in combo]
            ctx.case('Position.tensorize of %s' % [(a[0], PMENU[i][1]) for a, i in zip(args, combo)])
            want = model(args)
            ps = [mk(a) for a in args]
            snaps = [repr(p) for p in ps]
            try:
                got, err = hm.Position.tensorize(ps), None
            except Exception as e:
                got, err = None, e
            ctx.step()
            ctx.state()
            if want is None:
                # A direction given three times with equal data is refused as well
                ctx.check(err is not None, lambda: 'accepted: %r' % got)
            elif err is not None:
                ctx.fail('raised %r' % err)
            else:
                ctx.trace()
                ctx.check(same(got, want), lambda: 'got %r, expected %s' % (got, want))
                if n == 2:
                    ctx.check(ps[0]*ps[1] == got, 'operator * differs from tensorize')
            ctx.check([repr(p) for p in ps] == snaps, 'an operand was modified')
            if n == 2 and len(args[0][0]) and len(args[1][0]):
                eq = bool(ps[0] == ps[1])
                ctx.check(eq == (args[0] == args[1]), '== is %s' % eq)
    # projections
    dirs, data = objs[first]
    p = mk(objs[first])
    for ds in ref.subsets(list(dirs), 1):
        for perm in itertools.permutations(ds):
            ctx.case('Position %s project %s' % (objs[first], perm))
            try:
                got, err = p.project(list(perm)), None
            except Exception as e:
                got, err = None, e
            ctx.step()
            if list(perm) != sorted(perm):
                ctx.check(err is not None or same(got, (list(perm), data)), 'accepted, wrong result')
                continue
            ctx.check(err is None and same(got, (list(perm), {d: data[d] for d in perm})),
                      lambda: 'got %r %r' % (got, err))
            # A product of the projections on a partition is the position
            rest = [d for d in dirs if d not in perm]
            if rest and err is None:
                q = hm.Position.tensorize([p.project(rest), got])
                ctx.check(same(q, objs[first]), lambda: 'product of projections %r' % q)


COVS = {'diag': [[2., 0.], [0., .5]], 'full': [[1., .3], [.3, .8]], 'neg': [[2., -.9], [-.9, .7]],
        'repeated': [[2., 1., 1.], [1., 2., 1.], [1., 1., 2.]], 'three': [[1.3, .2, 0.], [.2, .9, -.1], [0., -.1, .6]],
        'block': [[1., .5, 0.], [.5, 1., 0.], [0., 0., 2.]], 'one': [[.3]],
        'tiny': [[1., 1e-6], [1e-6, 1.]], 'swap': [[.5, 0.], [0., 2.]]}


def run_general(ctx):
    """Constructors, covariance factor and weight of general positions."""
    for name, cov in COVS.items():
        dim = len(cov)
        for dirs in [None] + [list(c) for c in itertools.combinations(range(5), dim)]:
            for mean in (None, [.1*(i + 1) for i in range(dim)]):
                for give in itertools.product((0, 1), repeat=2):
                    kw = {}
                    if dirs is not None:
                        kw['dirs'] = list(dirs)
                    if mean is not None:
                        kw['mean'] = list(mean)
                    if give[0]:
                        kw['cov'] = [list(r) for r in cov]
                    if give[1]:
                        kw['dim'] = dim
                    if not kw:
                        continue

                    def body():
                        p = hm.Position(**kw)
                        ctx.step()
                        ctx.state()
                        c = np.array(cov) if give[0] else np.eye(dim)
                        mu = np.array(mean) if mean is not None else np.zeros(dim)
                        ds = dirs if dirs is not None else list(range(dim))
                        ctx.check(list(p.dirs) == ds and p.dim == dim and list(p.types) == [H]*dim,
                                  lambda: 'dirs %s types %s' % (p.dirs, p.types))
                        ctx.check(np.allclose(p.mean, mu) and np.allclose(p.cov, c), 'mean or covariance')
                        ctx.check(np.allclose(p.factor.dot(p.factor.T), c, atol=1e-12),
                                  lambda: 'factor %s is not a square root of %s' % (p.factor, c))
                        diag = np.abs(c - np.diag(np.diag(c))).max() < 1e-10
                        ctx.check(p.is_diag == diag, 'is_diag is %s' % p.is_diag)
                        x = np.array([PTS[d] for d in ds])
                        sub = {hm.Function.xyz[d]: PTS[d] for d in ds}
                        w = float(sympy.sympify(p.weight()).subs(sub))
                        want = np.exp(-.5*(x - mu).dot(np.linalg.solve(c, x - mu))) / \
                            math.sqrt((2*math.pi)**dim*np.linalg.det(c))
                        ctx.check(abs(w - want) < 1e-12, lambda: 'weight %r, expected %r' % (w, want))
                        if diag:
                            ws = [float(sympy.sympify(u).subs(sub)) for u in p.weights()]
                            for u, d, m1, c1 in zip(ws, ds, mu, np.diag(c)):
                                v = math.exp(-.5*(PTS[d] - m1)**2/c1)/math.sqrt(2*math.pi*c1)
                                ctx.check(abs(u - v) < 1e-12, 'weights: %r, expected %r' % (u, v))
                        else:
                            for f in (lambda: p.weights(), lambda: p.project(ds[:1]), lambda: hm.Position.tensorize([p, p])):
                                try:
                                    r = f()
                                except Exception:
                                    continue
                                ctx.fail('operation on a non-diagonal position accepted: %r' % r)
                        ctx.trace()
                    ctx.guard('Position %s %s' % (name, kw), body)


def run_quad(ctx, task):
    """Products and projections of quadratures for every partition of 3 directions."""
    ftexts = {0: 'exp(-x0**2/4)', 1: 'exp(-x1/3)', 2: 'cosh(x2)', 3: '1', 4: 'exp(x4/5)'}
    for types in itertools.product('hf', repeat=3):
        for dirs in ([0, 1, 2], [0, 2, 4], [1, 3, 4]):
            q1 = {}
            for t, d in zip(types, dirs):
                data = DATA[d]
                if t == 'h':
                    q1[d] = hm.Quad.gauss_hermite(5, dirs=[d], mean=[data[0]], cov=[[data[1]]], factor=ftexts[d])
                else:
                    q1[d] = hm.Quad.fourier(5, dirs=[d], factor=ftexts[d],
                                            bounds=[(data[0] - math.pi*data[1], data[0] + math.pi*data[1])])
            raw = {d: (q.nodes[0].copy(), q.weights[0].copy(), q.position.mean[0], q.position.cov[0][0],
                       q.position.types[0]) for d, q in q1.items()}

            def same(q, ds):
                p = q.position
                if list(p.dirs) != list(ds) or list(p.types) != [raw[d][4] for d in ds]:
                    return 'position %r' % p
                if not np.allclose(p.mean, [raw[d][2] for d in ds]) or \
                        not np.allclose(p.cov, np.diag([raw[d][3] for d in ds])):
                    return 'position %r' % p
                for i, d in enumerate(ds):
                    if not np.array_equal(q.nodes[i], raw[d][0]) or not np.array_equal(q.weights[i], raw[d][1]):
                        return 'nodes or weights of direction %s' % d
                if q.do_fourier != [int(raw[d][4] == F) for d in ds]:
                    return 'do_fourier %s' % q.do_fourier
                if not np.allclose(factor_values(q.factor.sym, ds), factor_values('*'.join(ftexts[d] for d in ds), ds)):
                    return 'factor %s' % q.factor
                return None
            for perm in itertools.permutations(dirs):
                def body():
                    q = hm.Quad.tensorize([q1[d] for d in perm])
                    ctx.step()
                    ctx.state()
                    bad = same(q, dirs)
                    ctx.check(bad is None, 'tensorize: %s' % bad)
                    q2 = q1[perm[0]]*q1[perm[1]]*q1[perm[2]]
                    bad = same(q2, dirs)
                    ctx.check(bad is None, '*: %s' % bad)
                    ctx.check(q == q2, 'products are not equal')
                    if perm != tuple(dirs):
                        return
                    for ds in ref.subsets(dirs, 1):
                        ds = sorted(ds)
                        ctx.step()
                        pr = q.project(list(ds))
                        bad = same(pr, ds)
                        ctx.check(bad is None, 'project %s: %s' % (ds, bad))
                        rest = [d for d in dirs if d not in ds]
                        if rest:
                            back = q.project(rest)*pr
                            bad = same(back, dirs)
                            ctx.check(bad is None, 'project %s times project %s: %s' % (rest, ds, bad))
                        ctx.trace()
                    for d in dirs:
                        bad = same(q.project(d), [d])
                        ctx.check(bad is None, 'project %s: %s' % (d, bad))
                        ctx.check(same(q1[d], [d]) is None, 'operand modified')
                    c = ref.generic(7, 2)
                    s = q.project(dirs[0]).series(c, index_set='triangle')
                    ctx.check(s.degree == 6 and np.array_equal(s.coeffs, ref.generic(7, 2)), 'series')
                ctx.guard('quadratures %s in %s, order %s' % (types, dirs, perm), body)


# ----------------------------------------------------------------- tasks

def tasks(tier):
    out = []
    for name in ROOTS:
        for kind in ref.SETS:
            slow = (name, kind) in SLOW
            if tier == 'quick':
                if slow:
                    out.append({'what': 'bfs', 'root': name, 'kind': kind, 'depth': 1, 'first': None})
                else:
                    out += [{'what': 'bfs', 'root': name, 'kind': kind, 'depth': 2, 'first': [i, 2]} for i in range(2)]
            else:
                n = 16
                out += [{'what': 'bfs', 'root': name, 'kind': kind, 'depth': 2 if slow else 3, 'first': [i, n]}
                        for i in range(n)]
    out += [{'what': 'position', 'first': i} for i in range(len(PMENU))]
    out += [{'what': 'equality'}, {'what': 'components', 'dim': 1}, {'what': 'components', 'dim': 2}, {'what': 'components', 'dim': 3}, {'what': 'general'}, {'what': 'quad'}]
    return out[::-1]


def run_task(ctx, task):
    w = task['what']
    if w == 'bfs':
        search(ctx, task['root'], task['kind'], task['depth'], task['first'])
    elif w == 'position':
        run_position(ctx, task['first'])
    elif w == 'equality':
        run_equality(ctx)
    elif w == 'components':
        run_components(ctx, task['dim'])
    elif w == 'general':
        run_general(ctx)
    else:
        run_quad(ctx, task)
