"""C16: invalid arguments raise exceptions, never end the process, and do not affect later calls.

Runs on the monitored build (AddressSanitizer, UBSan, container checks), so that an invalid call that reads out of
bounds instead of raising ends the process and is reported."""
import itertools
import os

import numpy as np
import scipy.sparse as ss

import c15
import ref

VARIANT = 'asan'
ENV = c15.ENV

MEANING = ('states = distinct invalid calls; transitions = calls executed (invalid ones and the valid probes after them); '
           'traces = histories (one or two invalid calls, then all valid probes) whose probes gave the right results')
BOUNDS = {'quick': 'every single-argument corruption of every core function (5 index sets, dim 1..3) and of the object-level calls, each '
                   'followed by 9 valid probes; all ordered pairs of representatives (one per function and kind of corruption), each pair '
                   'followed by the probes',
          'thorough': 'the same with degrees 0..4, and all ordered triples of representatives of the core functions'}
ASSUMPTIONS = ['any Python exception is accepted as a refusal',
               'arguments of a wrong Python type are included only where the call could be mistaken for a valid one']

KINDS = ref.SETS


def setup(ctx):
    os.environ.pop('LD_PRELOAD', None)
    global hm, core, cpp, sympy
    import sympy
    import hermipy as hm
    import hermipy.core as core
    import hermite_cpp as cpp
    settings = __import__('sys').modules['hermipy.settings'].settings
    settings['cache'] = False
    if '/asan-' not in cpp.__file__:
        raise RuntimeError('not the monitored build')
    global PROBES
    PROBES = make_probes()
    for name, fn, want in PROBES:
        got = fn()
        if not ref.close(got, want):
            ctx.fail('probe %s is wrong before any invalid call' % name)


# ------------------------------------------------------------------ valid probes

def make_probes():
    nodes = [np.array([-1., .5, 2.]), np.array([.25, 1.])]
    weights = [np.array([.2, .5, .3]), np.array([.4, .6])]
    grid = ref.grid(nodes)
    f = grid[:, 0]**2 - grid[:, 1]
    w = ref.grid_weights(weights)
    inds = [[0, 0], [1, 0], [0, 1], [2, 0], [1, 1], [0, 2]]
    tri = [tuple(m) for m in core.iterator_list_indices(2, 2)]
    V = ref.vandermonde([list(m) for m in tri], grid, [0, 0])
    out = [('integrate', lambda: core.integrate(f, nodes, weights), float(np.dot(f, w))),
           ('transform', lambda: core.transform(2, f, nodes, weights, True), V.T @ (f*w)),
           ('inverse transform', lambda: core.transform(2, np.arange(1., 7.), nodes, weights, False), V @ np.arange(1., 7.)),
           ('discretize', lambda: core.discretize('v[0]*v[0] - v[1]', nodes, [0., 0.], [[1., 0.], [0., 1.]]), f),
           ('size', lambda: core.iterator_size(3, 3, index_set='cross'), len(ref.index_set('cross', 3, 3))),
           ('project', lambda: core.project(np.arange(1., 7.), 2, [0]),
            [1. + tri.index((k, 0)) for k in range(3)]),
           ('tensorize', lambda: core.tensorize(np.array([2., 3., 5.]), 2, 1, index_set='cube'),
            [{0: 2., 1: 3., 2: 5.}[m[1]]*(m[0] == 0) for m in map(tuple, core.iterator_list_indices(2, 2, index_set='cube'))]),
           ('varf', lambda: core.varf(1, np.ones(3), [np.array([-3**.5, 0, 3**.5])], [np.array([1/6, 2/3, 1/6])]), np.eye(2)),
           ('object', lambda: (hm.Quad.gauss_hermite(3, dim=2).transform('x0*x1', 2, tensorize=False)).coeffs,
            [float(m == (1, 1)) for m in tri])]
    del inds
    return out


def probe(ctx):
    for name, fn, want in PROBES:
        ctx.step()
        try:
            got = fn()
        except Exception as e:
            ctx.fail('a valid call (%s) fails afterwards: %s: %s' % (name, type(e).__name__, e))
            return False
        if not ref.close(np.asarray(got, float), np.asarray(want, float)):
            ctx.fail('a valid call (%s) is wrong afterwards' % name)
            return False
    ctx.trace()
    return True


# ------------------------------------------------------------------ invalid calls

BAD_SETS = ['', 'foo', 'Triangle', 'triangle ', 'crosses']
NEAR_SETS = BAD_SETS + [' triangle', 'triangl', 'triangles', 'CUBE', 'cub', 'cube\0', 'cubes', 'cros', 'Cross', 'cross_', 'cross_n', 'cross_nc_', 'crossnc',
                        'cross-nc', 'rect', 'rectangle ', 'rectangles', 't', 'c', 'r', 'default', 'None', None, 0]


def sizes(kind, dim, top=12):
    return {len(ref.index_set(kind, dim, d)): d for d in range(ref.min_degree(kind), top)}


def base(dim, kind, degree):
    n = [2 + (i % 2) for i in range(dim)]
    nodes = [ref.generic(k, i + 1) for i, k in enumerate(n)]
    weights = [np.abs(ref.generic(k, i + 5)) + .1 for i, k in enumerate(n)]
    return n, nodes, weights, int(np.prod(n)), len(ref.index_set(kind, dim, degree))


def core_calls(dim, kind, degree):
    """(function, corruption, thunk) for every single-argument corruption."""
    n, nodes, weights, npts, npol = base(dim, kind, degree)
    f = ref.generic(npts, 2)
    c = ref.generic(npol, 3)
    ok = sizes(kind, dim)
    bad_sizes = [s for s in range(0, npol + 4) if s not in ok]
    # --- transform
    T = lambda d=degree, g=f, x=nodes, w=weights, fw=True, four=None, k=kind: \
        core.transform(d, g, x, w, fw, do_fourier=four, index_set=k)
    for b in BAD_SETS:
        yield 'transform', 'set', (dim, kind, degree, b), lambda b=b: T(k=b)
    for delta in (-1, 1, npts):
        yield 'transform', 'grid size', (dim, kind, degree, delta), lambda delta=delta: T(g=ref.generic(npts + delta, 2))
        if npol + delta > 0:
            yield 'transform', 'coefficients size', (dim, kind, degree, delta), \
                lambda delta=delta: T(g=ref.generic(npol + delta, 2), fw=False)
    for i in range(dim):
        for delta in (-1, 1):
            w2 = [np.resize(x, len(x) + delta) if j == i else x for j, x in enumerate(weights)]
            x2 = [np.resize(x, len(x) + delta) if j == i else x for j, x in enumerate(nodes)]
            for fw, g in ((True, f), (False, c)):
                yield 'transform', 'weights size', (dim, kind, degree, i, delta, fw), \
                    lambda w2=w2, g=g, fw=fw: T(g=g, w=w2, fw=fw)
                yield 'transform', 'nodes size', (dim, kind, degree, i, delta, fw), \
                    lambda x2=x2, g=g, fw=fw: T(g=g, x=x2, fw=fw)
    yield 'transform', 'weights directions', (dim, kind, degree, '+'), lambda: T(w=weights + [weights[0]])
    if dim > 1:
        yield 'transform', 'weights directions', (dim, kind, degree, '-'), lambda: T(w=weights[:-1])
        yield 'transform', 'nodes directions', (dim, kind, degree, '-'), lambda: T(x=nodes[:-1])
        yield 'transform', 'fourier mask size', (dim, kind, degree, '-'), lambda: T(four=[0]*(dim - 1))
    yield 'transform', 'nodes directions', (dim, kind, degree, '+'), lambda: T(x=nodes + [nodes[0]])
    if degree % 2:
        for i in range(dim):
            m = [int(j == i) for j in range(dim)]
            for fw, g in ((True, f), (False, c)):
                yield 'transform', 'odd Fourier degree', (dim, kind, degree, i, fw), lambda m=m, g=g, fw=fw: T(g=g, four=m, fw=fw)
            for sp in (False, True):
                yield 'varf', 'odd Fourier degree', (dim, kind, degree, i, sp), \
                    lambda m=m, sp=sp: core.varf(degree, f, nodes, weights, sparse=sp, do_fourier=m, index_set=kind)
            if max(m[i] for m in ref.index_set(kind, dim, degree)) % 2:
                yield 'varfd', 'odd Fourier degree', (dim, kind, degree, i), \
                    lambda i=i: core.varfd(dim, degree, i, np.eye(npol), do_fourier=1, index_set=kind)
    for d in (-1, -2**31, 2**32):
        yield 'transform', 'degree', (dim, kind, degree, d), lambda d=d: T(d=d)
        yield 'iterator_size', 'degree', (dim, kind, d), lambda d=d: core.iterator_size(dim, d, index_set=kind)
        yield 'iterator_list_indices', 'degree', (dim, kind, d), lambda d=d: core.iterator_list_indices(dim, d, index_set=kind)
    if 'cross' in kind:
        for name, fn in (('iterator_size', core.iterator_size), ('iterator_list_indices', core.iterator_list_indices)):
            yield name, 'degree', (dim, kind, 0), lambda fn=fn: fn(dim, 0, index_set=kind)
        yield 'transform', 'degree', (dim, kind, 0), lambda: T(d=0)
    # --- names of index sets, for every function that takes one
    if degree == 1:
        u = list(range(dim))
        uni, sq = ref.generic(len(ref.index_set(kind, 1, 1)), 1), np.eye(npol)
        small = np.eye(len(uni))
        fns = {'transform': lambda b: T(k=b), 'transform back': lambda b: T(g=c, fw=False, k=b),
               'varf': lambda b: core.varf(degree, f, nodes, weights, index_set=b),
               'varf sparse': lambda b: core.varf(degree, f, nodes, weights, sparse=True, index_set=b),
               'varfd': lambda b: core.varfd(dim, degree, 0, sq, index_set=b),
               'varfd sparse': lambda b: core.varfd(dim, degree, 0, ss.csr_matrix(sq), index_set=b),
               'project': lambda b: core.project(c, dim, [0], index_set=b),
               'project all': lambda b: core.project(c, dim, u, index_set=b),
               'project matrix': lambda b: core.project(sq, dim, [0], index_set=b),
               'project sparse': lambda b: core.project(ss.csr_matrix(sq), dim, [0], index_set=b),
               'inner': lambda b: core.inner(c, c, u, u, index_set=b),
               'inner disjoint': lambda b: core.inner(uni, uni, [0], [1], index_set=b),
               'tensorize': lambda b: core.tensorize(uni, dim, 0, index_set=b),
               'tensorize matrix': lambda b: core.tensorize(small, dim, 0, index_set=b),
               'tensorize sparse': lambda b: core.tensorize(small, dim, 0, sparse=True, index_set=b),
               'tensorize list': lambda b: core.tensorize([uni]*dim, index_set=b),
               'tensorize list of matrices': lambda b: core.tensorize([small]*dim, index_set=b),
               'tensorize list sparse': lambda b: core.tensorize([small]*dim, sparse=True, index_set=b),
               'tensorize dict': lambda b: core.tensorize({frozenset([k]): uni for k in u}, index_set=b),
               'tensorize dict of matrices': lambda b: core.tensorize({frozenset([k]): small for k in u}, index_set=b),
               'tensorize dict sparse': lambda b: core.tensorize({frozenset([k]): small for k in u}, sparse=True, index_set=b),
               'Series': lambda b: hm.Series(c, hm.Position(dim=dim), index_set=b),
               'Varf': lambda b: hm.Varf(sq, hm.Position(dim=dim), index_set=b),
               'iterator_size': lambda b: core.iterator_size(dim, degree, index_set=b),
               'iterator_list_indices': lambda b: core.iterator_list_indices(dim, degree, index_set=b),
               'iterator_get_degree': lambda b: core.iterator_get_degree(dim, npol, index_set=b),
               'iterator_index': lambda b: core.iterator_index([0]*dim, index_set=b)}
        for name, fn in fns.items():
            fn(kind) if name != 'iterator_index' or kind in ('triangle', 'cube') else None     # valid otherwise
            for b in NEAR_SETS:
                yield name, 'name of the index set', (dim, kind, degree, b), lambda fn=fn, b=b: fn(b)
    # --- integrate
    I = lambda g=f, x=nodes, w=weights, four=None: core.integrate(g, x, w, do_fourier=four)
    if kind == 'triangle':
        for delta in (-1, 1):
            yield 'integrate', 'grid size', (dim, delta), lambda delta=delta: I(g=ref.generic(npts + delta, 2))
            for i in range(dim):
                w2 = [np.resize(x, len(x) + delta) if j == i else x for j, x in enumerate(weights)]
                x2 = [np.resize(x, len(x) + delta) if j == i else x for j, x in enumerate(nodes)]
                yield 'integrate', 'weights size', (dim, i, delta), lambda w2=w2: I(w=w2)
                yield 'integrate', 'nodes size', (dim, i, delta), lambda x2=x2: I(x=x2)
        yield 'integrate', 'weights directions', (dim, '+'), lambda: I(w=weights + [weights[0]])
        if dim > 1:
            yield 'integrate', 'weights directions', (dim, '-'), lambda: I(w=weights[:-1])
            yield 'integrate', 'nodes directions', (dim, '-'), lambda: I(x=nodes[:-1])
            yield 'integrate', 'fourier mask size', (dim, '-'), lambda: I(four=[0]*(dim - 1))
        # --- discretize
        eye = np.eye(dim).tolist()
        D = lambda t='v[0]', x=nodes, m=[0.]*dim, s=eye: core.discretize(t, x, m, s)
        for t in ('v[0', 'foo(v[0])', 'x0 +', '1;;}', 'return', 'v[0] v[0]', '"', '#error', '\n#include "nofile"\n'):
            yield 'discretize', 'text', (dim, t), lambda t=t: D(t=t)
        for delta in (-1, 1):
            if dim + delta > 0:
                yield 'discretize', 'translation size', (dim, delta), lambda delta=delta: D(m=[0.]*(dim + delta))
                yield 'discretize', 'dilation size', (dim, delta), lambda delta=delta: D(s=np.eye(dim + delta).tolist())
        if dim > 1:
            for i in range(dim):
                ragged = [list(r) for r in eye]
                ragged[i] = ragged[i][:-1]
                yield 'discretize', 'dilation rows', (dim, i), lambda ragged=ragged: D(s=ragged)
    # --- varf
    for sp in (False, True):
        V = lambda d=degree, g=f, x=nodes, w=weights, four=None, k=kind, sp=sp: \
            core.varf(d, g, x, w, sparse=sp, do_fourier=four, index_set=k)
        for b in BAD_SETS[:3]:
            yield 'varf', 'set', (dim, kind, degree, b, sp), lambda b=b, V=V: V(k=b)
        for delta in (-1, 1):
            yield 'varf', 'grid size', (dim, kind, degree, delta, sp), lambda delta=delta, V=V: V(g=ref.generic(npts + delta, 2))
            for i in range(dim):
                w2 = [np.resize(x, len(x) + delta) if j == i else x for j, x in enumerate(weights)]
                yield 'varf', 'weights size', (dim, kind, degree, i, delta, sp), lambda w2=w2, V=V: V(w=w2)
        yield 'varf', 'degree', (dim, kind, -1, sp), lambda V=V: V(d=-1)
        if dim > 1:
            yield 'varf', 'weights directions', (dim, kind, degree, sp), lambda V=V: V(w=weights[:-1])
            yield 'varf', 'fourier mask size', (dim, kind, degree, sp), lambda V=V: V(four=[0]*(dim - 1))
        # --- varfd
        mk = (lambda s: ss.csr_matrix(np.eye(s))) if sp else (lambda s: np.eye(s))
        VD = lambda d=degree, i=0, s=npol, k=kind, n=dim, mk=mk: core.varfd(n, d, i, mk(s), index_set=k)
        for b in BAD_SETS[:3]:
            yield 'varfd', 'set', (dim, kind, degree, b, sp), lambda b=b, VD=VD: VD(k=b)
        for i in (dim, dim + 1, -1, 2**32):
            yield 'varfd', 'direction', (dim, kind, degree, i, sp), lambda i=i, VD=VD: VD(i=i)
        for s in (npol - 1, npol + 1, 2*npol):
            if s > 0:
                yield 'varfd', 'matrix size', (dim, kind, degree, s, sp), lambda s=s, VD=VD: VD(s=s)
        rect = (lambda a, b: ss.csr_matrix(np.ones((a, b)))) if sp else (lambda a, b: np.ones((a, b)))
        for a, b in ((npol, npol + 1), (npol, max(1, npol - 1)), (npol + 1, npol)):
            if a != b:
                yield 'varfd', 'matrix shape', (dim, kind, degree, a - npol, b - npol, sp), \
                    lambda a=a, b=b, rect=rect: core.varfd(dim, degree, 0, rect(a, b), index_set=kind)
        yield 'varfd', 'dimension', (dim, kind, degree, sp), lambda VD=VD: VD(n=0)
        # --- project matrices
        P = lambda s=npol, n=dim, dirs=[0], k=kind, mk=mk: core.project(mk(s), n, dirs, index_set=k)
        for s in bad_sizes:
            if s > 0:
                yield 'project matrix', 'size', (dim, kind, s, sp), lambda s=s, P=P: P(s=s)
        for dirs in ([dim], [0, dim + 1], [-1]):
            yield 'project matrix', 'direction', (dim, kind, degree, tuple(dirs), sp), lambda dirs=dirs, P=P: P(dirs=dirs)
        yield 'project matrix', 'set', (dim, kind, degree, sp), lambda P=P: P(k='foo')
        if npol > 1:
            yield 'project matrix', 'shape', (dim, kind, degree, '-', sp), \
                lambda rect=rect: core.project(rect(npol, npol - 1), dim, [0], index_set=kind)
            yield 'project matrix', 'shape', (dim, kind, degree, '+', sp), \
                lambda rect=rect: core.project(rect(npol, npol + 1), dim, [0], index_set=kind)
    # --- project, inner, tensorize of vectors
    for s in bad_sizes:
        if s > 0:
            v = ref.generic(s, 1)
            yield 'project', 'size', (dim, kind, s), lambda v=v: core.project(v, dim, [0], index_set=kind)
            yield 'inner', 'size', (dim, kind, s), \
                lambda v=v: core.inner(v, c, list(range(dim)), list(range(dim)), index_set=kind)
            yield 'inner', 'size', (dim, kind, s, 'second'), \
                lambda v=v: core.inner(c, v, list(range(dim)), list(range(dim)), index_set=kind)
        yield 'iterator_get_degree', 'size', (dim, kind, s), lambda s=s: core.iterator_get_degree(dim, s, index_set=kind)
        yield 'Series', 'size', (dim, kind, s), lambda s=s: hm.Series(np.ones(s), hm.Position(dim=dim), index_set=kind)
        if s > 0:
            yield 'Varf', 'size', (dim, kind, s), lambda s=s: hm.Varf(np.eye(s), hm.Position(dim=dim), index_set=kind)
            yield 'Varf', 'size', (dim, kind, s, 'sparse'), \
                lambda s=s: hm.Varf(ss.csr_matrix(np.eye(s)), hm.Position(dim=dim), index_set=kind)
    if npol > 1:
        yield 'Varf', 'shape', (dim, kind, degree, '+'), \
            lambda: hm.Varf(np.ones((npol, npol + 1)), hm.Position(dim=dim), index_set=kind)
        yield 'Varf', 'shape', (dim, kind, degree, '-'), \
            lambda: hm.Varf(np.ones((npol, npol - 1)), hm.Position(dim=dim), index_set=kind)
    for dirs in ([dim], [0, dim + 1], [-1]):
        yield 'project', 'direction', (dim, kind, degree, tuple(dirs)), lambda dirs=dirs: core.project(c, dim, dirs, index_set=kind)
    yield 'project', 'set', (dim, kind, degree), lambda: core.project(c, dim, [0], index_set='foo')
    yield 'inner', 'set', (dim, kind, degree), \
        lambda: core.inner(c, c, list(range(dim)), list(range(dim)), index_set='foo')
    big = ref.generic(len(ref.index_set(kind, dim, degree + 2)), 1)
    yield 'inner', 'degrees differ', (dim, kind, degree), \
        lambda: core.inner(c, big, list(range(dim)), list(range(dim)), index_set=kind)
    yield 'inner', 'directions', (dim, kind, degree, 'more'), \
        lambda: core.inner(c, c, list(range(dim + 1)), list(range(dim)), index_set=kind) \
        if npol not in sizes(kind, dim + 1) else (_ for _ in ()).throw(ValueError('valid'))
    one = len(ref.index_set(kind, 1, degree))
    v1 = ref.generic(one, 1)
    for i in (dim, -1, dim + 3):
        yield 'tensorize', 'direction', (dim, kind, degree, i), lambda i=i: core.tensorize(v1, dim, i, index_set=kind)
        yield 'tensorize matrix', 'direction', (dim, kind, degree, i), \
            lambda i=i: core.tensorize(np.eye(one), dim, i, index_set=kind)
    yield 'tensorize', 'set', (dim, kind, degree), lambda: core.tensorize(v1, dim, 0, index_set='foo')
    yield 'tensorize matrix', 'set', (dim, kind, degree), lambda: core.tensorize(np.eye(one), dim, 0, index_set='foo')
    yield 'tensorize', 'dimension', (dim, kind, degree), lambda: core.tensorize(v1, 0, 0, index_set=kind)
    if one > 1:
        yield 'tensorize matrix', 'shape', (dim, kind, degree), \
            lambda: core.tensorize(np.ones((one, one - 1)), dim, 0, index_set=kind)
        yield 'tensorize list', 'sizes differ', (dim, kind, degree), \
            lambda: core.tensorize([v1, ref.generic(one + 1, 2)], index_set=kind)
        yield 'tensorize list of matrices', 'sizes differ', (dim, kind, degree), \
            lambda: core.tensorize([np.eye(one), np.eye(one + 1)], index_set=kind)
    yield 'tensorize dict', 'direction missing', (dim, kind, degree), \
        lambda: core.tensorize({frozenset([0]): v1, frozenset([2]): v1}, index_set=kind)
    yield 'tensorize dict', 'sizes differ', (dim, kind, degree), \
        lambda: core.tensorize({frozenset([0]): v1, frozenset([1]): ref.generic(len(ref.index_set(kind, 1, degree + 1)), 2)},
                               index_set=kind)
    for sp in (False, True):
        yield 'tensorize dict of matrices', 'sizes differ', (dim, kind, degree, sp), \
            lambda sp=sp: core.tensorize({frozenset([0]): np.eye(one),
                                          frozenset([1]): np.eye(len(ref.index_set(kind, 1, degree + 1)))}, sparse=sp, index_set=kind)
    # --- iterators
    for b in BAD_SETS:
        for name, fn, a in (('iterator_size', core.iterator_size, (dim, degree)),
                            ('iterator_list_indices', core.iterator_list_indices, (dim, degree)),
                            ('iterator_get_degree', core.iterator_get_degree, (dim, npol))):
            yield name, 'set', (dim, kind, degree, b), lambda fn=fn, a=a, b=b: fn(*a, index_set=b)
        yield 'iterator_index', 'set', (dim, kind, b), lambda b=b: core.iterator_index([0]*dim, index_set=b)
    for m in ([-1]*dim, [2**33]*dim):
        yield 'iterator_index', 'multi-index', (dim, kind, tuple(m)), \
            lambda m=m: core.iterator_index(m, index_set=kind if kind in ('triangle', 'cube') else 'triangle')
    for n in (-1, -2):
        for name, fn in (('iterator_size', core.iterator_size), ('iterator_list_indices', core.iterator_list_indices),
                         ('iterator_get_degree', core.iterator_get_degree)):
            yield name, 'dimension', (kind, n), lambda fn=fn, n=n: fn(n, max(1, degree), index_set=kind)


def object_calls():
    Q, P, S, V, F, O = hm.Quad, hm.Position, hm.Series, hm.Varf, hm.Function, hm.Operator
    q1 = lambda **k: Q.gauss_hermite(4, dim=1, **k)
    q2 = lambda **k: Q.gauss_hermite(4, dim=2, **k)
    x, y = sympy.symbols('x y', real=True)
    f = sympy.Function('f')
    out = []

    def add(fn, why, key, thunk):
        out.append((fn, why, key, thunk))
    # positions
    for key, kw in {'mean': dict(dim=2, mean=[0.]), 'cov': dict(dim=2, cov=[[1.]]), 'cov shape': dict(dim=2, cov=[[1., 0., 0.], [0., 1., 0.]]),
                    'dirs': dict(dim=2, dirs=[0]), 'types': dict(dim=2, types=['hermite']), 'mean/cov': dict(mean=[0., 0.], cov=[[1.]]),
                    'nothing': {}, 'mean/dirs': dict(mean=[0.], dirs=[0, 1])}.items():
        add('Position', 'sizes', key, lambda kw=kw: P(**kw))
    for key, d in {'range': [7], 'range2': [0, 5], 'order': [1, 0], 'twice': [0, 0], 'other': [2]}.items():
        add('Position.project', 'directions', key, lambda d=d: P(dim=2).project(d))
        add('Quad.project', 'directions', key, lambda d=d: q2().project(d))
        add('Series.project', 'directions', key, lambda d=d: q2().transform('x', 2).project(d))
        add('Varf.project', 'directions', key, lambda d=d: q2().varf('x', 2).project(d))
    add('Position.project', 'non-diagonal', 0, lambda: P(dim=2, cov=[[1., .5], [.5, 1.]]).project([0]))
    add('Series.project', 'non-diagonal', 0, lambda: q2(cov=[[1., .5], [.5, 1.]]).transform('x', 2).project([0]))
    add('Varf.project', 'non-diagonal', 0, lambda: q2(cov=[[1., .5], [.5, 1.]]).varf('x', 2).project([0]))
    # quadratures
    add('Quad.fourier', 'sizes', 'bounds', lambda: Q.fourier(4, dirs=[0, 1], bounds=[(0, 1)]))
    add('Quad.fourier', 'sizes', 'dirs', lambda: Q.fourier([4, 4], dirs=[0]))
    add('Quad.gauss_hermite', 'sizes', 'mean', lambda: q2(mean=[0.]))
    add('Quad.gauss_hermite', 'sizes', 'cov', lambda: q2(cov=[[1.]]))
    add('Quad.gauss_hermite', 'factor', 'variable', lambda: q1(factor='exp(y)'))
    add('Quad.gauss_hermite', 'factor', 'text', lambda: q1(factor='exp('))
    # functions
    for key, t in {'other variable': 'z', 'parameter': 'a*x', 'unknown function': 'foo(x)', 'syntax': 'x +', 'empty': ''}.items():
        for fn in ('discretize', 'integrate'):
            add('Quad.' + fn, 'function', key, lambda fn=fn, t=t: getattr(q2(), fn)(t))
        add('Quad.transform', 'function', key, lambda t=t: q2().transform(t, 2))
        add('Quad.varf', 'function', key, lambda t=t: q2().varf(t, 2))
        add('Quad.varfd', 'function', key, lambda t=t: q2().varfd(t, 2, [0]))
    for sz in (1, 15, 17):
        a = np.ones(sz)
        add('Quad.integrate', 'array', sz, lambda a=a: q2().integrate(a))
        if sz > 1:      # numpy spreads an array of one value over the grid
            add('Quad.transform', 'array', sz, lambda a=a: q2().transform(a, 2))
        add('Quad.varf', 'array', sz, lambda a=a: q2().varf(a, 2))
    for k in BAD_SETS[:3]:
        add('Quad.transform', 'set', k, lambda k=k: q2().transform('x', 2, index_set=k))
        add('Quad.varf', 'set', k, lambda k=k: q2().varf('x', 2, index_set=k))
        add('Quad.varfd', 'set', k, lambda k=k: q2().varfd('x', 2, [0], index_set=k))
        add('Quad.discretize_op', 'set', k, lambda k=k: q2().discretize_op(f(x, y).diff(x), 2, index_set=k))
        add('Series', 'set', k, lambda k=k: S(np.ones(6), P(dim=2), index_set=k))
        add('Varf', 'set', k, lambda k=k: V(np.eye(6), P(dim=2), index_set=k))
    for d in (-1, 2.5, None, 'two'):
        add('Quad.varf', 'degree', d, lambda d=d: q2().varf('x', d))
        add('Quad.transform', 'degree', d if d != 2.5 else 'no', lambda d=d: q2().transform('x', d if d != 2.5 else 'no'))
        add('Quad.discretize_op', 'degree', d, lambda d=d: q2().discretize_op(f(x, y).diff(x), d))
    for d in (1, 3):
        for fn in ('transform', 'varf'):
            add('Quad.' + fn, 'odd Fourier degree', d, lambda fn=fn, d=d: getattr(Q.fourier(8, dirs=[0]), fn)('cos(x)', d))
        add('Quad.discretize_op', 'odd Fourier degree', d, lambda d=d: Q.fourier(8, dirs=[0]).discretize_op(f(x).diff(x), d))
    for d in ([2], [0, 5], [-1]):
        add('Quad.varfd', 'directions', tuple(d), lambda d=d: q2().varfd('x', 2, d))
        add('Quad.varfd', 'directions', tuple(d) + ('tensorize',), lambda d=d: q2().varfd('x', 2, d, tensorize=True))
    for key, e in {'directions': f(x), 'more directions': f(x, y, sympy.Symbol('z', real=True)), 'order': f(y, x).diff(x),
                   'two functions': f(x, y) + sympy.Function('g')(x, y), 'no function': x*y,
                   'variable': f(x, y)*sympy.Symbol('z', real=True), 'order 6': f(x, y).diff(x, 6)}.items():
        add('Quad.discretize_op', 'operator', key, lambda e=e: q2().discretize_op(e, 2))
    for n in (0, 3, 'inf'):
        add('Quad.norm', 'order', n, lambda n=n: q2().norm('x', n=n))
        add('Quad.norm', 'order', (n, 'flat'), lambda n=n: q2().norm('x', n=n, flat=True))
    # evaluation
    s2 = lambda: q2().transform('x*y', 2)
    add('Quad.eval', 'position', 'fewer directions', lambda: q1().eval(s2()))
    add('Quad.eval', 'position', 'more directions', lambda: q2().eval(q1().transform('x', 2)))
    add('Quad.eval', 'position', 'other directions', lambda: Q.gauss_hermite(4, dirs=[1]).eval(q1().transform('x', 2)))
    add('Quad.eval', 'position', 'other directions 2', lambda: Q.gauss_hermite(4, dirs=[0, 2]).eval(s2()))
    add('Quad.eval', 'covariance', 0, lambda: q2(cov=[[1., .5], [.5, 1.]]).eval(s2()))
    add('Quad.integrate', 'series of other directions', 0, lambda: Q.gauss_hermite(4, dirs=[1]).integrate(q1().transform('x', 2)))
    # series and matrices
    pairs = {'directions': lambda: Q.gauss_hermite(4, dirs=[0, 2]), 'mean': lambda: q2(mean=[0., 1.]), 'cov': lambda: q2(cov=[[1., 0.], [0., 2.]]),
             'factor': lambda: q2(factor='exp(-x**2/8)'), 'dimension': lambda: q1(), 'type': lambda: Q.fourier(8, dirs=[0, 1])}
    for key, mk in pairs.items():
        d0 = 'x'
        s = lambda: q2().transform(d0, 2, tensorize=False)
        t = lambda mk=mk: mk().transform('cos(x)', 2, tensorize=False)
        v = lambda: q2().varf(d0, 2, tensorize=False)
        w = lambda mk=mk: mk().varf('cos(x)', 2, tensorize=False)
        add('Series +', 'mismatch', key, lambda s=s, t=t: s() + t())
        add('Series -', 'mismatch', key, lambda s=s, t=t: s() - t())
        add('Varf +', 'mismatch', key, lambda v=v, w=w: v() + w())
        add('Varf()', 'mismatch', key, lambda v=v, t=t: v()(t()))
        add('Varf.solve', 'mismatch', key, lambda v=v, t=t: v().solve(t()))
    add('Series +', 'mismatch', 'degree', lambda: s2() + q2().transform('x', 3))
    add('Series +', 'mismatch', 'set', lambda: s2() + q2().transform('x', 2, index_set='cube'))
    add('Varf +', 'mismatch', 'degree', lambda: q2().varf('x', 2) + q2().varf('x', 1))
    add('Varf +', 'mismatch', 'set', lambda: q2().varf('x', 2) + q2().varf('x', 2, index_set='cube'))
    add('Varf()', 'mismatch', 'degree', lambda: q2().varf('x', 2)(q2().transform('x', 3)))
    add('Varf()', 'mismatch', 'set', lambda: q2().varf('x', 2)(q2().transform('x', 2, index_set='cube')))
    add('Varf.solve', 'mismatch', 'degree', lambda: q2().varf('2+x', 2).solve(q2().transform('x', 3)))
    add('Varf.solve', 'mismatch', 'set', lambda: q2().varf('2+x', 2).solve(q2().transform('x', 2, index_set='cube')))
    add('Varf.subdegree', 'degree', 'too high', lambda: q2().varf('x', 2).subdegree(3))
    for k in ('cross_nc',):
        add('Varf.subdegree', 'set', k, lambda k=k: q2().varf('x', 3, index_set=k).subdegree(2))
        add('Series.subdegree', 'set', k, lambda k=k: q2().transform('x', 3, index_set=k).subdegree(2))
    for d in (2, 3):
        add('Series.to_cross', 'degree', d, lambda d=d: q2().transform('x', 2).to_cross(d))
        add('Varf.to_cross', 'degree', d, lambda d=d: q2().varf('x', 2).to_cross(d))
    add('Series.to_cross', 'set', 'cube', lambda: q2().transform('x', 4, index_set='cube').to_cross(2))
    add('Varf.to_cross', 'set', 'cube', lambda: q2().varf('x', 4, index_set='cube').to_cross(2))
    add('Series.to_function', 'type', 'fourier', lambda: Q.fourier(8, dirs=[0]).transform('cos(x)', 2).to_function())
    add('Series.to_function', 'non-diagonal', 0, lambda: q2(cov=[[1., .5], [.5, 1.]]).transform('x', 2).to_function())
    add('Series *', 'mismatch', 'set', lambda: s2()*Q.gauss_hermite(4, dirs=[2]).transform('z', 2, index_set='cube'))
    add('Series *', 'mismatch', 'degree', lambda: s2()*Q.gauss_hermite(4, dirs=[2]).transform('z', 3))
    add('Varf *', 'mismatch', 'set', lambda: q2().varf('x', 2)*Q.gauss_hermite(4, dirs=[2]).varf('z', 2, index_set='cube'))
    add('Varf *', 'mismatch', 'degree', lambda: q2().varf('x', 2)*Q.gauss_hermite(4, dirs=[2]).varf('z', 3))
    add('Varf *', 'mismatch', 'directions', lambda: q2().varf('x', 2)*q1().varf('x', 2))
    add('Quad *', 'mismatch', 'type', lambda: q1()*Q.fourier(4, dirs=[0]))
    add('float', 'dimension', 0, lambda: float(s2()))
    # combinations of quadratures, and arguments of other types
    import hermipy.compquad
    C = hermipy.compquad.CompQuad
    add('CompQuad', 'sizes', 'none', lambda: C([], []))
    add('CompQuad', 'sizes', 'more weights', lambda: C([q1()], [1., 2.]))
    add('CompQuad', 'sizes', 'fewer weights', lambda: C([q1(), q1()], [1.]))
    add('CompQuad', 'positions', 'mean', lambda: C([q1(), q1(mean=[1.])], [1., 1.]))
    add('CompQuad', 'positions', 'dimension', lambda: C([q1(), q2()], [1., 1.]))
    add('CompQuad', 'positions', 'directions', lambda: C([q1(), Q.gauss_hermite(4, dirs=[1])], [1., 1.]))
    add('CompQuad', 'positions', 'third', lambda: C([q1(), q1(), q1(cov=[[2.]])], [1., 1., 1.]))
    others = {'number': 1, 'text': 'x', 'none': None, 'list': [1., 2.], 'array': np.ones(3)}
    things = {'Quad': q2, 'Series': s2, 'Varf': lambda: q2().varf('x', 2), 'CompQuad': lambda: C([q1()], [1.])}
    for key, o in others.items():
        for name, mk in things.items():
            if not (name == 'CompQuad' and key == 'array' or key == 'array'):     # numpy applies == to every entry
                add(name + ' ==', 'type', key, lambda mk=mk, o=o: mk() == o)
        for name, mk in things.items():
            if name in ('Series', 'Varf'):
                if key in ('text', 'none', 'list'):
                    add(name + ' +', 'type', key, lambda mk=mk, o=o: mk() + o)
                    add(name + ' -', 'type', key, lambda mk=mk, o=o: mk() - o)
                    add(name + ' *', 'type', key, lambda mk=mk, o=o: mk()*o)
                    add(name + ' /', 'type', key, lambda mk=mk, o=o: mk()/o)
            elif name == 'Quad' and key != 'array':
                add(name + ' *', 'type', key, lambda mk=mk, o=o: mk()*o)
        if key != 'array':
            add('Position *', 'type', key, lambda o=o: P(dim=1)*o)
            add('Varf()', 'type', key, lambda o=o: q2().varf('x', 2)(o))
            add('Quad.tensorize', 'type', key, lambda o=o: Q.tensorize([o]))
            add('Quad.tensorize', 'type', (key, 'second'), lambda o=o: Q.tensorize([q1(), o]))
            add('Series.tensorize', 'type', key, lambda o=o: S.tensorize([s2(), o]))
            add('Varf.tensorize', 'type', key, lambda o=o: V.tensorize([q2().varf('x', 2), o]))
            add('Varf.tensorize', 'type', (key, 'first'), lambda o=o: V.tensorize([o, q2().varf('x', 2)]))
            add('Varf.tensorize', 'type', (key, 'only'), lambda o=o: V.tensorize([o]))
    for a, mka in things.items():
        for b, mkb in things.items():
            if a != b:
                if not {a, b} == {'Quad', 'CompQuad'}:
                    add(a + ' ==', 'type', b, lambda mka=mka, mkb=mkb: mka() == mkb())
                if a in ('Series', 'Varf') or b in ('Series', 'Varf'):
                    add(a + ' +', 'type', b, lambda mka=mka, mkb=mkb: mka() + mkb())
                if a in ('Series', 'Varf') and b in ('Series', 'Varf'):
                    add(a + ' *', 'type', b, lambda mka=mka, mkb=mkb: mka()*mkb())
    add('Quad.tensorize', 'sizes', 'none', lambda: Q.tensorize([]))
    add('Series.tensorize', 'factor', 'common direction', lambda: s2()*q1(factor='exp(x)').transform('x', 2))
    add('Varf.solve', 'factor', 0, lambda: q2().varf('2+x', 2).solve(q2(factor='exp(x)').transform('x', 2)))
    add('Varf()', 'factor', 0, lambda: q2().varf('2+x', 2)(q2(factor='exp(x)').transform('x', 2)))
    add('Varf +', 'factor', 0, lambda: q2().varf('x', 2) + q2(factor='exp(x)').varf('x', 2))
    # functions and operators
    add('Function', 'directions', 'missing', lambda: F('x*y', dirs=[0]))
    add('Function', 'directions', 'order', lambda: F('x*y', dirs=[1, 0]))
    add('Function', 'directions', 'both', lambda: F('x*y', dirs=[0, 1], dim=2))
    add('Function.project', 'factor', 'sum', lambda: F('x+y').project([0]))
    add('Function.project', 'factor', 'entangled', lambda: F('exp(x*y)').project([0]))
    add('Operator', 'text', 'none', lambda: O(x*y))
    add('Operator', 'text', 'two', lambda: O(f(x) + sympy.Function('g')(x)))
    add('Operator', 'text', 'zero', lambda: O(0))
    add('Operator +', 'mismatch', 'directions', lambda: O(f(x)) + O(f(x, y)))
    add('Operator.split', 'order', 6, lambda: O(f(x).diff(x, 6)).split())
    return out


# ------------------------------------------------------------------ exploration

def attempt(ctx, call):
    fn, why, key, thunk = call
    ctx.step()
    try:
        r = thunk()
    except Exception:
        return True
    text = repr(r)
    ctx.fail('invalid call accepted: %s with invalid %s %s returned %s' % (fn, why, key, text[:300]),
             )
    return False


def run_single(ctx, calls):
    seen = set()
    for call in calls:
        k = (call[0], call[1], str(call[2]))
        if k in seen:
            continue
        seen.add(k)
        ctx.case('invalid call: %s, invalid %s %s' % call[:3])
        ctx.state(k)
        attempt(ctx, call)
        probe(ctx)
        ctx.outcome(k)
    ctx.sample('%d invalid calls, for example %s' % (len(seen), next(iter(seen), None)))


def representatives(objects=True):
    rep = {}
    for dim, kind, degree in ((2, 'triangle', 1), (2, 'cross', 1), (1, 'cube', 1), (3, 'triangle', 2)):
        for call in core_calls(dim, kind, degree):
            rep.setdefault((call[0], call[1]), call)
    if objects:
        for call in object_calls():
            rep.setdefault((call[0], call[1]), call)
    return [rep[k] for k in sorted(rep)]


def tasks(tier):
    th = tier == 'thorough'
    out = []
    for dim in (3, 2, 1):
        for kind in KINDS:
            for degree in (range(0, 5) if th else (1, 2)):
                if degree >= ref.min_degree(kind):
                    out.append({'what': 'core', 'dim': dim, 'kind': kind, 'degree': degree})
    out = [{'what': 'objects', 'part': p, 'parts': 8} for p in range(8)] + out
    out += [{'what': 'pairs', 'part': p, 'parts': 32} for p in range(32)]
    if th:
        out += [{'what': 'triples', 'part': p, 'parts': 64} for p in range(64)]
    return out


def run_task(ctx, task):
    if task['what'] == 'core':
        run_single(ctx, core_calls(task['dim'], task['kind'], task['degree']))
    elif task['what'] == 'objects':
        run_single(ctx, object_calls()[task['part']::task['parts']])
    elif task['what'] == 'pairs':
        reps = representatives()
        for i, a in enumerate(reps):
            if i % task['parts'] != task['part']:
                continue
            for b in reps:
                ctx.case('invalid calls: %s with invalid %s, then %s with invalid %s' % (a[:2] + b[:2]))
                ctx.state((a[:2], b[:2]))
                attempt(ctx, a)
                attempt(ctx, b)
                probe_short(ctx)
            probe(ctx)
    else:
        reps = representatives(False)
        for i, (a, b) in enumerate(itertools.product(reps, repeat=2)):
            if i % task['parts'] != task['part']:
                continue
            for c in reps[::3]:
                ctx.case('invalid calls: %s with invalid %s, then %s with invalid %s, then %s with invalid %s' % (a[:2] + b[:2] + c[:2]))
                ctx.state((a[:2], b[:2], c[:2]))
                attempt(ctx, a)
                attempt(ctx, b)
                attempt(ctx, c)
                probe_short(ctx)


def probe_short(ctx):
    for k in (0, 1, 4, 5, 6):
        name, fn, want = PROBES[k]
        ctx.step()
        if not ref.close(np.asarray(fn(), float), np.asarray(want, float)):
            ctx.fail('a valid call (%s) is wrong afterwards' % name)
            return
    ctx.trace()
