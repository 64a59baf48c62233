"""C10: results do not depend on the cache or on earlier calls."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import ref

MEANING = ('states = (content of the cache directory, settings, call) situations in which a call was made; transitions = '
           'calls; traces = complete histories of calls whose every result was compared with the result computed '
           'without a cache')
BOUNDS = {'quick': 'decorator: all ordered pairs from 165 argument lists that differ in shape, type, order, sign, nesting, '
                   'keyword or in one place of a long array, matrix, text or list, history a b a b; 12 library functions: all ordered pairs of calls of the same function among '
                   '260 calls (near collisions; every result and every argument overwritten between the calls), history a b a b with the cache, then both without; all calls '
                   'of all functions in one directory, forwards, backwards, twice; all histories of length 4 (5 thorough) '
                   'over 8 events (cache on, cache off, plain call a, plain call b, a with cache=False, a with cache=True, '
                   'b with cache=False, change of directory); Quad, Varf calls: all ordered pairs of 30 calls',
          'thorough': 'histories of length 6; triples of argument lists of the decorator'}
ASSUMPTIONS = ['a list and a tuple with the same elements are the same argument',
               'two functions with the same name and module are the same function']


def setup(ctx):
    global hm, core, ss, cache, rc, sym, spla, scratch
    import hermipy as hm
    import hermipy.core as core
    import sys
    cache, rc = sys.modules['hermipy.cache'], sys.modules['hermipy.settings']
    import scipy.sparse as ss
    import scipy.sparse.linalg as spla
    import sympy as sym
    scratch = tempfile.mkdtemp(prefix='cache-', dir=os.environ['HOME'])


class Dir:
    """An empty cache directory, cache enabled."""
    n = 0

    def __init__(self, on=True):
        Dir.n += 1
        self.path = os.path.join(scratch, 'd%d' % Dir.n)
        self.on = on

    def __enter__(self):
        self.old = dict(rc.settings)
        rc.settings['cache'] = self.on
        rc.settings['cachedir'] = self.path
        return self

    def __exit__(self, *a):
        rc.settings.update(self.old)
        shutil.rmtree(self.path, ignore_errors=True)

    def files(self):
        return sorted(os.listdir(self.path)) if os.path.isdir(self.path) else []


def kind_of(r):
    if isinstance(r, ss.csr_matrix):
        return ('csr', r.shape, r.dtype.kind)
    if isinstance(r, np.ndarray):
        return ('array', r.shape, r.dtype.kind)
    if isinstance(r, (bool, np.bool_)):
        return ('bool',)
    if isinstance(r, (int, np.integer)):
        return ('int',)
    if isinstance(r, float):
        return ('float',)
    if isinstance(r, complex):
        return ('complex',)
    if isinstance(r, tuple):
        return ('tuple',) + tuple(kind_of(x) for x in r)
    if isinstance(r, hm.Series):
        return ('series', r.degree, r.index_set, tuple(r.position.dirs), str(r.factor), kind_of(r.coeffs))
    if isinstance(r, hm.Varf):
        return ('varf', r.degree, r.index_set, tuple(r.position.dirs), str(r.factor), r.is_sparse, kind_of(r.matrix))
    if isinstance(r, list):
        return ('list',) + tuple(kind_of(x) for x in r)
    return (type(r).__name__,)


def value_of(r):
    if isinstance(r, ss.csr_matrix):
        return r.toarray().ravel()
    if isinstance(r, hm.Series):
        return r.coeffs.ravel()
    if isinstance(r, hm.Varf):
        return value_of(r.matrix)
    if isinstance(r, (list, tuple)):
        return np.concatenate([value_of(x) for x in r]) if len(r) else np.zeros(0)
    return np.asarray(r).ravel()


def same(got, want):
    """None or a description of the difference."""
    k, w = kind_of(got), kind_of(want)
    if k != w:
        return 'kind %s, expected %s' % (k, w)
    a, b = value_of(got), value_of(want)
    if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
        ok = a.shape == b.shape and np.all((np.abs(a - b) <= 1e-12*np.maximum(1, np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b))
    else:
        ok = np.array_equal(a, b)
    return None if ok else 'value %s, expected %s' % (a[:8], b[:8])


# -------------------------------------------------- decorator

def arguments():
    A = np.array
    csr = ss.csr_matrix
    x, y = sym.symbols('x y')
    base = A([[1., 2., 3.], [4., 5., 6.]])
    z = np.zeros
    vals = [
        None, 0, 0., -0., 1, 1., -1, True, False, 10, 1e-300, float('inf'), 1e16, 1e16 + 2, .1 + .2, .3,
        '', '0', '1', 'None', 'a', 'b', 'ab', 'a b', 'a-b', '[1]', 'x', 'True',
        [], [1], [1.], ['1'], [1, 2], [2, 1], [[1], [2]], [[1, 2]], [[1], 2], [1, [2]], [[]], [12], [1, 2, 3], [[1, 2], [3]], [[1], [2, 3]],
        [None], [0, None], ['a', 'b'], ['ab'], ['a, b'],
        A([1., 2.]), A([[1., 2.]]), A([[1.], [2.]]), A([1, 2]), A([1., 2.], dtype='float32'), A([1. + 0j, 2.]), A([2., 1.]),
        z(4), z((2, 2)), z((4, 1)), z(3), z(0), z((0, 3)), A(1.), A([1.]), -z(4),
        base, base.T, np.asfortranarray(base), base.reshape(3, 2), base.ravel(), base[:, ::2], base[:, :2], base[::-1],
        csr(A([[1., 0.], [0., 2.]])), csr(A([[1., 0., 0.], [0., 2., 0.]])), csr(A([[0., 1.], [0., 2.]])), csr(A([[1., 2.], [0., 0.]])),
        csr(z((2, 2))), csr(z((2, 3))), csr(z((3, 2))),
        A([[1., 0.], [0., 2.]]),
        {}, {1: 2}, {2: 1}, {'1': 2}, {1: '2'}, {1: 2, 3: 4}, {1: 4, 3: 2}, {1: [2, 3]}, {frozenset({0}): A([1.]), frozenset({1}): A([2.])},
        {frozenset({0}): A([2.]), frozenset({1}): A([1.])}, {frozenset({0, 1}): A([1.]), frozenset({2}): A([2.])},
        {frozenset({0}): A([1.]), frozenset({1, 2}): A([2.])},
        x, y, x*y, x + y, sym.Integer(1), sym.Float(1.), sym.Symbol('ab'),
    ]
    # Long arguments that differ in one place
    b = ref.generic(2400, 4)
    vals += [b, b.reshape(40, 60), b.reshape(60, 40), b.reshape(60, 40, order='F'), b[:-1]]
    for i in (0, 1, 2, 3, 999, 1000, 1199, 1200, 2396, 2398, 2399):
        c = b.copy()
        c[i] = np.nextafter(c[i], 9.)
        vals.append(c)
    s = csr(np.diag(b[:60]) + np.diag(b[60:119], 1))
    vals.append(s)
    for i, j in ((0, 0), (29, 30), (30, 30), (59, 59)):
        t = s.copy()
        t[i, j] += 1e-9
        vals.append(t)
    t = s.tolil()
    t[30, 31], t[30, 35] = 0., s[30, 31]
    vals.append(csr(t))
    text = ''.join('+ x**%d*y' % i for i in range(700))
    vals += [text, text + ' ', ' ' + text, text[:3000] + '-' + text[3001:], text[:-1] + 'x']
    vals += [list(range(1500)), list(range(1499)) + [0], [1] + list(range(1, 1500)), list(range(700)) + [5] + list(range(701, 1500))]
    vals += [123456789012345678, 123456789012345679, 1.2345678901234567, 1.234567890123457, [1.2345678901234567], [1.234567890123457]]
    args = [((v,), {}) for v in vals]
    args += [((), {}), ((1, 2), {}), ((2, 1), {}), ((1, [2]), {}), (([1], 2), {}), ((1, 2, 3), {}), ((12,), {}), ((1, None), {}),
             (('a', 'b'), {}), (('ab', ''), {}), (('', 'ab'), {}), (('b', 'a'), {}),
             ((A([1., 2.]), A([3.])), {}), ((A([1.]), A([2., 3.])), {}), ((A([1., 2., 3.]),), {}),
             ((), {'a': 1}), ((), {'b': 1}), ((), {'a': 1, 'b': 2}), ((), {'a': 2, 'b': 1}), ((1,), {'b': 2}), ((1,), {'a': 2}),
             ((2,), {'b': 1}), (('a', 1), {}), (('a',), {'b': 1}), ((1,), {'b': None}), ((1,), {'b': False}), ((1,), {'b': 0}),
             ((1,), {'b': '0'}), ((1,), {'b': [0]})]
    return args


def show(a):
    return repr(a[0])[1:-1] + ''.join(', %s=%r' % i for i in a[1].items())


def equivalent(a, b):
    """Arguments that are the same for every function that treats equal sequences alike."""
    def norm(v):
        if isinstance(v, (list, tuple)):
            return ('l',) + tuple(norm(x) for x in v)
        if isinstance(v, np.ndarray):
            return ('a', v.dtype.str, v.shape, np.ascontiguousarray(v).tobytes())
        if isinstance(v, ss.csr_matrix):
            return ('s', v.shape, v.toarray().tobytes())
        if isinstance(v, dict):
            return ('d',) + tuple((norm(k), norm(w)) for k, w in v.items())
        if isinstance(v, frozenset):
            return ('f',) + tuple(sorted(v))
        if isinstance(v, sym.Basic):
            return ('sym', sym.srepr(v))
        return (type(v).__name__, repr(v))
    return norm(a[0]) == norm(b[0]) and norm(a[1]) == norm(b[1])


def results(i):
    """The value returned for argument list i: a distinct value, of several kinds."""
    k = i % 7
    if k == 0:
        return float(i) + .5
    if k == 1:
        return i
    if k == 2:
        return np.array([i, .25])
    if k == 3:
        return np.array([[i, 1.], [2., 3.], [4., 5.]])
    if k == 4:
        return ss.csr_matrix(np.array([[0., i, 0.], [0., 0., 2.]]))
    if k == 5:
        return np.array([i, 3], dtype=int)
    return np.array([i + 2j, 1.])


def run_decorator(ctx, task):
    args = arguments()
    n = len(args)
    todo = [i for i in range(n) if i % task['of'] == task['part']]
    for i in todo:
        for j in range(n):
            if i == j or equivalent(args[i], args[j]):
                continue
            ctx.case('cached f(%s) and f(%s)' % (show(args[i]), show(args[j])))
            cur, count = [0], [0]

            def f(*a, **kw):
                count[0] += 1
                return results(cur[0])
            g = cache.cache()(f)
            with Dir() as d:
                for k in (i, j, i, j):
                    cur[0] = k
                    a, kw = args[k]
                    try:
                        got = g(*a, **dict(kw))
                    except Exception as e:
                        ctx.fail('f(%s) raised %s: %s' % (show(args[k]), type(e).__name__, e))
                        break
                    ctx.step()
                    bad = same(got, results(k))
                    if not ctx.check(bad is None, lambda: 'f(%s) after the other call: %s' % (show(args[k]), bad)):
                        break
                ctx.state((i, j))
                ctx.count('hits', 4 - count[0])
                ctx.trace()
    ctx.outcome(task['part'])


# ------------------------------------------------- library functions

def calls():
    """Calls of the library that nearly coincide: name -> list of (text, function(**override))."""
    g = ref.generic
    herm = np.polynomial.hermite_e.hermegauss

    def nw(*ns):
        nodes, weights = zip(*[herm(n) for n in ns])
        return [np.array(x) for x in nodes], [w/np.sqrt(2*np.pi) for w in weights]
    out = {}

    def add(name, text, *a, **kw):
        f = getattr(core, name)
        out.setdefault(name, []).append((text, lambda **o: f(*a, **{**kw, **o})))

    for dim, n in ((1, 3), (1, 6), (2, 3), (2, 6), (3, 10), (3, 1)):
        for s in ('triangle', 'cube'):
            if s == 'triangle' and n in (3, 6, 10, 1) and not (dim == 3 and n == 6):
                add('iterator_get_degree', '%d %d %s' % (dim, n, s), dim, n, index_set=s)
    add('iterator_get_degree', '2 9 cube', 2, 9, index_set='cube')
    add('iterator_get_degree', '2 4 cube', 2, 4, index_set='cube')
    add('iterator_get_degree', 'default 2 3', 2, 3)
    for dim, deg in ((1, 2), (2, 1), (2, 2), (1, 12), (3, 1)):
        for s in ref.SETS:
            add('iterator_size', '%d %d %s' % (dim, deg, s), dim, deg, index_set=s)
            if deg <= 2:
                add('iterator_list_indices', '%d %d %s' % (dim, deg, s), dim, deg, index_set=s)
    for m in ([1, 2], [2, 1], [1, 1], [3], [0, 3], [3, 0], [1, 2, 0], [0, 1, 2]):
        for s in ('triangle', 'cube'):
            add('iterator_index', '%s %s' % (m, s), m, index_set=s)
    add('iterator_index', 'array', np.array([1, 2]), index_set='cube')
    add('iterator_index', 'array reversed', np.array([2, 1]), index_set='cube')

    n33, w33 = nw(3, 3)
    n24, w24 = nw(2, 4)
    n42, w42 = nw(4, 2)
    n8, w8 = nw(8)
    v8, v9 = g(8, 1), g(9, 2)
    for text, f, n, w in (('2x4', v8, n24, w24), ('4x2', v8, n42, w42), ('8', v8, n8, w8), ('8 negated', -v8, n8, w8),
                          ('8 reversed', v8[::-1].copy(), n8, w8), ('8 view', g(16, 1)[::2], n8, w8), ('3x3', v9, n33, w33)):
        add('integrate', text, f, n, w)
        add('integrate', text + ' fourier', f, n, w, do_fourier=[1]*len(n))
        add('transform', text, 2, f, n, w, True)
        add('transform', text + ' fourier', 2, f, n, w, True, do_fourier=[1]*len(n))
        add('transform', text + ' cube', 2, f, n, w, True, index_set='cube')
        add('transform', text + ' degree 1', 1, f, n, w, True)
    add('integrate', '3x3 mixed', v9, n33, w33, do_fourier=[1, 0])
    add('integrate', '3x3 mixed 2', v9, n33, w33, do_fourier=[0, 1])
    add('transform', 'backward', 2, g(6, 3), n33, w33, False)
    add('transform', 'backward cube', 2, v9, n33, w33, False, index_set='cube')
    add('transform', 'forward cube', 2, v9, n33, w33, True, index_set='cube')
    for body in ('v[0]', 'v[1]', 'v[0] ', 'v[0]*v[1]', 'v[0]+v[1]', '1'):
        add('discretize', body, body, n33, np.zeros(2), np.eye(2))
    add('discretize', 'shift', 'v[0]', n33, np.array([.5, 0.]), np.eye(2))
    add('discretize', 'shift 2', 'v[0]', n33, np.array([0., .5]), np.eye(2))
    add('discretize', 'dilation', 'v[0]', n33, np.zeros(2), np.array([[1., .5], [0., 1.]]))
    add('discretize', 'dilation transposed', 'v[0]', n33, np.zeros(2), np.array([[1., 0.], [.5, 1.]]))
    add('discretize', '2x4', 'v[0]', n24, np.zeros(2), np.eye(2))
    add('discretize', '4x2', 'v[0]', n42, np.zeros(2), np.eye(2))
    for sp in (False, True):
        add('varf', '3x3 sparse=%s' % sp, 1, v9, n33, w33, sparse=sp)
        add('varf', '3x3 cube sparse=%s' % sp, 1, v9, n33, w33, sparse=sp, index_set='cube')
        add('varf', '3x3 fourier sparse=%s' % sp, 2, v9, n33, w33, sparse=sp, do_fourier=[1, 1])
        add('varf', '3x3 mixed sparse=%s' % sp, 2, v9, n33, w33, sparse=sp, do_fourier=[0, 1])
        add('varf', '3x3 mixed 2 sparse=%s' % sp, 2, v9, n33, w33, sparse=sp, do_fourier=[1, 0])
    a3, a6 = g(9, 4).reshape(3, 3), g(36, 5).reshape(6, 6)
    for text, m in (('a', a6), ('a transposed', a6.T), ('a fortran', np.asfortranarray(a6)), ('a sparse', ss.csr_matrix(a6)),
                    ('a upper', ss.csr_matrix(np.triu(a6))), ('a upper dense', np.triu(a6))):
        add('varfd', text + ' 0', 2, 2, 0, m)
        add('varfd', text + ' 1', 2, 2, 1, m)
        add('project', text + ' 0', m, 2, [0])
        add('project', text + ' 1', m, 2, [1])
        add('project', text + ' int', m, 2, 1)
        add('project', text + ' 0 1', m, 2, [0, 1])
        add('project', text + ' 1 0', m, 2, [1, 0])
    add('varfd', 'dim 1', 1, 5, 0, a6)
    add('varfd', 'dim 1 cube', 1, 5, 0, a6, index_set='cube')
    v3, u3 = g(3, 6), g(3, 7)
    for sp in (False, True):
        add('tensorize', 'list matrices sparse=%s' % sp, [a3, a3.T.copy()], sparse=sp)
        add('tensorize', 'list matrices swapped sparse=%s' % sp, [a3.T.copy(), a3], sparse=sp)
        add('tensorize', 'list matrices cube sparse=%s' % sp, [a3, a3.T.copy()], sparse=sp, index_set='cube')
        add('tensorize', 'dict 0 1 sparse=%s' % sp, {frozenset({0}): a3, frozenset({1}): a3.T.copy()}, sparse=sp)
        add('tensorize', 'dict 1 0 sparse=%s' % sp, {frozenset({1}): a3, frozenset({0}): a3.T.copy()}, sparse=sp)
        add('tensorize', 'dim 2 dir 0 sparse=%s' % sp, a3, 2, 0, sparse=sp)
        add('tensorize', 'dim 2 dir 1 sparse=%s' % sp, a3, 2, 1, sparse=sp)
    add('tensorize', 'list vectors', [v3, u3])
    add('tensorize', 'list vectors swapped', [u3, v3])
    add('tensorize', 'list vectors cube', [u3, v3], index_set='cube')
    add('tensorize', 'dict vectors', {frozenset({0}): v3, frozenset({1}): u3})
    add('tensorize', 'dict vectors swapped', {frozenset({1}): v3, frozenset({0}): u3})
    for text, bad in (('inf', np.inf), ('nan', np.nan), ('-inf', -np.inf)):
        b9, b6 = v9.copy(), a6.copy()
        b9[4], b6[1, 2] = bad, bad
        add('integrate', '3x3 with ' + text, b9, n33, w33)
        add('transform', '3x3 with ' + text, 2, b9, n33, w33, True)
        add('discretize', text, {'inf': '1/(v[0]*0.)', 'nan': 'sqrt(-1.-v[0]*v[0])', '-inf': '-1/(v[0]*0.)'}[text], n33, np.zeros(2), np.eye(2))
        add('project', 'a with ' + text, b6, 2, [0, 1])
        add('project', 'sparse a with ' + text, ss.csr_matrix(b6), 2, [0, 1])
        add('tensorize', 'vectors with ' + text, [v3, np.array([1., bad, 2.])])
    add('tensorize', 'numbers', [1., 2., 3.])
    add('tensorize', 'numbers negated', [1., 2., -3.])
    add('tensorize', 'dict numbers', {frozenset({0}): 2., frozenset({1}): 4.})
    v6, u6 = g(6, 8), g(6, 9)
    for text, f, d, d1, d2 in (('01 01', v6, u6, [0, 1], [0, 1]), ('01 12', v6, u6, [0, 1], [1, 2]), ('12 01', v6, u6, [1, 2], [0, 1]),
                               ('swapped', u6, v6, [0, 1], [1, 2]), ('01 02', v6, u6, [0, 1], [0, 2]),
                               ('02 01', v6, u6, [0, 2], [0, 1])):
        add('inner', text, f, d, d1, d2)
    nl, wl = nw(40, 40)
    vl = g(1600, 3)
    for i in (0, 820, 821, 1599):
        c = vl.copy()
        c[i] += 1e8
        add('integrate', 'large %d' % i, c, nl, wl)
        add('transform', 'large %d' % i, 3, c, nl, wl, True)
        add('varf', 'large %d' % i, 1, c, nl, wl, sparse=i < 821)
    add('integrate', 'large', vl, nl, wl)
    add('transform', 'large', 3, vl, nl, wl, True)
    al = g(45**2, 2).reshape(45, 45)
    for i in (0, 1000, 2024):
        c = al.copy()
        c.ravel()[i] += .5
        add('varfd', 'large %d' % i, 2, 8, 0, c)
        add('varfd', 'large sparse %d' % i, 2, 8, 0, ss.csr_matrix(c))
        add('project', 'large %d' % i, c.ravel()[-1953:], 2, [0, 1])
    for text, f in (('v', v6), ('-v', -v6), ('u', u6)):
        add('project', text + ' 0', f, 2, [0])
        add('project', text + ' 1', f, 2, [1])
    return out


def history(ctx, name, seq, todo, wants):
    """Run calls in sequence in one fresh directory."""
    with Dir() as d:
        for text, f, o in seq:
            try:
                got = f(**o)
            except Exception as e:
                return ctx.fail('%s raised %s: %s' % (text, type(e).__name__, str(e)[:500]))
            ctx.step()
            bad = same(got, wants[text])
            if bad is not None:
                return ctx.fail('%s: %s' % (text, bad))
        ctx.count('entries', len(d.files()))
    ctx.trace()


def run_library(ctx, task):
    name = task['name']
    cs = calls()[name]
    wants = {}
    with Dir(on=False) as d:
        for text, f in cs:
            ctx.case('%s %s without cache' % (name, text))
            wants[text] = f()
        ctx.check(d.files() == [], 'a call without cache created %s' % d.files())
    pairs = list(itertools.permutations(cs, 2))
    for (ta, a), (tb, b) in pairs:
        ctx.case('core.%s: history of "%s" and "%s"' % (name, ta, tb))
        ctx.state((ta, tb))
        history(ctx, name, [(ta, a, {}), (tb, b, {}), (ta, a, {}), (tb, b, {})], cs, wants)
        if len(ctx.violations) > 5:
            return
    # Interleaved with calls without cache
    for (ta, a), (tb, b) in zip(cs, cs[1:] + cs[:1]):
        ctx.case('core.%s: overrides, "%s" and "%s"' % (name, ta, tb))
        history(ctx, name, [(ta, a, {'cache': False}), (tb, b, {}), (ta, a, {}), (tb, b, {'cache': False}),
                            (ta, a, {'cache': False}), (tb, b, {'cache': True}), (ta, a, {'cache': True})], cs, wants)


def spoil(r):
    """Overwrite a result."""
    if isinstance(r, (list, tuple)):
        for x in r:
            spoil(x)
    elif isinstance(r, ss.csr_matrix):
        r.data[...] = 77.
    elif isinstance(r, np.ndarray) and r.flags.writeable:
        r[...] = 77
    elif isinstance(r, hm.Series):
        spoil(r.coeffs)
    elif isinstance(r, hm.Varf):
        spoil(r.matrix)


def run_overwrite(ctx, task):
    """A caller overwrites what it was given, or its own arrays, between two calls."""
    cs = [(n + ' ' + t, f) for n, l in calls().items() for t, f in l] if task['level'] == 'core' else object_calls()
    for on in (False, True):
        for t, f in cs:
            ctx.case('%s, result overwritten between the calls, cache %s' % (t, on))
            with Dir(on=on):
                try:
                    want = f()
                    keep = value_of(want).copy()
                    kind = kind_of(want)
                    spoil(want)
                    for _ in range(2):
                        got = f()
                        ctx.step()
                        v = value_of(got)
                        ctx.check(kind_of(got) == kind and v.shape == keep.shape and np.allclose(v, keep, 1e-12, 1e-12, equal_nan=True),
                                  'the result of the second call depends on what the caller did with the first: %s' % v[:6])
                        spoil(got)
                except Exception as e:
                    ctx.fail('raised %s: %s' % (type(e).__name__, str(e)[:300]))
            ctx.state((t, on))
            ctx.trace()
            if len(ctx.violations) > 5:
                return


def run_arguments(ctx, task):
    """The same array object with other contents is another argument."""
    g = ref.generic
    herm = np.polynomial.hermite_e.hermegauss

    def inputs(k):
        n, w = [herm(3)[0] + .1*k, herm(3)[0] - .2*k], [herm(3)[1]*(1 + k), herm(3)[1]/(2 + k)]
        return {'n0': n[0], 'n1': n[1], 'w0': w[0], 'w1': w[1], 'f': g(9, 1 + k), 'c': g(6, 2 + k), 'd': g(6, 5 + k), 'm': g(36, 3 + k).reshape(6, 6),
                'a': g(9, 7 + k).reshape(3, 3), 't': g(2, 4 + k), 's': np.eye(2) + .1*k, 'x': np.array([1 + k, 2]), 'data': g(36, 4 + k)}

    def sparse_of(i):
        m = ss.csr_matrix(np.ones((6, 6)))
        m.data = i['data']
        return m
    fs = {'integrate': lambda i, s: core.integrate(i['f'], [i['n0'], i['n1']], [i['w0'], i['w1']]),
          'integrate fourier': lambda i, s: core.integrate(i['f'], [i['n0'], i['n1']], [i['w0'], i['w1']], do_fourier=[1, 1]),
          'transform': lambda i, s: core.transform(2, i['f'], [i['n0'], i['n1']], [i['w0'], i['w1']], True),
          'transform backward': lambda i, s: core.transform(2, i['c'], [i['n0'], i['n1']], [i['w0'], i['w1']], False),
          'discretize': lambda i, s: core.discretize('v[0]*v[1]', [i['n0'], i['n1']], i['t'], i['s']),
          'varf': lambda i, s: core.varf(1, i['f'], [i['n0'], i['n1']], [i['w0'], i['w1']]),
          'varf sparse': lambda i, s: core.varf(1, i['f'], [i['n0'], i['n1']], [i['w0'], i['w1']], sparse=True),
          'varfd': lambda i, s: core.varfd(2, 2, 0, i['m']),
          'varfd sparse': lambda i, s: core.varfd(2, 2, 0, s),
          'project matrix': lambda i, s: core.project(i['m'], 2, [0]),
          'project sparse': lambda i, s: core.project(s, 2, [0]),
          'project vector': lambda i, s: core.project(i['c'], 2, [0]),
          'tensorize list': lambda i, s: core.tensorize([i['a'], i['a']]),
          'tensorize vectors': lambda i, s: core.tensorize([i['w0'], i['w1']]),
          'tensorize dict': lambda i, s: core.tensorize({frozenset({0}): i['a'], frozenset({1}): i['a']}, sparse=True),
          'inner': lambda i, s: core.inner(i['c'], i['d'], [0, 1], [1, 2]),
          'index': lambda i, s: core.iterator_index(i['x'])}
    for on in (False, True):
        for name, f in fs.items():
            with Dir(on=False):
                wants = []
                for k in (0, 1):
                    i = inputs(k)
                    wants.append(f(i, sparse_of(i)))
            keys = list(inputs(0))
            # Every history of contents of length 4 over {0, 1}, on the same objects
            for seq in itertools.product((0, 1), repeat=4):
                ctx.case('%s on the same arrays with contents %s, cache %s' % (name, seq, on))
                cur = inputs(seq[0])
                mat = sparse_of(cur)
                with Dir(on=on):
                    for k in seq:
                        new = inputs(k)
                        for key in keys:
                            cur[key][...] = new[key]
                        mat.data[...] = new['data']
                        try:
                            bad = same(f(cur, mat), wants[k])
                        except Exception as e:
                            bad = 'raised %s: %s' % (type(e).__name__, str(e)[:300])
                        ctx.step()
                        for key in keys:
                            if not np.array_equal(cur[key], new[key]):
                                bad = 'the argument %s was modified' % key
                        if not ctx.check(bad is None, lambda: bad):
                            break
                ctx.state((name, seq, on))
                ctx.trace()


def run_all(ctx, task):
    cs = [(n + ' ' + t, f) for n, l in calls().items() for t, f in l]
    wants = {}
    with Dir(on=False):
        for text, f in cs:
            wants[text] = f()
    for order in (cs, cs[::-1]):
        ctx.case('all %d calls in one directory' % len(cs))
        history(ctx, 'all', [(t, f, {}) for t, f in order]*2, cs, wants)
        ctx.state()
        for t, _ in order:
            ctx.outcome(value_of(wants[t]).tobytes())


# --------------------------------------------------------- histories

def run_events(ctx, task):
    """Every sequence of events; the model predicts value, creation of entries and recomputation."""
    depth = task['depth']
    count = [0]

    def f(k, shape):
        count[0] += 1
        return {0: np.array([k, 1.]), 1: ss.csr_matrix(np.array([[k, 0.], [0., 3.]])), 2: float(k) + .5, 3: k}[shape]
    g = cache.cache(quiet=task['quiet'])(f)
    shape = task['shape']
    events = ['on', 'off', 'a', 'b', 'a!', 'a?', 'b!', 'dir']
    for seq in itertools.product(events, repeat=depth):
        if seq[0] != task['first']:
            continue
        ctx.case('events %s, result kind %d' % (' '.join(seq), shape))
        d0, d1 = Dir(), Dir()
        on, cur = False, d0
        old = dict(rc.settings)
        stored = {d0.path: set(), d1.path: set()}
        try:
            rc.settings['cache'], rc.settings['cachedir'] = on, cur.path
            for e in seq:
                ctx.step()
                if e in ('on', 'off'):
                    on = e == 'on'
                    rc.settings['cache'] = on
                    continue
                if e == 'dir':
                    cur = d1 if cur is d0 else d0
                    rc.settings['cachedir'] = cur.path
                    continue
                k = {'a': 4, 'b': 7}[e[0]]
                o = {'!': {'cache': False}, '?': {'cache': True}}.get(e[1:], {})
                before, files = count[0], len(cur.files())
                got = g(k, shape, **o)
                want = f(k, shape)
                count[0] -= 1
                bad = same(got, want)
                if not ctx.check(bad is None, lambda: 'event %s: %s' % (e, bad)):
                    break
                use = o.get('cache', on)
                calls_made = count[0] - before
                if not use:
                    ctx.check(calls_made == 1, 'event %s: the cache is disabled for the call, but it was not recomputed' % e)
                else:
                    ctx.check(calls_made <= 1, 'event %s: computed %d times' % (e, calls_made))
                if not on:
                    ctx.check(len(cur.files()) == files, 'event %s: an entry was created with the cache disabled' % e)
                ctx.count('hits', calls_made == 0)
            ctx.trace()
            ctx.state((on, len(d0.files()), len(d1.files()), cur is d0))
        except Exception as e2:
            ctx.fail('raised %s: %s' % (type(e2).__name__, e2))
        finally:
            rc.settings.clear()
            rc.settings.update(old)
            for d in (d0, d1):
                shutil.rmtree(d.path, ignore_errors=True)
        if len(ctx.violations) > 5:
            return


# ------------------------------------------------- objects

def object_calls():
    q = hm.Quad.gauss_hermite(6, dirs=[0, 1], mean=[.1, .2], cov=[[1., 0.], [0., .5]])
    qn = hm.Quad.gauss_hermite(6, dirs=[0, 1], mean=[.1, .2], cov=[[1., .3], [.3, .5]])
    qf = hm.Quad.gauss_hermite(6, dirs=[0, 1], mean=[.1, .2], cov=[[1., 0.], [0., .5]], factor='exp(-x**2/8)')
    qs = hm.Quad.gauss_hermite(6, dirs=[1, 0][::-1], mean=[.2, .1], cov=[[.5, 0.], [0., 1.]])
    q1 = hm.Quad.gauss_hermite(6, dirs=[1], mean=[.2], cov=[[.5]])
    x, y = hm.Function.xyz[0], hm.Function.xyz[1]
    f = sym.Function('f')(x, y)
    op = f.diff(x, x) - x*f.diff(x) + f.diff(y, y) - y*f.diff(y) - f
    op2 = f.diff(y, y) - x*f.diff(x) + f.diff(x, x) - y*f.diff(y) - 2*f
    out = []
    for name, qq in (('q', q), ('qn', qn), ('qf', qf), ('qs', qs)):
        out.append((name + ' transform', lambda qq=qq: qq.transform('x*y + x', 2)))
        out.append((name + ' varf', lambda qq=qq: qq.varf('x*y + x', 2)))
        out.append((name + ' varf sparse', lambda qq=qq: qq.varf('x*y + x', 2, sparse=True)))
        out.append((name + ' operator', lambda qq=qq: qq.discretize_op(op, 2)))
    out.append(('q transform cube', lambda: q.transform('x*y + x', 2, index_set='cube')))
    out.append(('q transform y', lambda: q.transform('x*y + y', 2)))
    out.append(('q operator 2', lambda: q.discretize_op(op2, 2)))
    out.append(('q operator 2 sparse', lambda: q.discretize_op(op2, 2, sparse=True)))
    out.append(('q1 transform', lambda: q1.transform('y**2', 2)))
    out.append(('q integrate', lambda: q.integrate('x*y + x')))
    out.append(('q integrate flat', lambda: q.integrate('x*y*exp(-x**2-y**2)', flat=True)))
    m = q.discretize_op(op, 2)
    ms = q.discretize_op(op, 2, sparse=True)
    m2 = q.discretize_op(op2, 2)
    s, s2 = q.transform('x*y', 2), q.transform('x', 2)
    v0 = ref.generic(6, 3)
    out.append(('solve', lambda: m.solve(s)))
    out.append(('solve other', lambda: m2.solve(s)))
    out.append(('solve sparse', lambda: ms.solve(s)))
    out.append(('solve other rhs', lambda: m.solve(s2)))
    out.append(('solve gmres', lambda: m.solve(s, use_gmres=True)))
    out.append(('eigs', lambda: list(m.eigs(k=2, which='LR', v0=v0))))
    out.append(('eigs SR', lambda: list(m.eigs(k=2, which='SM', v0=v0))))
    return out


def run_objects(ctx, task):
    cs = object_calls()
    wants = {}
    with Dir(on=False):
        for t, f in cs:
            wants[t] = f()
    for i, ((ta, a), (tb, b)) in enumerate(itertools.permutations(cs, 2)):
        if i % task['of'] != task['part']:
            continue
        ctx.case('objects: history of "%s" and "%s"' % (ta, tb))
        ctx.state((ta, tb))
        with Dir() as d:
            for t, f in ((ta, a), (tb, b), (tb, b), (ta, a)):
                try:
                    got = f()
                except Exception as e:
                    ctx.fail('%s raised %s: %s' % (t, type(e).__name__, str(e)[:500]))
                    break
                ctx.step()
                bad = same(got, wants[t])
                if not ctx.check(bad is None, lambda: '%s: %s' % (t, bad)):
                    break
        ctx.trace()


def tasks(tier):
    out = [{'what': 'decorator', 'part': i, 'of': 24} for i in range(24)]
    names = ['iterator_get_degree', 'iterator_size', 'iterator_list_indices', 'iterator_index', 'integrate', 'transform',
             'discretize', 'varf', 'varfd', 'project', 'tensorize', 'inner']
    out += [{'what': 'library', 'name': n} for n in names]
    out += [{'what': 'all'}, {'what': 'arguments'}, {'what': 'overwrite', 'level': 'core'}, {'what': 'overwrite', 'level': 'objects'}]
    depth = 4 if tier == 'quick' else 6
    out += [{'what': 'events', 'first': e, 'shape': s, 'depth': depth, 'quiet': q}
            for e in ('on', 'off', 'a', 'b', 'a!', 'a?', 'b!', 'dir') for s in range(4) for q in (False, True)
            if not (q and s in (2, 3) and tier == 'quick')]
    out += [{'what': 'objects', 'part': i, 'of': 16} for i in range(16)]
    return out


def run_task(ctx, task):
    {'decorator': run_decorator, 'library': run_library, 'all': run_all, 'events': run_events,
     'objects': run_objects, 'overwrite': run_overwrite, 'arguments': run_arguments}[task['what']](ctx, task)
    ctx.sample(task)
