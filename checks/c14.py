"""C14: conversions between NumPy and C++ data preserve shape and values."""
import gc
import itertools

import numpy as np
import scipy.sparse as ss

MEANING = ('states = distinct (shape, layout, type, sparsity pattern) converted; transitions = conversions executed; '
           'traces = round trips Python -> C++ -> Python compared bit by bit')
BOUNDS = {'quick': 'matrices: all shapes 0..8 x 0..8, 17 memory layouts, 11 element types, ordinary and special values (nan, infinities, '
                   'signed zeros, denormals), 8 ways of converting; vectors: length 0..12; cubes: all shapes 1..4 cubed; sparse: every '
                   'sparsity pattern of every shape with at most 12 entries, 8 storage variants (unsorted, duplicates, explicit zeros, '
                   'index types, slices), large shapes',
          'thorough': 'shapes 0..14, cubes 1..6 cubed, vectors up to 40, patterns of every shape with at most 14 entries'}
ASSUMPTIONS = ['an exception is accepted for element types other than float64, empty arrays, layouts with non-contiguous rows '
               '(direct converters) and sparse formats other than csr_matrix']


def setup(ctx):
    global hm, cpp, core
    import hermipy as hm
    import hermite_cpp as cpp
    import hermipy.core as core


def bits(a):
    return np.ascontiguousarray(np.asarray(a, dtype=float)).view(np.int64)


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    x, y = np.asarray(a, float), np.asarray(b, float)
    nan = np.isnan(x)
    if not np.array_equal(nan, np.isnan(y)):
        return False
    x, y = np.where(nan, 0., x), np.where(nan, 0., y)
    return bool(np.array_equal(bits(x), bits(y)))


SPECIAL = [float('nan'), float('inf'), -float('inf'), -0., 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308,
           -1.1, 1/3., 2.**53 + 2]


def fill(shape, special):
    n = int(np.prod(shape))
    if special:
        v = np.array([SPECIAL[(7*i + 3) % len(SPECIAL)] for i in range(n)])
    else:
        v = np.array([(i + 1)*1.25 + .1 for i in range(n)])
    return v.reshape(shape)


def layouts(base):
    """Views with the values of base in many memory layouts."""
    r, c = base.shape
    out = {'C': base.copy(), 'F': np.asfortranarray(base)}
    out['T'] = np.ascontiguousarray(base.T).T
    for name, (fr, fc) in {'rows2': (2, 1), 'rows3': (3, 1), 'cols2': (1, 2), 'both2': (2, 2)}.items():
        big = np.full((r*fr + 1, c*fc + 1), 77.)
        v = big[:r*fr:fr, :c*fc:fc]
        v[...] = base
        out[name] = v
    for name, (sr, sc) in {'rev rows': (-1, 1), 'rev cols': (1, -1), 'rev both': (-1, -1)}.items():
        big = base[::sr, ::sc].copy()
        out[name] = big[::sr, ::sc]
    big = np.full((r + 3, c + 4), -55.)
    big[1:1+r, 2:2+c] = base
    out['inner'] = big[1:1+r, 2:2+c]
    cube = np.full((r, c, 3), 33.)
    cube[:, :, 1] = base
    out['plane'] = cube[:, :, 1]
    cube = np.full((r, 3, c), 33.)
    cube[:, 1, :] = base
    out['rows of cube'] = cube[:, 1, :]
    rec = np.zeros((r, c), dtype=[('a', 'f8'), ('b', 'f4')])
    rec['a'] = base
    rec['b'] = 9
    out['packed record'] = rec['a']
    rec = np.zeros((r, c), dtype=[('a', 'f8'), ('b', 'f8')])
    rec['a'] = base
    rec['b'] = 9
    out['wide record'] = rec['a']
    rec = np.zeros((r,), dtype=[('b', 'i4'), ('a', 'f8', (c,))])
    rec['a'] = base
    rec['b'] = 9
    out['rows of records'] = rec['a']
    ro = base.copy()
    ro.flags.writeable = False
    out['read only'] = ro
    return out


def must_pass(a):
    """Direct converters: native float64, rows contiguous, at least one entry."""
    if a.dtype != np.dtype('=f8') or a.size == 0:
        return False
    if a.shape[1] > 1 and a.strides[1] != a.itemsize:
        return False
    return True


DIRECT = {
    'to_mat': lambda a: cpp.to_numpy(cpp.to_mat(a)),
    'to_bmat': lambda a: cpp.to_numpy(cpp.to_bmat(a)),
    'to_boost_mat': lambda a: cpp.to_numpy(cpp.to_boost_mat(a)),
}
PY = {
    'to_cpp_array': lambda a: core.to_numpy(core.to_cpp_array(a)),
    'to_cpp': lambda a: core.to_numpy(core.to_cpp(a)),
    'convert_to_cpp_mat': lambda a: core.to_numpy(core.convert_to_cpp_mat(a)),
    'np.array(convert_to_cpp_mat)': lambda a: np.array([list(v) for v in core.convert_to_cpp_mat(a)]).reshape(a.shape),
    'to_cpp(list)': lambda a: core.to_numpy(core.to_cpp(a.tolist())),
    'to_cpp_array(list of rows)': lambda a: core.to_numpy(core.to_cpp_array([row for row in a])),
}


def one(ctx, name, fn, a, must):
    ctx.case('%s on %s %s strides %s: %s' % (name, a.dtype, a.shape, a.strides, a.tolist()))
    want = np.array(a)
    ctx.step()
    try:
        r = fn(a)
    except Exception as e:
        ctx.check(not must, lambda: 'refused: %s: %s' % (type(e).__name__, e))
        ctx.count('refused')
        return
    if r is None:
        ctx.check(not must, 'refused')
        return
    if want.size == 0:
        ctx.check(np.size(r) == 0, lambda: 'an empty array became %s' % np.asarray(r).tolist())
        return
    gc.collect(0)
    junk = [np.full(a.shape, 1e9) for _ in range(3)]
    ctx.check(np.iscomplexobj(want) is False, 'complex values accepted')
    if np.iscomplexobj(want):
        return
    ctx.check(equal(r, want), lambda: 'converted to shape %s, values %s' % (np.shape(r), np.asarray(r).tolist()))
    ctx.check(equal(a, want), 'the argument was modified')
    ctx.trace()
    # independent memory
    if isinstance(r, np.ndarray) and r.size and a.flags.writeable:
        r[...] = 42.
        ctx.check(equal(a, want), 'the result shares memory with the argument')
    del junk


def task_dense(ctx, r, c):
    for special in (False, True):
        base = fill((r, c), special)
        for lname, a in layouts(base).items():
            ctx.state(('dense', r, c, special, lname))
            for name, fn in DIRECT.items():
                one(ctx, name, fn, a, must_pass(a))
            for name, fn in PY.items():
                one(ctx, name, fn, a, a.size > 0)
    base = np.arange(r*c).reshape(r, c) % 2
    for dt in ('f4', 'f2', 'g', 'i4', 'i8', 'u1', 'bool', 'c16', '>f8', 'O', 'U5'):
        a = base.astype(dt)
        ctx.state(('dtype', r, c, dt))
        for name, fn in itertools.chain(DIRECT.items(), PY.items()):
            if dt == 'U5':
                ctx.case('%s on an array of text %s' % (name, a.shape))
                try:
                    x = fn(a)
                except Exception:
                    continue
                ctx.check(x is None or x.size == 0 or name == 'to_cpp(list)', 'text converted')
                continue
            one(ctx, name, fn, a, False)
    for dt in ('c16',):
        a = base.astype(dt) + 1j
        for name, fn in itertools.chain(DIRECT.items(), PY.items()):
            ctx.case('%s on complex values %s' % (name, a.shape))
            try:
                x = fn(a)
            except Exception:
                continue
            ctx.check(x is None or x.size == 0, 'complex values accepted')
    # other numbers of dimensions
    if r and c:
        for nd in (0, 1, 3, 4):
            a = np.ones({0: (), 1: (c,), 3: (r, c, 2), 4: (r, c, 2, 1)}[nd])
            for name, fn in DIRECT.items():
                ctx.case('%s on an array of shape %s' % (name, a.shape))
                try:
                    fn(a)
                    ctx.fail('accepted')
                except Exception:
                    pass
            ctx.state(('nd', r, c, nd))
        # nested lists, tuples, ragged rows
        base = fill((r, c), False)
        for name, arg in (('lists', base.tolist()), ('list of arrays', list(base)), ('tuples', tuple(map(tuple, base.tolist())))):
            one(ctx, 'convert_to_cpp_mat(%s)' % name, lambda a, arg=arg: core.to_numpy(core.convert_to_cpp_mat(arg)), base, True)
        if r > 1:
            for cut in range(r):
                for extra in (-1, 1):
                    rag = base.tolist()
                    rag[cut] = rag[cut][:-1] if extra < 0 else rag[cut] + [5.]
                    ctx.case('ragged rows %s' % rag)
                    ctx.step()
                    ctx.state(('ragged', r, c, cut, extra))
                    try:
                        x = core.to_numpy(core.convert_to_cpp_mat(rag))
                    except Exception:
                        continue
                    ctx.fail('ragged rows became %s' % np.asarray(x).tolist())
    ctx.sample('%d x %d: every layout, element type and converter' % (r, c))


def task_vectors(ctx, n_max):
    for n in range(n_max + 1):
        for special in (False, True):
            base = fill((n,), special)
            big = np.full(3*n + 1, 7.)
            big[1:3*n+1:3] = base
            for lname, a in (('array', base), ('strided', big[1:3*n+1:3]), ('reversed', base[::-1].copy()[::-1]),
                             ('big endian', base.astype('>f8')), ('broadcast', np.broadcast_to(base[:1], (n,)) if n else base)):
                ctx.state(('vec', n, special, lname))
                one(ctx, 'convert_to_cpp_vec', lambda a: core.to_numpy(core.convert_to_cpp_vec(a)), a, a.dtype == np.dtype(float))
                one(ctx, 'convert_to_cpp_vec(list)', lambda a: core.to_numpy(core.convert_to_cpp_vec(a.tolist())), a, True)
                one(ctx, 'to_cpp_array', lambda a: core.to_numpy(core.to_cpp_array(a)), a, n > 0 and a.dtype == np.dtype(float))
                one(ctx, 'to_cpp', lambda a: core.to_numpy(core.to_cpp(a)), a, n > 0 and a.dtype == np.dtype(float))
                one(ctx, 'to_cpp(list)', lambda a: core.to_numpy(core.to_cpp(a.tolist())), a, n > 0)
    # several arguments at once keep their order
    for k in (2, 3):
        for shapes in itertools.product([(2,), (3,), (1, 2), (2, 3), (1, 1, 2)], repeat=k):
            arrs = [fill(s, False) + 10*i for i, s in enumerate(shapes)]
            ctx.case('to_cpp of arrays of shapes %s' % (shapes,))
            ctx.state(('multi', shapes))
            ctx.step(2)
            for f in (core.to_cpp, core.to_cpp_array):
                out = list(f(*arrs))
                ctx.check(len(out) == k and all(equal(core.to_numpy(o), a) for o, a in zip(out, arrs)), 'values or order changed')
            ctx.trace()
    # integer vectors
    for v in itertools.product([0, 1, 255, 65536, 2**31, 2**32 - 1], repeat=2):
        ctx.case('int_vec of %s' % (v,))
        iv = cpp.int_vec()
        iv.extend(list(v))
        ctx.step()
        ctx.state(('ivec', v))
        ctx.check(list(iv) == list(v), 'values %s' % list(iv))
    for bad in (-1, 2**32, 2**64, -2**40, 1.5, 'a', None):
        ctx.case('int_vec of %r' % (bad,))
        iv = cpp.int_vec()
        try:
            iv.extend([bad])
        except Exception:
            continue
        ctx.fail('accepted as %s' % list(iv))


def task_cubes(ctx, m):
    for shape in itertools.product(range(1, m + 1), repeat=3):
        for special in (False, True):
            base = fill(shape, special)
            for lname, a in (('C', base), ('F', np.asfortranarray(base)), ('T', base.transpose(2, 1, 0).copy().transpose(2, 1, 0)),
                             ('rev', base[::-1, ::-1, ::-1].copy()[::-1, ::-1, ::-1])):
                ctx.state(('cube', shape, special, lname))
                for name, fn in (('convert_to_cpp_cube', lambda a: core.to_numpy(core.convert_to_cpp_cube(a))),
                                 ('to_cpp_array', lambda a: core.to_numpy(core.to_cpp_array(a))),
                                 ('to_cpp', lambda a: core.to_numpy(core.to_cpp(a))),
                                 ('to_cpp(list)', lambda a: core.to_numpy(core.to_cpp(a.tolist()))),
                                 ('to_cpp_array(lists)', lambda a: core.to_numpy(core.to_cpp_array(a.tolist())))):
                    one(ctx, name, fn, a, True)


def sparse_variants(dense, pattern):
    """csr matrices with the given dense value, stored in different ways."""
    r, c = dense.shape
    m = ss.csr_matrix((np.array([dense[i, j] for i, j in pattern]),
                       (np.array([i for i, j in pattern], int), np.array([j for i, j in pattern], int))), shape=(r, c))
    out = {'csr': m}
    # unsorted indices
    u = m.copy()
    for i in range(r):
        s = slice(u.indptr[i], u.indptr[i+1])
        u.indices[s], u.data[s] = u.indices[s][::-1].copy(), u.data[s][::-1].copy()
    u.has_sorted_indices = False
    out['unsorted'] = u
    # duplicates (summed)
    data, ind, ptr = [], [], [0]
    for i in range(r):
        row = [(j, dense[i, j]) for ii, j in pattern if ii == i]
        for j, v in row:
            data.append(v/2)
            ind.append(j)
        for j, v in row[::-1]:
            data.append(v/2)
            ind.append(j)
        ptr.append(len(ind))
    out['duplicates'] = ss.csr_matrix((np.array(data, float), np.array(ind, 'i4'), np.array(ptr, 'i4')), shape=(r, c))
    # explicit zeros everywhere else
    z = ss.csr_matrix((dense.ravel().copy(), np.tile(np.arange(c, dtype='i4'), r), np.arange(0, r*c+1, c, dtype='i4')), shape=(r, c))
    out['explicit zeros'] = z
    m64 = m.copy()
    m64.indices, m64.indptr = m64.indices.astype('i8'), m64.indptr.astype('i8')
    out['64-bit indices'] = m64
    big = ss.csr_matrix(np.pad(dense, ((1, 2), (2, 1)), constant_values=3.5))
    out['slice'] = big[1:1+r, 2:2+c]
    out['sum'] = ss.csr_matrix(m*.5 + m*.5)
    out['transposed'] = ss.csr_matrix(m.T.tocsr().T)
    return out


def same_sparse(ctx, name, s, dense, mats):
    ctx.step()
    try:
        r = mats()
    except Exception as e:
        ctx.fail('%s: %s: %s' % (name, type(e).__name__, e))
        return
    if ss.issparse(r):
        ctx.check(isinstance(r, ss.csr_matrix), '%s: type %s' % (name, type(r).__name__))
        a = np.asarray(r.todense())
        ctx.check(r.nnz <= max(1, r.shape[0]*r.shape[1]) and
                  (r.nnz == 0 or (r.indices.max() < r.shape[1] and r.indices.min() >= 0)), '%s: structure' % name)
    else:
        a = np.asarray(r)
    ctx.check(a.shape == dense.shape and np.array_equal(a, dense),
              lambda: '%s: shape %s values %s instead of %s' % (name, a.shape, a.tolist(), dense.tolist()))
    ctx.trace()


def task_sparse(ctx, r, c, part, n_parts):
    cells = [(i, j) for i in range(r) for j in range(c)]
    vals = np.array([(k + 1)*(-1)**k*.75 for k in range(r*c)]).reshape(r, c)
    for bitset in range(2**len(cells)):
        if bitset % n_parts != part:
            continue
        pattern = [cell for k, cell in enumerate(cells) if bitset >> k & 1]
        dense = np.zeros((r, c))
        for i, j in pattern:
            dense[i, j] = vals[i, j]
        ctx.case('sparse %dx%d with entries %s' % (r, c, pattern))
        variants = sparse_variants(dense, pattern)
        ctx.state(('sparse', r, c, bitset))
        for vname, m in variants.items():
            before = (m.data.copy(), m.indices.copy(), m.indptr.copy())
            same_sparse(ctx, 'convert_to_cpp_sparse/' + vname, m, dense, lambda: core.to_csr(core.convert_to_cpp_sparse(m)))
            if vname == 'csr' or bitset % 3 == 0:
                same_sparse(ctx, 'to_cpp/' + vname, m, dense, lambda: core.to_numpy(core.to_cpp(m)))
                if r and c:
                    same_sparse(ctx, 'full/' + vname, m, dense, lambda: core.to_numpy(cpp.full(core.convert_to_cpp_sparse(m))))
            ctx.check(all(np.array_equal(x, y) for x, y in zip(before, (m.data, m.indices, m.indptr))), 'the argument was modified')
        same_sparse(ctx, 'to_spmat(mat)', None, dense, lambda: core.to_csr(cpp.to_spmat(core.convert_to_cpp_mat(dense))))
        rcv = np.array(cpp.row_col_val(core.convert_to_cpp_sparse(variants['csr'])))
        got = sorted((int(i), int(j), v) for i, j, v in rcv.T) if rcv.size else []
        ctx.check(got == sorted((i, j, dense[i, j]) for i, j in pattern), 'row_col_val: %s' % got)
        ctx.outcome((r, c, bitset))
    ctx.sample('%dx%d: every sparsity pattern' % (r, c))


VALUES = [0., -0., 1., -1., 1e-9, -1e-13, 1e-16, 1e-20, 1e-160, -1e-200, 2.3e-308, 1e-17 + 1., 1e16, -1e300, float('inf'), -float('inf')]


def task_values(ctx, part, n_parts):
    """Every combination of values in 2x2 and 1x3 matrices."""
    for r, c in ((2, 2), (1, 3)):
        for k, vals in enumerate(itertools.product(VALUES, repeat=r*c)):
            if k % n_parts != part or r*c == 4 and any(v == 1e-17 + 1. for v in vals):
                continue
            dense = np.array(vals).reshape(r, c)
            ctx.case('values %s' % (vals,))
            ctx.state(vals)
            s = ss.csr_matrix(dense)
            same_sparse(ctx, 'to_spmat', None, dense, lambda: core.to_csr(cpp.to_spmat(core.convert_to_cpp_mat(dense))))
            same_sparse(ctx, 'csr', s, dense, lambda: core.to_csr(core.convert_to_cpp_sparse(s)))
            same_sparse(ctx, 'full', s, dense, lambda: core.to_numpy(cpp.full(core.convert_to_cpp_sparse(s))))


def task_large(ctx):
    """Large matrices, vectors and cubes: every third, seventh... entry filled."""
    for shape in ((40, 1000), (1000, 40), (257, 255), (1, 66000), (66000, 1), (513, 513)):
        for step in (1, 3, 7, 64, 255, 256, 1000):
            n = shape[0]*shape[1]
            dense = np.zeros(n)
            dense[::step] = np.arange(len(dense[::step])) + .5
            dense = dense.reshape(shape)
            ctx.case('shape %s, every %dth entry' % (shape, step))
            ctx.state((shape, step))
            s = ss.csr_matrix(dense)
            calls = [('to_spmat', lambda: core.to_csr(cpp.to_spmat(core.convert_to_cpp_mat(dense)))),
                     ('csr', lambda: core.to_csr(core.convert_to_cpp_sparse(s))),
                     ('full', lambda: core.to_numpy(cpp.full(core.convert_to_cpp_sparse(s)))),
                     ('dense', lambda: core.to_numpy(core.convert_to_cpp_mat(dense))),
                     ('transposed', lambda: core.to_numpy(core.convert_to_cpp_mat(dense.T)).T)]
            for name, fn in calls:
                same_sparse(ctx, name, None, dense, fn)
    for n in (255, 256, 257, 1000, 65535, 65536, 65537, 300000):
        ctx.case('vector of %d entries' % n)
        v = np.arange(n) + .25
        ctx.step()
        ctx.check(np.array_equal(core.to_numpy(core.to_cpp(v)), v), 'values')
        ctx.trace()
    for shape in ((20, 30, 40), (1, 300, 2), (300, 1, 2), (2, 3, 300)):
        ctx.case('cube of shape %s' % (shape,))
        v = np.arange(np.prod(shape)).reshape(shape) + .25
        ctx.step()
        r = core.to_numpy(core.to_cpp(v))
        ctx.check(r.shape == shape and np.array_equal(r, v), 'values')
        ctx.trace()


def task_sparse_misc(ctx):
    # empty shapes and large shapes
    for shape in [(0, 0), (0, 3), (3, 0), (1, 1)]:
        m = ss.csr_matrix(shape)
        ctx.case('empty sparse matrix of shape %s' % (shape,))
        ctx.state(('empty', shape))
        ctx.step()
        try:
            r = core.to_csr(core.convert_to_cpp_sparse(m))
        except Exception:
            ctx.check(0 in shape, 'refused')
            continue
        ctx.check(r.shape == shape and r.nnz == 0, 'shape %s' % (r.shape,))
    for shape in [(2, 70000), (70000, 2), (300, 300), (1, 2**31 - 1)]:
        for corner in itertools.product((0, shape[0]-1), (0, shape[1]-1)):
            m = ss.csr_matrix(([2.5], ([corner[0]], [corner[1]])), shape=shape)
            ctx.case('sparse matrix of shape %s with one entry at %s' % (shape, corner))
            ctx.state(('large', shape, corner))
            ctx.step()
            r = core.to_csr(core.convert_to_cpp_sparse(m))
            ctx.check(r.shape == shape and r.nnz == 1 and r[corner] == 2.5, 'shape %s, %s' % (r.shape, r))
            ctx.trace()
    m = ss.csr_matrix(np.array([[1., 0., 2.], [0., 3., 0.]]))
    for kind in ('csc', 'coo', 'lil', 'dok', 'bsr', 'dia'):
        x = m.asformat(kind)
        ctx.case('sparse matrix in format %s' % kind)
        ctx.state(('format', kind))
        ctx.step()
        for fn in (lambda: core.to_csr(core.convert_to_cpp_sparse(x)), lambda: core.to_numpy(core.to_cpp(x))):
            try:
                r = fn()
            except Exception:
                continue
            ctx.check(r is None or (r.shape == m.shape and np.array_equal(r.todense(), m.todense())), 'other values')
    for dt in ('f4', 'i8', 'bool', 'c16'):
        x = m.astype(dt)
        ctx.case('csr matrix of %s' % dt)
        ctx.state(('sdtype', dt))
        try:
            r = core.to_csr(core.convert_to_cpp_sparse(x))
        except Exception:
            continue
        ctx.check(dt != 'c16' and np.array_equal(r.todense(), x.todense()), 'other values')
    for bad in (None, 3, [1.], np.eye(2), 'text'):
        for fn in (core.to_csr, core.convert_to_cpp_sparse):
            ctx.case('%s(%r)' % (fn.__name__, bad))
            ctx.step()
            try:
                fn(bad)
                ctx.fail('accepted')
            except Exception:
                pass


def tasks(tier):
    th = tier == 'thorough'
    out = []
    limit = 14 if th else 12
    for r in range(1, limit + 1):
        for c in range(1, limit + 1):
            if r*c <= limit:
                k = max(1, 2**(r*c) // 64)
                for p in range(k):
                    out.append(['sparse', r, c, p, k])
    n = 14 if th else 8
    for r in range(n + 1):
        for c in range(n + 1):
            out.append(['dense', r, c])
    out += [['vectors', 40 if th else 12], ['cubes', 6 if th else 4], ['smisc'], ['large']]
    out += [['values', p, 16] for p in range(16)]
    return out


def run_task(ctx, task):
    if task[0] == 'sparse':
        task_sparse(ctx, *task[1:])
    elif task[0] == 'dense':
        task_dense(ctx, *task[1:])
    elif task[0] == 'vectors':
        task_vectors(ctx, task[1])
    elif task[0] == 'cubes':
        task_cubes(ctx, task[1])
    elif task[0] == 'values':
        task_values(ctx, *task[1:])
    elif task[0] == 'large':
        task_large(ctx)
    else:
        task_sparse_misc(ctx)
