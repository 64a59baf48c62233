"""C08: tensorisation, projection, partial inner products."""
import itertools

import numpy as np
import ref

MEANING = ('states = (operation, directions, index set, degree, input); transitions = calls; traces = (operation, '
           'directions, index set, degree) on which all inputs agreed with tensor algebra')
BOUNDS = {'quick': 'dim 1..4 (degree 0..4 in dim 1, 2; 0..3 in dim 3; 0..2 in dim 4), 5 index sets; tensorize: all set '
                   'partitions x all orders of the groups, dense and sparse, all combinations of unit vectors and of '
                   'unit matrices (up to 300 combinations) and generic inputs; project: all non-empty subsets of directions in '
                   'all orders (increasing for rectangle), every unit vector / generic matrix, dense and sparse; inner: all pairs of sets of '
                   'directions among 4, all pairs of unit vectors; objects: the same through Series and Varf',
          'thorough': 'degree 0..7 in dim 1, 2; 0..5 in dim 3; 0..3 in dim 4; unit matrices up to 5000 combinations'}
ASSUMPTIONS = ['directions of matrices and inner products are given in increasing order (documented precondition)']


def tops(tier):
    return {1: 4, 2: 4, 3: 3, 4: 2} if tier == 'quick' else {1: 7, 2: 7, 3: 5, 4: 3}


def tasks(tier):
    out = []
    for dim, top in tops(tier).items():
        for kind in ref.SETS:
            for degree in range(ref.min_degree(kind), top + 1):
                if dim == 4:
                    out += [{'what': w, 'dim': dim, 'kind': kind, 'degree': degree, 'part': p}
                            for w in ('tensor',) for p in range(5)]
                    out += [{'what': w, 'dim': dim, 'kind': kind, 'degree': degree} for w in ('project', 'inner')]
                else:
                    out += [{'what': w, 'dim': dim, 'kind': kind, 'degree': degree}
                            for w in ('tensor', 'project')]
    out += [{'what': 'objects', 'kind': k, 'degree': d} for k in ref.SETS for d in (1, 2, 3)]
    out += [{'what': 'large', 'dim': dim, 'kind': k, 'degree': d} for dim, d in ((1, 15), (2, 12), (3, 11)) for k in ref.SETS]
    out += [{'what': 'large', 'dim': dim, 'kind': k, 'degree': d} for dim, k, d in
            ((5, 'triangle', 1), (5, 'triangle', 2), (5, 'cube', 1), (5, 'rectangle', 1), (5, 'cross', 1), (6, 'triangle', 1), (6, 'cube', 1))]
    return sorted(out, key=lambda t: -t.get('dim', 5)*10 - t['degree'])


def setup(ctx):
    global core, hm, ss
    import hermipy as hm
    import hermipy.core as core
    import scipy.sparse as ss


def dense(m):
    return m.toarray() if hasattr(m, 'toarray') else np.asarray(m)


_lists = {}


def idx(dim, degree, kind):
    k = (dim, degree, kind)
    if k not in _lists:
        l = [tuple(m) for m in core.iterator_list_indices(dim, degree, index_set=kind).tolist()]
        _lists[k] = (l, {m: i for i, m in enumerate(l)})
    return _lists[k]


def ref_vec(parts, vecs, dim, degree, kind):
    l, _ = idx(dim, degree, kind)
    out = np.ones(len(l))
    for g, v in zip(parts, vecs):
        w = idx(len(g), degree, kind)[1]
        out *= np.array([v[w[tuple(m[d] for d in g)]] for m in l])
    return out


def ref_mat(parts, mats, dim, degree, kind):
    l, _ = idx(dim, degree, kind)
    out = np.ones((len(l), len(l)))
    for g, a in zip(parts, mats):
        w = idx(len(g), degree, kind)[1]
        ii = [w[tuple(m[d] for d in g)] for m in l]
        out *= a[np.ix_(ii, ii)]
    return out


# Cost of looking up the degree of a cross in the library (seconds): bounds the number of inputs
COST = {('cross_nc', 3): .03, ('cross_nc', 4): 1.3, ('cross', 4): .02, ('cross', 3): .004}


def some(ctx, inputs, kind, *dims):
    """The inputs affordable for this index set (all of them for the cheap ones)."""
    cost = sum(COST.get((kind, d), 0) for d in dims)
    budget = (.3 if ctx.tier == 'quick' else 30.)
    return inputs if cost == 0 else inputs[:max(1, int(budget/cost))]


def units(sizes, limit):
    total = int(np.prod(sizes))
    if total > limit:
        return []
    return itertools.product(*[range(s) for s in sizes])


def run_tensor(ctx, task):
    dim, kind, degree = task['dim'], task['kind'], task['degree']
    limit = 300 if ctx.tier == 'quick' else 5000
    n = len(idx(dim, degree, kind)[0])
    for pi, partition in enumerate(ref.set_partitions(range(dim))):
        if 'part' in task and pi % 5 != task['part']:
            continue
        partition = [sorted(g) for g in partition]
        sizes0 = None
        for oi, order in enumerate(itertools.permutations(partition)):
            order = [list(g) for g in order]
            sizes = [len(idx(len(g), degree, kind)[0]) for g in order]

            def vectors():
                inputs = [[ref.generic(s, 2 + i) for i, s in enumerate(sizes)]]
                inputs.append([ref.magnitudes(v) for v in inputs[0]])
                if oi == 0:
                    for combo in units(sizes, limit):
                        inputs.append([np.eye(s)[c] for s, c in zip(sizes, combo)])
                for vecs in some(ctx, inputs, kind, len(order[0])):
                    want = ref_vec(order, vecs, dim, degree, kind)
                    got = core.tensorize({frozenset(g): v for g, v in zip(order, vecs)}, index_set=kind)
                    ctx.step()
                    ctx.state()
                    ctx.check(ref.exact(got, want, 1e-12), lambda: 'vectors: ' + ref.maxdiff(got, want))
                # projection recovers the factors
                vecs = inputs[0]
                t = ref_vec(order, vecs, dim, degree, kind)
                for i, g in enumerate(order if oi == 0 or (kind, dim) not in COST else []):
                    if (kind, dim) == ('cross_nc', 4) and i:
                        continue
                    c = np.prod([v[0] for j, v in enumerate(vecs) if j != i])
                    p = core.project(t, dim, g, index_set=kind)
                    ctx.step()
                    want = vecs[i]*c
                    if kind == 'rectangle':
                        want = np.array([x if ref.member(kind, [m[g.index(d)] if d in g else 0 for d in range(dim)], degree)
                                         else 0. for m, x in zip(idx(len(g), degree, kind)[0], want)])
                    ctx.check(ref.exact(p, want, 1e-12), lambda: 'projection of the product: ' + ref.maxdiff(p, want))
                if all(len(g) == 1 for g in order) and order == sorted(order):
                    for vecs in inputs[:20]:
                        got = core.tensorize([v for v in vecs], index_set=kind)
                        want = ref_vec(order, vecs, dim, degree, kind)
                        ctx.step()
                        ctx.check(ref.exact(got, want, 1e-12), lambda: 'list of vectors: ' + ref.maxdiff(got, want))
                    for d in range(dim):
                        got = core.tensorize(inputs[0][d], dim, d, index_set=kind)
                        want = ref_vec(order, [inputs[0][d] if e == d else np.eye(sizes[0])[0] for e in range(dim)],
                                       dim, degree, kind)
                        ctx.step()
                        ctx.check(ref.exact(got, want, 1e-12), lambda: 'one vector: ' + ref.maxdiff(got, want))
                ctx.outcome(want.tobytes())
                ctx.trace()
            ctx.guard({'tensorize': 'vectors', 'groups': order, 'kind': kind, 'degree': degree}, vectors)

            if (n > 60 or kind == 'cross_nc' and dim > 3) and oi > 0 or oi > 5:
                continue

            def matrices():
                gen = [ref.generic(s*s, 3 + i).reshape(s, s) for i, s in enumerate(sizes)]
                inputs = [gen, [np.triu(a) for a in gen], [np.diag(np.diag(a)) for a in gen],
                          [a*(np.arange(a.size).reshape(a.shape) % 3 == i % 2) for i, a in enumerate(gen)],
                          [ref.magnitudes(a) for a in gen]]
                if oi == 0:
                    for combo in units([s*s for s in sizes], limit):
                        m = []
                        for s, c in zip(sizes, combo):
                            a = np.zeros((s, s))
                            a.flat[c] = 1.
                            m.append(a)
                        inputs.append(m)
                for k, mats in enumerate(some(ctx, inputs, kind, len(order[0]))):
                    want = ref_mat(order, mats, dim, degree, kind)
                    for sp in (False, True):
                        for arg_sparse in ((False, True) if k == 0 else (False,)):
                            conv = ss.csr_matrix if arg_sparse else (lambda a: a)
                            got = core.tensorize({frozenset(g): conv(a) for g, a in zip(order, mats)}, sparse=sp, index_set=kind)
                            ctx.step()
                            ctx.state()
                            ctx.check(isinstance(got, ss.csr_matrix if sp else np.ndarray), 'storage %s' % type(got))
                            got = dense(got)
                            ctx.check(ref.exact(got, want, 1e-12), lambda: 'matrices, sparse=%s: %s' % (sp, ref.maxdiff(got, want)))
                    if len(order) > 1 and k == 0:     # directions that are not 0..dim-1
                        got = core.tensorize({frozenset(2*d + 1 for d in g): a for g, a in zip(order, mats)}, index_set=kind)
                        ctx.check(ref.exact(got, want, 1e-12), lambda: 'matrices, other directions: ' + ref.maxdiff(got, want))
                        ctx.step()
                if all(len(g) == 1 for g in order) and order == sorted(order):
                    for mats in inputs[:6]:
                        want = ref_mat(order, mats, dim, degree, kind)
                        for sp, conv in itertools.product((False, True), (list, lambda l: [ss.csr_matrix(a) for a in l])):
                            got = core.tensorize(conv(mats), sparse=sp, index_set=kind)
                            ctx.check(isinstance(got, ss.csr_matrix if sp else np.ndarray), 'storage %s' % type(got))
                            got = dense(got)
                            ctx.step()
                            ctx.check(ref.exact(got, want, 1e-12), lambda: 'list of matrices: ' + ref.maxdiff(got, want))
                    for d in range(dim):
                        want = ref_mat(order, [gen[d] if e == d else np.eye(sizes[0]) for e in range(dim)], dim, degree, kind)
                        for sp, conv in itertools.product((False, True), (np.array, ss.csr_matrix)):
                            got = core.tensorize(conv(gen[d]), dim, d, sparse=sp, index_set=kind)
                            ctx.check(isinstance(got, ss.csr_matrix if sp else np.ndarray), 'storage %s' % type(got))
                            got = dense(got)
                            ctx.step()
                            ctx.check(ref.exact(got, want, 1e-12), lambda: 'one matrix: ' + ref.maxdiff(got, want))
                ctx.trace()
            ctx.guard({'tensorize': 'matrices', 'groups': order, 'kind': kind, 'degree': degree}, matrices)
    ctx.sample(task)


def run_large(ctx, task):
    """Multi-indices with entries of two digits: generic vectors and band matrices."""
    dim, kind, degree = task['dim'], task['kind'], task['degree']
    for partition in ref.set_partitions(range(dim)):
        partition = [sorted(g) for g in partition]
        for order in (partition, partition[::-1]):
            sizes = [len(idx(len(g), degree, kind)[0]) for g in order]

            def tensor():
                vecs = [ref.generic(s, 2 + i) for i, s in enumerate(sizes)]
                want = ref_vec(order, vecs, dim, degree, kind)
                got = core.tensorize({frozenset(g): v for g, v in zip(order, vecs)}, index_set=kind)
                ctx.step()
                ctx.state()
                ctx.check(ref.exact(got, want), lambda: 'vectors: ' + ref.maxdiff(got, want))
                if len(want) > 400:
                    return
                mats = [np.diag(ref.generic(s, 1)) + np.diag(ref.generic(s - 1, 2 + i), 1 - 2*(i % 2)) for i, s in enumerate(sizes)]
                want = ref_mat(order, mats, dim, degree, kind)
                for sp in (False, True):
                    got = dense(core.tensorize({frozenset(g): v for g, v in zip(order, mats)}, sparse=sp, index_set=kind))
                    ctx.step()
                    ctx.check(ref.exact(got, want), lambda: 'matrices: ' + ref.maxdiff(got, want))
                ctx.trace()
            ctx.guard({'tensorize': order, 'kind': kind, 'degree': degree}, tensor)
    l, w = idx(dim, degree, kind)
    n = len(l)
    subs = [list(s) for k in range(1, dim + 1) for s in itertools.permutations(range(dim), k)]
    if dim > 4:
        subs = [list(s) for k in range(1, dim + 1) for s in itertools.combinations(range(dim), k)]
        subs += [s[::-1] for s in subs if len(s) in (2, 3)] + [s[1:] + s[:1] for s in subs if len(s) == 4]
    for sub in subs:
        if kind == 'rectangle' and sub != sorted(sub):
            continue

        def project():
            where = []
            for m in idx(len(sub), degree, kind)[0]:
                full = [0]*dim
                for d, v in zip(sub, m):
                    full[d] = v
                where.append(w.get(tuple(full)))
            v = ref.generic(n, 3)
            want = np.array([0. if i is None else v[i] for i in where])
            got = core.project(v, dim, sub, index_set=kind)
            ctx.step()
            ctx.state()
            ctx.check(ref.exact(got, want), lambda: 'vector: %s' % ref.maxdiff(got, want))
            if n <= 400:
                a = np.diag(v) + np.diag(ref.generic(n - 1, 4), 1) + np.outer(v, np.eye(n)[0])
                want = np.array([[0. if (i is None or j is None) else a[i, j] for j in where] for i in where])
                for sp in (False, True):
                    got = dense(core.project(ss.csr_matrix(a) if sp else a, dim, sub, index_set=kind))
                    ctx.step()
                    ctx.check(ref.exact(got, want), lambda: 'matrix, sparse=%s: %s' % (sp, ref.maxdiff(got, want)))
            ctx.trace()
        ctx.guard({'project': sub, 'dim': dim, 'kind': kind, 'degree': degree}, project)
    if dim == 3 or dim > 4:
        subs = [list(s) for k in range(1, 3 if dim == 3 else 4) for s in itertools.combinations(range(dim), k)]
        for d1, d2 in itertools.product(subs, repeat=2):
            def inner():
                s1, s2 = [ref.generic(len(idx(len(d), degree, kind)[0]), 4 + i) for i, d in enumerate((d1, d2))]
                want = ref_inner(s1, s2, d1, d2, degree, kind)
                got = core.inner(s1, s2, d1, d2, index_set=kind)
                ctx.step()
                ctx.state()
                ctx.check(ref.close(got, want, 1e-11), lambda: 'inner product: ' + ref.maxdiff(got, want))
                ctx.trace()
            if len(set(d1) ^ set(d2)) <= (3 if dim == 3 else 5):
                ctx.guard({'inner': [d1, d2], 'kind': kind, 'degree': degree}, inner)


def run_project(ctx, task):
    dim, kind, degree = task['dim'], task['kind'], task['degree']
    l, w = idx(dim, degree, kind)
    n = len(l)
    for k in range(1, dim + 1):
        for sub in itertools.permutations(range(dim), k):
            if kind == 'rectangle' and list(sub) != sorted(sub):
                continue        # the set is not symmetric: refused
            if (kind, dim) == ('cross_nc', 4) and ctx.tier == 'quick' and (list(sub) != sorted(sub) or k >= 3):
                continue
            def one():
                ls = idx(k, degree, kind)[0]
                where = []
                for m in ls:
                    full = [0]*dim
                    for d, v in zip(sub, m):
                        full[d] = v
                    where.append(w.get(tuple(full)))
                def pick(v):
                    return np.array([0. if i is None else v[i] for i in where])
                for i in some(ctx, [None, -1] + list(range(n)), kind, dim, dim):
                    v = ref.generic(n, 3) if i is None else ref.magnitudes(ref.generic(n, 3)) if i < 0 else np.eye(n)[i]
                    got = core.project(v, dim, list(sub), index_set=kind)
                    ctx.step()
                    ctx.state()
                    ctx.check(ref.exact(got, pick(v), 1e-14), lambda: 'vector %s: %s' % (i, ref.maxdiff(got, pick(v))))
                    if k == 1 and i is None:
                        ctx.check(ref.exact(core.project(v, dim, sub[0], index_set=kind), pick(v), 1e-14), 'integer direction')
                a = ref.generic(n*n, 5).reshape(n, n)
                mats = [a, ref.magnitudes(a), np.triu(a), np.diag(np.diag(a)), np.asfortranarray(a)]
                if n <= 10:
                    for j in range(n*n):
                        e = np.zeros((n, n))
                        e.flat[j] = 2.
                        mats.append(e)
                for a in some(ctx, mats, kind, dim, dim):
                    want = np.array([[0. if (i is None or j is None) else a[i, j] for j in where] for i in where])
                    for sp in (False, True):
                        got = core.project(ss.csr_matrix(a) if sp else a, dim, list(sub), index_set=kind)
                        ctx.step()
                        ctx.state()
                        ctx.check(isinstance(got, ss.csr_matrix if sp else np.ndarray), 'storage')
                        ctx.check(ref.exact(dense(got), want, 1e-14), lambda: 'matrix, sparse=%s: %s' % (sp, ref.maxdiff(dense(got), want)))
                ctx.outcome(want.tobytes())
                ctx.trace()
            ctx.guard({'project': sub, 'dim': dim, 'kind': kind, 'degree': degree}, one)
    ctx.sample(task)


def ref_inner(s1, s2, d1, d2, degree, kind):
    common = [d for d in d1 if d in d2]
    res = sorted([d for d in d1 if d not in d2] + [d for d in d2 if d not in d1])
    w1, w2 = idx(len(d1), degree, kind)[1], idx(len(d2), degree, kind)[1]
    lr = idx(len(res), degree, kind)[0] if res else [()]
    out = np.zeros(len(lr))
    inner = list(itertools.product(range(degree + 1), repeat=len(common)))
    for i, m in enumerate(lr):
        pos = dict(zip(res, m))
        for k in inner:
            pos.update(zip(common, k))
            a, b = w1.get(tuple(pos[d] for d in d1)), w2.get(tuple(pos[d] for d in d2))
            if a is not None and b is not None:
                out[i] += s1[a]*s2[b]
    return out


def run_inner(ctx, task):
    kind, degree = task['kind'], task['degree']
    limit = 300 if ctx.tier == 'quick' else 3000
    for d1 in ref.subsets(range(4), 1):
        for d2 in ref.subsets(range(4), 1):
            if kind == 'cross_nc' and ctx.tier == 'quick' and len(d1) + len(d2) > 4 and d1 != d2:
                continue

            def one():
                n1, n2 = len(idx(len(d1), degree, kind)[0]), len(idx(len(d2), degree, kind)[0])
                inputs = [(ref.generic(n1, 2), ref.generic(n2, 3)), (ref.generic(n1, 4), ref.generic(n2, 4)),
                          (ref.magnitudes(ref.generic(n1, 2)), ref.generic(n2, 3)), (ref.generic(n1, 2)*1e-25, ref.generic(n2, 3)*1e-30),
                          (ref.generic(n1, 2)*1e25, ref.generic(n2, 3)*1e30)]
                res = len(set(d1) ^ set(d2))
                if n1*n2 <= limit and res <= 3:
                    inputs += [(np.eye(n1)[i], np.eye(n2)[j]) for i in range(n1) for j in range(n2)]
                if n1 + n2 > 60:
                    inputs = inputs[:1] + inputs[3:4]
                inputs = some(ctx, inputs, kind, len(d1), len(d2))
                for a, b in inputs:
                    want = ref_inner(a, b, d1, d2, degree, kind)
                    got = core.inner(a, b, d1, d2, index_set=kind)
                    ctx.step()
                    ctx.state()
                    ctx.check(ref.relative(got, want, 1e-12), lambda: ref.maxdiff(got, want))
                ctx.outcome(want.tobytes())
                ctx.trace()
            ctx.guard({'inner': [d1, d2], 'kind': kind, 'degree': degree}, one)
    ctx.sample(task)


MEANS = [.1, -.2, .3, -.4]
COVS = [.6, 1.2, .9, 1.5]
TYPES = ['hermite', 'fourier', 'hermite', 'hermite']
FACT = ['exp(-x0**2/9)', '1', '2+x2**2', 'exp(x3/7)']


def run_objects(ctx, task):
    kind, degree = task['kind'], task['degree']
    use_types = TYPES if degree % 2 == 0 else ['hermite']*4

    def pos(dirs):
        return hm.Position(dirs=list(dirs), mean=[MEANS[d] for d in dirs], cov=np.diag([COVS[d] for d in dirs]),
                           types=[use_types[d] for d in dirs])

    def factor(dirs):
        return '*'.join('(%s)' % FACT[d] for d in dirs if d != 2) or '1'

    def same(p, dirs):
        return p.dirs == list(dirs) and np.allclose(p.mean, [MEANS[d] for d in dirs]) \
            and np.allclose(p.cov, np.diag([COVS[d] for d in dirs])) and p.types == [use_types[d] for d in dirs]

    for d1 in ref.subsets(range(4), 1):
        for d2 in ref.subsets(range(4), 1):
            if len(d1) + len(d2) > 5 or kind == 'cross_nc' and max(len(d1), len(d2), len(set(d1) ^ set(d2))) > 3:
                continue

            def one():
                n1, n2 = ref.size(kind, len(d1), degree), ref.size(kind, len(d2), degree)
                a, b = ref.generic(n1, 2), ref.generic(n2, 3)
                s1 = hm.Series(a.copy(), pos(d1), factor=factor(d1), index_set=kind)
                s2 = hm.Series(b.copy(), pos(d2), factor=factor(d2), index_set=kind)
                r = s1*s2
                ctx.step()
                ctx.state()
                res = sorted(set(d1) ^ set(d2))
                want = ref_inner(a, b, d1, d2, degree, kind)
                ctx.check(ref.close(r.coeffs, want, 1e-12), lambda: 'product of series: ' + ref.maxdiff(r.coeffs, want))
                if res:
                    ctx.check(same(r.position, res) and r.index_set == kind and r.degree == degree, 'position of the product')
                    ctx.check(r.factor == hm.Function(factor(res), dirs=res), 'factor of the product: %s' % r.factor)
                else:
                    ctx.check(abs(float(r) - want[0]) < 1e-12, 'scalar product')
                ctx.check(np.array_equal(s1.coeffs, a) and np.array_equal(s2.coeffs, b), 'operands modified')
                ctx.outcome(want.tobytes())
            ctx.guard({'series': [d1, d2], 'kind': kind, 'degree': degree}, one)
    for dirs in ref.subsets(range(4), 2):
        if len(dirs) == 4 and (degree > 2 or kind == 'cross_nc'):
            continue
        for part in ref.set_partitions(dirs):
            for order in itertools.permutations([sorted(g) for g in part]):
                def one():
                    l = idx(len(dirs), degree, kind)[0]
                    rel = [[dirs.index(d) for d in g] for g in order]
                    mats = [ref.generic(ref.size(kind, len(g), degree)**2, i + 1).reshape(ref.size(kind, len(g), degree), -1)
                            for i, g in enumerate(order)]
                    want = ref_mat(rel, mats, len(dirs), degree, kind)
                    vs = [hm.Varf(m.copy(), pos(g), factor=factor(g), index_set=kind) for m, g in zip(mats, order)]
                    for sp in (False, True):
                        v = hm.Varf.tensorize(vs, sparse=sp)
                        ctx.step()
                        ctx.state()
                        ctx.check(ref.close(dense(v.matrix), want, 1e-12), lambda: 'Varf.tensorize: ' + ref.maxdiff(dense(v.matrix), want))
                        ctx.check(same(v.position, dirs) and v.factor == hm.Function(factor(dirs), dirs=dirs)
                                  and v.index_set == kind and v.degree == degree, 'attributes of Varf.tensorize')
                    vecs = [m[0] for m in mats]
                    s = hm.Series.tensorize([hm.Series(c.copy(), pos(g), factor=factor(g), index_set=kind)
                                             for c, g in zip(vecs, order)])
                    want = ref_vec(rel, vecs, len(dirs), degree, kind)
                    ctx.check(ref.close(s.coeffs, want, 1e-12), lambda: 'Series.tensorize: ' + ref.maxdiff(s.coeffs, want))
                    ctx.check(same(s.position, dirs) and s.factor == hm.Function(factor(dirs), dirs=dirs), 'attributes')
                    p = hm.Position.tensorize([pos(g) for g in order])
                    ctx.check(same(p, dirs), 'Position.tensorize')
                    qs = [hm.Quad([ref.generic(3, d) for d in g], [ref.generic(3, d + 7) for d in g], position=pos(g),
                                  factor=factor(g)) for g in order]
                    q = hm.Quad.tensorize(qs)
                    ctx.check(same(q.position, dirs) and q.factor == hm.Function(factor(dirs), dirs=dirs)
                              and ref.close(q.nodes, [ref.generic(3, d) for d in dirs], 1e-15)
                              and ref.close(q.weights, [ref.generic(3, d + 7) for d in dirs], 1e-15), 'Quad.tensorize')
                    for g in order:
                        qp = q.project(list(g))
                        ctx.check(same(qp.position, g) and ref.close(qp.nodes, [ref.generic(3, d) for d in g], 1e-15)
                                  and ref.close(qp.weights, [ref.generic(3, d + 7) for d in g], 1e-15)
                                  and qp.factor == hm.Function(factor(g), dirs=list(g)), 'Quad.project')
                        f = hm.Function.tensorize([hm.Function(factor(h), dirs=list(h)) for h in order])
                        ctx.check(f == hm.Function(factor(dirs), dirs=dirs), 'Function.tensorize')
                    ctx.step(6)
                ctx.guard({'objects': order, 'kind': kind, 'degree': degree}, one)
    ctx.trace()


def run_task(ctx, task):
    {'tensor': run_tensor, 'project': run_project, 'inner': run_inner, 'objects': run_objects, 'large': run_large}[task['what']](ctx, task)
