"""C02: sizes, degrees, positions agree with the enumeration."""
import itertools
import math

import ref
import c01

MEANING = ('states = (kind, dim, degree) and (kind, multi-index) visited, transitions = lookups executed '
           'on the library, traces = degrees at which size, degree, positions and objects were compared')
BOUNDS = {'quick': 'sizes and degrees: dim 1..8, degree <= 250, size <= 1e6 (2e5 for cross, 6000 for cross_nc), and all sizes below 2^32 with '
                   'their neighbours; larger sizes are refused (triangle, cube, rectangle); '
                   'positions: all multi-indices of sets of size <= 3000, and all combinations of menus of entries up to 250 (positions up to 2^31); '
                   'objects: size <= 400',
          'thorough': 'positions: size <= 30000; objects: size <= 3000; cross size <= 3e6'}
ASSUMPTIONS = c01.ASSUMPTIONS


def tasks(tier):
    out = []
    for kind in ref.SETS:
        for dim in (8, 7, 6, 5, 4, 3, 2, 1):
            if dim > 5:
                out.append({'kind': kind, 'dim': dim, 'what': 'size', 'part': 0, 'parts': 1})
                if kind in ('triangle', 'cube'):
                    out.append({'kind': kind, 'dim': dim, 'what': 'index'})
                if 'cross' not in kind:
                    out.append({'kind': kind, 'dim': dim, 'what': 'huge'})
                continue
            for part in range(1 if 'cross' not in kind else 6):
                out.append({'kind': kind, 'dim': dim, 'what': 'size', 'part': part,
                            'parts': 1 if 'cross' not in kind else 6})
            out.append({'kind': kind, 'dim': dim, 'what': 'objects'})
            if 'cross' not in kind:
                out.append({'kind': kind, 'dim': dim, 'what': 'huge'})
            if kind in ('triangle', 'cube'):
                out.append({'kind': kind, 'dim': dim, 'what': 'index'})
                out.append({'kind': kind, 'dim': dim, 'what': 'far'})
    return out


def setup(ctx):
    global core, hm, np
    import numpy as np
    import hermipy as hm
    import hermipy.core as core


def position(kind, m):
    """Position in the order of the enumeration (verified on the lists by the other tasks)."""
    n = len(m)
    if kind == 'triangle':
        return sum(math.comb(i + sum(m[:i + 1]), i + 1) for i in range(n))
    top = max(m)
    ind = max(i for i in range(n) if m[i] == top)
    # Smaller maximum, then same maximum first reached (from the right) at an earlier direction, then mixed radix
    result, unit = top**n + sum((top + 1)**i*top**(n - i - 1) for i in range(ind)), 1
    for i in range(n):
        if i != ind:
            result += unit*m[i]
            unit *= top + 1 if i < ind else top
    return result


def far(ctx, kind, dim, quick):
    """Positions of multi-indices of high degree: all combinations of a menu of entries."""
    menu = {1: range(251), 2: range(0, 251, 3), 3: (0, 1, 2, 9, 10, 11, 31, 63, 64, 99, 100, 101, 127, 128, 200, 249, 250),
            4: (0, 1, 9, 10, 64, 99, 128, 180), 5: (0, 1, 10, 57, 77)}[dim]
    for m in itertools.product(menu, repeat=dim):
        want = position(kind, m)
        if want >= 2**31:
            continue

        def one():
            got = core.iterator_index(list(m), index_set=kind)
            ctx.step()
            ctx.state(m)
            ctx.check(got == want, 'position %r, expected %d' % (got, want))
        ctx.guard({'kind': kind, 'multi-index': m}, one)
    ctx.trace()


def refused(fn):
    try:
        return not isinstance(fn(), int)
    except Exception:
        return True


def huge(ctx, kind, dim):
    """All degrees the library looks up, and sizes up to and beyond 32 bits."""
    sizes = {ref.size(kind, dim, d) for d in range(252)}
    for degree in list(range(252)) + [10**3, 65535, 65536, 10**6, 2**31 - 1, 2**32 - 2]:
        want = ref.size(kind, dim, degree)

        def one():
            ctx.step()
            ctx.state((kind, dim, degree))
            if want >= 2**32:
                ctx.check(refused(lambda: core.iterator_size(dim, degree, index_set=kind)), 'a size of %d is not refused' % want)
                return
            got = core.iterator_size(dim, degree, index_set=kind)
            ctx.check(got == want, lambda: 'size %r, expected %r' % (got, want))
            if degree <= 250:
                back = core.iterator_get_degree(dim, want, index_set=kind)
                ctx.check(back == degree, 'degree %r for %d polynomials' % (back, want))
                for n in (want - 1, want + 1):
                    if n > 0 and n not in sizes:
                        ctx.check(refused(lambda: core.iterator_get_degree(dim, n, index_set=kind)), '%d polynomials are not refused' % n)
        ctx.guard({'kind': kind, 'dim': dim, 'degree': degree, 'huge': True}, one)
    ctx.trace()


def run_task(ctx, task):
    kind, dim, quick = task['kind'], task['dim'], ctx.tier == 'quick'
    if task['what'] == 'size':
        limit = 10**6 if 'cross' not in kind else (2*10**5 if quick else 3*10**6)
        if kind == 'cross_nc':
            limit = 6000 if quick else 60000
        for degree in c01.degrees(kind, dim, limit):
            if degree % task['parts'] != task['part']:
                continue
            want = ref.size(kind, dim, degree)

            def one():
                got = core.iterator_size(dim, degree, index_set=kind)
                ctx.step(2)
                ctx.state((kind, dim, degree))
                ctx.trace()
                ctx.outcome((kind, dim, got))
                ctx.check(got == want, 'size %r, expected %r' % (got, want))
                if kind == 'cross' and dim >= 4 and degree % 7 and degree > 10 and quick:
                    return  # each lookup builds the set of degree 250
                if 'cross' in kind and dim > 5 or kind == 'cross_nc' and dim > 3 and (dim == 5 or degree > 6):
                    return  # each lookup enumerates the triangle of degree 250 + dim
                back = core.iterator_get_degree(dim, want, index_set=kind)
                ctx.check(back == degree, 'degree %r for %d polynomials' % (back, want))
            ctx.guard({'kind': kind, 'dim': dim, 'degree': degree}, one)
    elif task['what'] == 'index':
        limit = 3000 if quick else 30000
        top = max(c01.degrees(kind, dim, limit))

        def one():
            inds = core.iterator_list_indices(dim, top, index_set=kind)
            for i, m in enumerate(inds):
                ml = [int(k) for k in m]
                ctx.case({'kind': kind, 'multi-index': ml})
                got = core.iterator_index(ml, index_set=kind)
                ctx.step()
                ctx.state(tuple(ml))
                ctx.trace()
                ctx.check(got == i, 'position %r, expected %d' % (got, i))
                if i % 17 == 0:
                    got = core.iterator_index(m, index_set=kind)
                    ctx.check(got == i, 'position %r from an array, expected %d' % (got, i))
            ctx.sample({'kind': kind, 'dim': dim, 'last': ml, 'position': len(inds) - 1})
        ctx.guard(task, one)
    elif task['what'] == 'huge':
        huge(ctx, kind, dim)
    elif task['what'] == 'far':
        far(ctx, kind, dim, quick)
    else:
        limit = 400 if quick else 3000
        top = 0
        for degree in c01.degrees(kind, dim, limit):
            if dim >= 4 and 'cross' in kind and top > 6 and quick:
                break
            if kind == 'cross_nc' and dim > 3 and (dim == 5 or degree > 4):
                break
            top += 1

            def one():
                n = ref.size(kind, dim, degree)
                pos = hm.Position(dim=dim)
                s = hm.Series(np.arange(1., n + 1), pos, index_set=kind)
                ctx.step(2)
                ctx.state((kind, dim, degree))
                ctx.trace()
                inds = s.multi_indices()
                ctx.check(s.degree == degree, 'degree of the series is %r' % s.degree)
                ctx.check({tuple(int(i) for i in m) for m in inds} == ref.index_set(kind, dim, degree),
                          'multi-indices of the series')
                if n <= 150:
                    v = hm.Varf(np.eye(n), pos, index_set=kind)
                    ctx.check(v.degree == degree, 'degree of the matrix is %r' % v.degree)
                    ctx.check(np.array_equal(v.multi_indices(), inds), 'multi-indices of the matrix')
            ctx.guard({'kind': kind, 'dim': dim, 'degree': degree, 'object': True}, one)
