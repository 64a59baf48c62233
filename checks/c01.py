"""C01: index sets.  States: multi-indices reached by the library's enumeration;
transitions: successor steps of the enumeration."""
import ref

MEANING = ('states = multi-indices reached by the successor function of the library, transitions = '
           'successor steps executed, traces = complete enumerations compared with the defining set')
BOUNDS = {'quick': 'dim 1..8, every degree with set size <= 6000 (3000 in dim 6..8; dim 1: degree <= 250)',
          'thorough': 'dim 1..8, every degree with set size <= 60000 (dim 1: degree <= 250)'}
ASSUMPTIONS = ['degree >= 1 for the two hyperbolic crosses (degree 0 is refused)']


def degrees(kind, dim, limit):
    d = ref.min_degree(kind)
    while d <= 250 and ref.size(kind, dim, d) <= limit:
        yield d
        d += 1


def tasks(tier):
    limit = 6000 if tier == 'quick' else 60000
    out = []
    for kind in ref.SETS:
        for dim in range(1, 9):
            out.append({'kind': kind, 'dim': dim, 'limit': limit if dim < 6 or tier != 'quick' else limit//2})
    out.append({'kind': 'grid'})
    # Largest first, for balance
    return sorted(out, key=lambda t: -t.get('dim', 0))


def setup(ctx):
    global core, hm_cpp
    import hermipy.core as core
    import hermite_cpp as hm_cpp


def run_grid(ctx):
    import itertools
    top = 6 if ctx.tier == 'quick' else 9
    for dim in (1, 2, 3):
        for bounds in itertools.product(range(1, top), repeat=dim):
            def one():
                v = hm_cpp.int_vec()
                v.extend(list(bounds))
                got = [tuple(r) for r in hm_cpp.list_cube_indices(v)]
                want = list(itertools.product(*[range(b) for b in bounds]))
                ctx.step(len(got))
                ctx.state(('grid', bounds))
                ctx.trace()
                ctx.check(got == want, lambda: 'grid enumeration %s instead of %s' % (got, want))
            ctx.guard({'grid': bounds}, one)


def run_task(ctx, task):
    if task['kind'] == 'grid':
        return run_grid(ctx)
    kind, dim = task['kind'], task['dim']
    previous = None
    for degree in degrees(kind, dim, task['limit']):
        def one():
            nonlocal previous
            arr = core.iterator_list_indices(dim, degree, index_set=kind)
            if arr.ndim != 2 or arr.shape[1] != dim:
                return ctx.fail('shape of the list is %s' % (arr.shape,))
            got = [tuple(int(i) for i in m) for m in arr]
            ctx.step(len(got))
            for m in got:
                ctx.state(m)
            ctx.trace()
            want = ref.index_set(kind, dim, degree)
            have = set(got)
            ctx.outcome((kind, dim, degree, len(got)))
            ctx.check(len(have) == len(got), lambda: 'repeated multi-indices: %s' %
                      sorted(m for m in have if got.count(m) > 1)[:5])
            ctx.check(have == want, lambda: 'missing %s, not in the set %s' %
                      (sorted(want - have)[:5], sorted(have - want)[:5]))
            ctx.check(got[0] == (0,)*dim, lambda: 'first multi-index is %s' % (got[0],))
            if previous is not None and kind != 'cross_nc':
                ctx.check(got[:len(previous)] == previous, lambda:
                          'list of degree %d is not a prefix of the list of degree %d'
                          % (degree - 1, degree))
            previous = got
            if degree == 3:
                ctx.sample({'kind': kind, 'dim': dim, 'degree': 3, 'list': [list(m) for m in got[:12]]})
        ctx.guard({'kind': kind, 'dim': dim, 'degree': degree}, one)
