"""C11: the cache survives crashes and concurrent users."""
import os
import shutil
import tempfile

import numpy as np
import ptsched
import ref

MEANING = ('states = situations of the cache directory in which a call was made (distinct contents of the directory after '
           'a run, truncated entries); transitions = scheduled file operations of real processes plus calls on truncated '
           'entries; traces = complete schedules (interleavings or crash histories), each followed by three later calls '
           'compared with the result computed without a cache')
BOUNDS = {'quick': '6 kinds of result (vector, matrix, sparse matrix, float, int, solution of a system); entries truncated to '
                   'every length, calls with and without cache; one process killed before each of its file operations and '
                   'after 1, n/2, n-1 bytes of each write (every byte for small results), starting from an absent, empty, filled or truncated '
                   'cache; two processes: all interleavings of their file operations with at most 2 preemptions, for equal and for '
                   'different calls, four initial contents; three processes with at most 1 preemption; two processes, one killed, '
                   'at most 1 preemption',
          'thorough': 'at most 4 preemptions with two processes, 2 with three, 2 with a crash; every byte of every write'}
ASSUMPTIONS = ['a killed process leaves the effects of its completed system calls (no loss of power)',
               'entries are only damaged by truncation or made unreadable; a file with other readable content cannot be told apart']


def setup(ctx):
    global c10, hm, core, rc, root
    import c10
    c10.setup(ctx)
    hm, core, rc = c10.hm, c10.core, c10.rc
    root = tempfile.mkdtemp(prefix='c11-', dir=os.environ['HOME'])
    make_calls()


def make_calls():
    global CALLS, WANT
    x, w = np.polynomial.hermite_e.hermegauss(4)
    w = w/np.sqrt(2*np.pi)
    v = ref.generic(4, 1)
    q = hm.Quad.gauss_hermite(4, dirs=[0])
    m = q.varf(ref.generic(4, 2), 2)
    s = q.transform(v, 2)
    CALLS = {
        'vector': lambda **o: core.transform(2, v, [x], [w], True, **o),
        'vector2': lambda **o: core.transform(2, -v, [x], [w], True, **o),
        'matrix': lambda **o: core.varf(1, v, [x], [w], **o),
        'sparse': lambda **o: core.varf(1, v, [x], [w], sparse=True, **o),
        'float': lambda **o: core.integrate(v, [x], [w], **o),
        'int': lambda **o: core.iterator_size(2, 3, **o),
        'solve': lambda **o: m.solve(s),
    }
    WANT = {}
    rc.settings['cache'] = False
    for k, f in CALLS.items():
        WANT[k] = f()


def fresh():
    d = os.path.join(root, 'd')
    shutil.rmtree(d, ignore_errors=True)
    return d


def with_cache(d, name, on=True, **o):
    rc.settings['cache'], rc.settings['cachedir'] = on, d
    try:
        return CALLS[name](**o)
    finally:
        rc.settings['cache'] = False


_entry = {}


def entry(name):
    """Name and content of the entry written by the library for this call."""
    if name not in _entry:
        d = os.path.join(root, 'entry')
        shutil.rmtree(d, ignore_errors=True)
        with_cache(d, name)
        files = os.listdir(d)
        out = {}
        for f in files:
            with open(os.path.join(d, f), 'rb') as g:
                out[f] = g.read()
        _entry[name] = out
    return _entry[name]


def prepare(d, initial, names):
    if initial == 'absent':
        return
    os.makedirs(d)
    if initial == 'empty':
        return
    for name in names:
        for f, data in entry(name).items():
            n = {'filled': len(data), 'cut0': 0, 'cut1': len(data) - 1, 'cuth': 100}[initial]
            with open(os.path.join(d, f), 'wb') as g:
                g.write(data[:n])


def later_calls(ctx, d, names):
    """What later users see."""
    for name in names:
        for o in ({}, {'cache': False}, {}):
            if o and name == 'solve':
                continue
            try:
                got = with_cache(d, name, **o)
            except BaseException as e:
                ctx.fail('later call %s %s raised %s: %s' % (name, o or '', type(e).__name__, str(e)[:400]))
                return False
            bad = c10.same(got, WANT[name])
            if bad is not None:
                ctx.fail('later call %s %s: %s' % (name, o or '', bad))
                return False
    return True


def run_truncated(ctx, task):
    name = task['call']
    files = entry(name)
    if not files:
        ctx.fail('no entry was written') if name != 'solve' else None
        return
    for f, data in files.items():
        variants = [('truncated to %d bytes' % n, data[:n]) for n in range(len(data))]
        variants += [('text', b'hello\n'), ('zeros', b'\0'*len(data)), ('only magic', data[:6] + b'\xff'*20),
                     ('other zip', b'PK\x05\x06' + b'\0'*18), ('reversed', data[::-1]), ('complete', data)]
        for text, content in variants:
            for first in ({}, {'cache': False}, {'cache': True}):
                if first and name == 'solve':
                    continue
                d = fresh()
                os.makedirs(d)
                with open(os.path.join(d, f), 'wb') as g:
                    g.write(content)
                ctx.case('%s: entry %s, first call %s' % (name, text, first or 'plain'))
                ctx.state()
                try:
                    got = with_cache(d, name, **first)
                except BaseException as e:
                    ctx.fail('raised %s: %s' % (type(e).__name__, str(e)[:400]))
                    break
                ctx.step()
                bad = c10.same(got, WANT[name])
                ctx.check(bad is None, lambda: bad)
                if bad is not None or not later_calls(ctx, d, [name]):
                    break
                ctx.trace()
            if len(ctx.violations) > 5:
                return


def content(d):
    out = []
    for base, _, files in os.walk(d):
        for f in sorted(files):
            with open(os.path.join(base, f), 'rb') as g:
                out.append((f.split('.')[0], os.path.splitext(f)[1], g.read()))
    return hash(tuple(sorted(out)))


def run_schedules(ctx, task):
    names, options = task['calls'], task.get('options') or [{}]*len(task['calls'])
    d = os.path.join(root, 'd')

    def start():
        fresh()
        prepare(d, task['initial'], names)
        m = ptsched.Machine(lambda p: p.startswith(d))
        agents = [m.spawn(n, lambda n=n, o=o: with_cache(d, n, **o)) for n, o in zip(names, options)]
        return m, agents

    def verdict(m, agents, trace):
        ctx.step(len(trace))
        ctx.case('calls %s, cache %s, schedule: %s' % (names, task['initial'], ptsched.text(trace)))
        ctx.state(content(d))
        for a in agents:
            if a.killed:
                continue
            if a.result is None:
                return ctx.fail('process %s ended without an answer (status %s)' % (a.name, a.status))
            if a.result[0] != 'ok':
                return ctx.fail('process %s: %s' % (a.name, a.result))
            bad = c10.same(a.result[1], WANT[a.name])
            if bad is not None:
                return ctx.fail('process %s: %s' % (a.name, bad))
        if later_calls(ctx, d, list(dict.fromkeys(names))):
            ctx.trace()

    torn = None
    if task.get('torn') == 'all':
        def torn(n):
            return range(0, n)
    elif task.get('torn'):
        def torn(n):
            return sorted({1, n//2, n - 1} - {0, n})
    e = ptsched.Explorer(start, verdict, preemptions=task['preemptions'], crashes=task.get('crashes', 0), torn=torn)
    try:
        e.explore(first=task.get('first'))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.count('schedules', e.runs)
    ctx.count('diverged', e.diverged)
    ctx.sample('%s: %d schedules' % (task, e.runs))


def tasks(tier):
    out = []
    quick = tier == 'quick'
    for c in ('vector', 'matrix', 'sparse', 'float', 'int', 'solve'):
        out.append({'what': 'truncated', 'call': c})
        for initial in ('absent', 'empty', 'filled', 'cut1', 'cut0'):
            small = c in ('vector', 'float', 'int')
            out.append({'what': 'schedules', 'calls': [c], 'initial': initial, 'preemptions': 0, 'crashes': 1,
                        'torn': 'all' if not quick or (small and initial in ('absent', 'cut1')) else 'some'})
    p2, p3, pc = (2, 1, 1) if quick else (4, 2, 2)
    pairs = [(['vector', 'vector'], None), (['sparse', 'sparse'], None), (['vector', 'vector2'], None), (['float', 'float'], None),
             (['vector', 'vector'], [{}, {'cache': False}]), (['vector', 'sparse'], None), (['solve', 'solve'], None)]
    for calls, o in pairs:
        for initial in ('absent', 'empty', 'filled', 'cut1'):
            heavy = calls.count('sparse')
            n = (6 if heavy == 2 else 12 if heavy else 4) if quick else 16
            if quick and heavy == 2 and initial in ('empty',):
                continue
            out += [{'what': 'schedules', 'calls': calls, 'options': o, 'initial': initial,
                     'preemptions': p2 if not quick or (heavy < 2 and 'solve' not in calls) else 1, 'first': [i, n]} for i in range(n)]
            if initial in ('absent', 'cut1') and (not quick or (heavy < 2 and 'solve' not in calls)):
                out += [{'what': 'schedules', 'calls': calls, 'options': o, 'initial': initial, 'preemptions': pc, 'crashes': 1,
                         'torn': 'some', 'first': [i, n]} for i in range(n)]
    for initial in ('absent', 'cut1'):
        out += [{'what': 'schedules', 'calls': ['vector']*3, 'initial': initial, 'preemptions': p3, 'first': [i, 4]} for i in range(4)]
        out += [{'what': 'schedules', 'calls': ['vector', 'vector2', 'vector'], 'initial': initial, 'preemptions': p3, 'first': [i, 4]}
                for i in range(4)]
    return sorted(out, key=lambda t: -('sparse' in t.get('calls', [])) - 2*('first' in t))


def run_task(ctx, task):
    {'truncated': run_truncated, 'schedules': run_schedules}[task['what']](ctx, task)
