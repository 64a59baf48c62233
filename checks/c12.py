"""C12: compiled integrands survive crashes, concurrency and reuse."""
import itertools
import math
import os
import shutil
import signal
import subprocess
import tempfile

import numpy as np
import ptsched
import ref

MEANING = ('states = (files left in the directory of compiled functions, call) situations; transitions = scheduled file '
           'operations of real processes (library, shell and compiler) plus calls of the histories; traces = complete '
           'schedules or histories whose results, and those of later calls, were compared with the values of the functions')
BOUNDS = {'quick': 'one process killed (alone, or with its compiler) before each file operation and within each write of the '
                   'compiler, then two later processes; two processes compiling the same function: all interleavings with at most 2 '
                   'preemptions, and with at most 1 preemption and one crash; different functions, valid and invalid: at most 1 '
                   'preemption; three processes: at most 1 preemption; the same crash points with the real compiler; 6 ways for '
                   'the compiler to fail followed by valid calls; histories: all ordered pairs of 38 similar functions, all triples '
                   'of 8; 4000 functions that differ in one number',
          'thorough': 'at most 4 preemptions (2 with a crash, 2 with three processes), 40000 functions, all triples of 20'}
ASSUMPTIONS = ['std::hash is collision free on the functions met (64 bits)',
               'the stand-in for the compiler writes what the real one wrote, in 4 pieces; crash points are repeated with the real one']

NODES = np.array([-.7, .2, 1.3])


def setup(ctx):
    global hm, core, fake, store, template, real
    import hermipy as hm
    import hermipy.core as core
    home = os.environ['HOME']
    fake, store = os.path.join(home, 'bin'), os.path.join(home, 'store')
    os.makedirs(fake)
    os.makedirs(store)
    here = os.path.dirname(os.path.abspath(__file__))
    subprocess.check_call(['gcc', '-O1', '-o', os.path.join(fake, 'c++'), os.path.join(here, 'native', 'fakecc.c')])
    for n in ('g++', 'cc', 'gcc', 'clang++', 'clang'):
        os.symlink('c++', os.path.join(fake, n))
    real = shutil.which('c++')
    template = os.path.join(home, 'template.so')
    src = os.path.join(home, 'template.cpp')
    with open(src, 'w') as f:
        f.write('static volatile double value = 1234567.890625;\n'
                'extern "C" double toIntegrate(double *) { return value; }\n')
    subprocess.check_call([real, src, '-o', template, '-O1', '-shared', '-fPIC'])
    os.environ['FAKECC_STORE'], os.environ['FAKECC_REAL'] = store, real


PATH = os.environ.get('PATH', '/usr/bin:/bin')


def environment(mode='ok', real_compiler=False, tmpl=False):
    os.environ['PATH'] = PATH if real_compiler else fake + ':' + PATH
    os.environ['FAKECC_MODE'] = mode
    os.environ['TMPDIR'] = store        # temporary files of the real compiler
    if tmpl:
        os.environ['FAKECC_TEMPLATE'] = template
    else:
        os.environ.pop('FAKECC_TEMPLATE', None)


def call(body, nodes=None):
    nodes = NODES if nodes is None else nodes
    return core.discretize(body, [nodes], np.zeros(1), np.eye(1))


def watch(path):
    d, b = os.path.split(path)
    return d == '/tmp' and not b.startswith(('cc', 'hermipy-verif', 'bash', '.')) and b != ''


class Machine(ptsched.Machine):
    """Remembers the files touched, to remove them afterwards."""
    touched = set()

    def relevant(self, pid, nr, args):
        t = super().relevant(pid, nr, args)
        if t is not None:
            for b in t.split()[1:]:
                if os.path.isfile('/tmp/' + b) or '.' in b:
                    Machine.touched.add('/tmp/' + b)
        return t


def clean():
    for p in Machine.touched:
        try:
            os.unlink(p)
        except OSError:
            pass


def bodies(task_id):
    """Functions of this task only: the files of other tasks are others."""
    c = 2 + task_id/1024.
    return {'a': ('v[0]*%r + 1' % c, lambda x: x*c + 1), 'b': ('v[0]*%r - 1' % c, lambda x: x*c - 1),
            'bad': ('v[0]*%r + (' % c, None)}


def is_right(got, f, x=NODES):
    return isinstance(got, np.ndarray) and got.shape == x.shape and np.allclose(got, f(x), rtol=1e-12, atol=1e-12)


def run_schedules(ctx, task):
    fs = bodies(task['id'])
    Machine.touched = set()
    realc = task.get('real', False)

    def agent(name):
        environment(real_compiler=realc)
        # The messages of the compiler are not interesting
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 2)
        return call(fs[name][0])

    # Fill the store of the stand-in
    for n in set(task['calls']):
        environment()
        touched_call(fs[n][0])
    clean()

    def start():
        clean()
        m = Machine(watch)
        if task['initial'] == 'compiled':
            for n in set(task['calls']):
                if n != 'bad':
                    environment()
                    touched_call(fs[n][0])
        agents = [m.spawn(n, lambda n=n: agent(n)) for n in task['calls']]
        return m, agents

    def verdict(m, agents, trace):
        ctx.step(len(trace))
        ctx.case('functions %s, %s, schedule: %s' % (task['calls'], task['initial'], ptsched.text(trace)))
        ctx.state((task['initial'], tuple(sorted(os.path.splitext(p)[1] + str(os.path.getsize(p))
                                                 for p in Machine.touched if os.path.isfile(p)))))
        for a in agents:
            if a.killed:
                continue
            if a.result is None:
                return ctx.fail('process %s ended without an answer (status %s)' % (a.name, a.status))
            if a.name == 'bad':
                if a.result[0] != 'raised':
                    return ctx.fail('a function that does not compile gave %s' % (a.result,))
            elif a.result[0] != 'ok':
                return ctx.fail('process %s: %s' % (a.name, a.result[:3]))
            elif not is_right(a.result[1], fs[a.name][1]):
                return ctx.fail('process %s: values %s, expected %s' % (a.name, a.result[1], fs[a.name][1](NODES)))
        environment(real_compiler=realc and len(trace) < 4)
        for n in dict.fromkeys(task['calls'] + task['calls']):
            for rep in range(2):
                res = untraced(lambda: call(fs[n][0]))
                if n == 'bad':
                    if res[0] != 'raised':
                        return ctx.fail('later call: a function that does not compile gave %s' % (res,))
                elif res[0] != 'ok' or not is_right(res[1], fs[n][1]):
                    return ctx.fail('later call %s: %s' % (n, res))
        ctx.trace()

    def torn(n):
        return sorted({1, n//2, n - 1} - {0, n})
    e = ptsched.Explorer(start, verdict, preemptions=task['preemptions'], crashes=task.get('crashes', 0),
                         torn=torn if task.get('torn') else None, leader_only=not realc or ctx.tier != 'quick')
    try:
        e.explore(first=task.get('first'))
    finally:
        clean()
    ctx.count('schedules', e.runs)
    ctx.count('diverged', e.diverged)
    ctx.sample('%s: %d schedules' % (task, e.runs))


def touched_call(body):
    """Call in another process, remembering the files it touches."""
    m = Machine(watch)
    a = m.spawn('prepare', lambda: call(body))
    while a.at is not None:
        m.step(a)
    m.close()


def untraced(f):
    """f in a fresh process, not traced."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 2)
            try:
                out = ('ok', f())
            except BaseException as e:
                out = ('raised', type(e).__name__, str(e)[:500])
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        c = os.read(r, 1 << 16)
        if not c:
            break
        data += c
    os.close(r)
    _, st = os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('died', st)


# -------------------------------------------- failing compiler

def run_failures(ctx, task):
    k = 5000
    for mode, compiled, again in itertools.product(
            ('fail-before', 'fail-half', 'signal-half', 'no-output', 'missing', 'bad'), (False, True), (1, 2)):
        k += 1
        c = 3 + k/1024.
        body = ('v[0]*%r' % c) + (' + (' if mode == 'bad' else '')
        other, fo = 'v[0] + %r' % c, lambda x: x + c
        ctx.case('compiler %s, other function compiled before: %s, %d failures' % (mode, compiled, again))
        ctx.state((mode, compiled, again))

        def steps():
            out = []
            environment()
            if compiled:
                out.append(('ok', call(other), fo))
            for _ in range(again):
                if mode == 'missing':
                    os.environ['PATH'] = '/nonexistent'
                    # sh is called by its absolute path
                else:
                    environment('ok' if mode == 'bad' else mode)
                try:
                    out.append(('returned', call(body), None))
                except Exception as e:
                    out.append(('raised', type(e).__name__, None))
                environment()
                out.append(('ok', call(other), fo))
            if mode != 'bad':
                out.append(('ok', call(body), lambda x: x*c))
                out.append(('ok', call(body), lambda x: x*c))
            return [(t, r, None if f is None else bool(is_right(r, f))) for t, r, f in out]
        res = untraced(steps)
        ctx.step()
        if res[0] != 'ok':
            ctx.fail('history ended with %s' % (res,))
            continue
        for i, (t, r, ok) in enumerate(res[1]):
            ctx.step()
            if t == 'returned':
                ctx.fail('step %d: the failed compilation returned %s' % (i, r))
            elif t == 'ok' and not ok:
                ctx.fail('step %d: wrong values %s' % (i, r))
        ctx.trace()
    environment()


# ----------------------------------------------------- histories

def similar():
    """Functions whose texts nearly coincide: text -> Python function."""
    L = 'v[0]' + ' + 0*v[0]'*40
    out = {
        'v[0]': lambda x: x, '-v[0]': lambda x: -x, ' v[0]': lambda x: x, 'v[0]+1': lambda x: x + 1, 'v[0]-1': lambda x: x - 1,
        '1+v[0]': lambda x: x + 1, '1-v[0]': lambda x: 1 - x, 'v[0]*2': lambda x: 2*x, 'v[0]*3': lambda x: 3*x, 'v[0]/2': lambda x: x/2, '2/v[0]': lambda x: 2/x,
        'pow(v[0], 2)': lambda x: x**2, 'pow(v[0], 3)': lambda x: x**3, 'pow(2, v[0])': lambda x: 2**x, 'exp(v[0])': np.exp, 'exp(-v[0])': lambda x: np.exp(-x),
        'sin(v[0])': np.sin, 'cos(v[0])': np.cos, 'sin(cos(v[0]))': lambda x: np.sin(np.cos(x)), 'cos(sin(v[0]))': lambda x: np.cos(np.sin(x)),
        'sin(v[0])+cos(2*v[0])': lambda x: np.sin(x) + np.cos(2*x), 'cos(v[0])+sin(2*v[0])': lambda x: np.cos(x) + np.sin(2*x),
        'v[0]*1.0000000000000002': lambda x: x*1.0000000000000002, '12*v[0]': lambda x: 12*x, '21*v[0]': lambda x: 21*x, '1*v[0]+2': lambda x: x + 2,
        '2*v[0]+1': lambda x: 2*x + 1, '1': lambda x: 0*x + 1, '11': lambda x: 0*x + 11, '1.1': lambda x: 0*x + 1.1, 'M_PI*v[0]': lambda x: math.pi*x,
        'M_PI + v[0]': lambda x: math.pi + x,
        L + '+1': lambda x: x + 1, L + '+2': lambda x: x + 2, '1+' + L: lambda x: x + 1, '2+' + L: lambda x: x + 2,
        L + '*v[0]' + '+0*v[0]'*30: lambda x: x, L + '+v[0]' + '+0*v[0]'*30: lambda x: 2*x,
    }
    return list(out.items())


def run_pairs(ctx, task):
    fs = similar()
    for k, (t, f) in enumerate(fs):
        if k % task['of'] != task['part']:
            continue
        for u, g in fs:
            ctx.case('functions "%s" and "%s"' % (t[:60], u[:60]))
            environment()
            for text, h in ((t, f), (u, g), (t, f)):
                got = call(text)
                ctx.step()
                ctx.check(is_right(got, h), lambda: '%s gives %s, expected %s' % (text[-60:], got, h(NODES)))
            ctx.state((t, u))
            ctx.trace()


def run_triples(ctx, task):
    n = task['n']
    fs = similar()[:n] if n <= 8 else similar()[:20]
    for (a, b, c) in itertools.product(range(len(fs)), repeat=3):
        ctx.case('functions %s' % [fs[i][0] for i in (a, b, c)])
        environment()
        for i in (a, b, c):
            got = call(fs[i][0])
            ctx.step()
            ctx.check(is_right(got, fs[i][1]), lambda: '%s gives %s' % (fs[i][0], got))
        ctx.state((a, b, c))
        ctx.trace()


def run_many(ctx, task):
    environment(tmpl=True)
    lo, hi = task['range']
    for rep in range(2):
        for k in range(lo, hi):
            body = '%d.%06d' % (k % 10, k)
            ctx.case('constant function %s' % body)
            got = call(body, NODES[:1])
            ctx.step()
            if not ctx.check(float(got[0]) == float(body), 'the value is %s' % got):
                if len(ctx.violations) > 5:
                    return
            if rep == 0:
                ctx.state()
    ctx.trace()
    ctx.outcome((lo, hi))


def tasks(tier):
    quick = tier == 'quick'
    out = []

    def add(**kw):
        kw['what'] = 'schedules'
        out.append(kw)
    p2, p1, n = (2, 1, 8) if quick else (4, 2, 24)
    for initial in ('absent', 'compiled'):
        add(calls=['a'], initial=initial, preemptions=0, crashes=1, torn=True)
        for i in range(n):
            add(calls=['a', 'a'], initial=initial, preemptions=p2, first=[i, n])
        for i in range(n):
            add(calls=['a', 'a'], initial=initial, preemptions=p1, crashes=1, torn=True, first=[i, n])
    for calls in (['a', 'b'], ['a', 'bad'], ['bad', 'bad'], ['a', 'a', 'a'], ['a', 'b', 'a']):
        for i in range(3):
            add(calls=calls, initial='absent', preemptions=p1, first=[i, 3])
    for i in range(3):
        add(calls=['a'], initial='absent', preemptions=0, crashes=1, real=True, first=[i, 3])
    add(calls=['a', 'a'], initial='absent', preemptions=0, real=True)
    add(calls=['bad'], initial='absent', preemptions=0, crashes=1, real=True)
    if not quick:
        add(calls=['a', 'a'], initial='absent', preemptions=1, real=True)
        # Two crashed processes before the survivors
        add(calls=['a', 'a'], initial='absent', preemptions=0, crashes=2)
    for i, t in enumerate(out):
        t['id'] = i
    out.append({'what': 'failures'})
    out += [{'what': 'pairs', 'part': i, 'of': 8} for i in range(8)]
    out.append({'what': 'triples', 'n': 8 if quick else 20})
    total, parts = (4000, 16) if quick else (40000, 32)
    out += [{'what': 'many', 'range': [i*total//parts, (i + 1)*total//parts]} for i in range(parts)]
    return sorted(out, key=lambda t: (not t.get('real'), not (t.get('crashes') and t.get('first')), t['what'] != 'failures'))


def run_task(ctx, task):
    {'schedules': run_schedules, 'failures': run_failures, 'pairs': run_pairs, 'triples': run_triples,
     'many': run_many}[task['what']](ctx, task)
