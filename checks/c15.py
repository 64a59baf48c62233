"""C15: the compiled part never accesses memory out of bounds, nor depends on uninitialised memory.

The bounded input spaces of C01, C02, C03, C04, C05, C06, C08 and C14 are executed in a build with AddressSanitizer,
UndefinedBehaviorSanitizer, the assertions of the standard library and the bounds checks of uBLAS and multi_array
(a report ends the process, which the driver turns into a violation). The same spaces are executed with the release
build while the allocator fills fresh memory with 0xFE and freed memory with 0x01: the results must not change.
Wrong values alone are not violations of this property (the other checks report them)."""
import importlib
import json
import os
import subprocess
import sys

import build
from worker import Ctx

VARIANT = 'asan'


def _san(name):
    return subprocess.run(['gcc', '-print-file-name=' + name], capture_output=True, text=True).stdout.strip()


ENV = {'LD_PRELOAD': _san('libasan.so') + ' ' + _san('libstdc++.so'),
       'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:'
                       'malloc_fill_byte=190:max_malloc_fill_size=65536:quarantine_size_mb=64',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=98'}

MEANING = ('states = distinct inputs executed in the monitored build; transitions = calls executed under the monitors; '
           'traces = inputs whose results were compared between two fillings of uninitialised memory')
BOUNDS = {'quick': 'the core-level tasks of C01, C02, C03, C04, C05, C06, C08, C14 (index sets, grids, transforms, discretisations, '
                   'stiffness matrices, derivatives, tensorisations, projections, inner products, conversions; dim 1..4, all index sets '
                   'and Hermite/Fourier masks) with their quick bounds, minus the largest degrees in dim 3 and 4, plus the object-level '
                   'tasks of C03 and C08',
          'thorough': 'all core-level tasks of these checks with their quick bounds, and their object-level tasks'}
ASSUMPTIONS = ['accesses that stay inside the same allocation and inside the size of the container are not errors',
               'NumPy, SciPy, Boost.Python and the Python interpreter are not instrumented']


def select(check, task, tier):
    """Which tasks of the other checks are executed here."""
    th = tier == 'thorough'
    if isinstance(task, dict) and not th and (task.get('large') or task.get('what') in ('large', 'scale') or task.get('same')):
        return False
    if check == 'c01':
        return True
    if check == 'c02':
        return th or task['what'] != 'size' and (task['what'] != 'objects' or task['dim'] < 4) or task['what'] == 'size' and task['dim'] == 2 and 'cross' not in task['kind']
    if check == 'c03':
        if task['what'] == 'core':
            return th or len(task['ns']) < 3 or len(task['ns']) == 3 and sum(task['ns']) <= 6
        return th or task.get('name', 'hh') in ('h0m', 'hhm', 'hf', 'ff')
    if check == 'c04':
        return task['what'] == 'core' or th and task['what'] in ('newton', 'comp')
    if check == 'c05':
        if task['what'] == 'core':
            d = max(task['degrees'])
            return th or len(task['ns']) < 3 and sum(task['ns']) <= 5 or d < 2 and (len(task['ns']) < 4 or 'cross' not in task['kind'])
        return task['what'] == 'triple' or th
    if check == 'c06':
        if task['what'] == 'core':
            return th or task['dim'] < 3 or task['degree'] < 2
        return th and task['what'] == 'varfd'
    if check == 'c08':
        if not th and task['what'] == 'objects':
            return task['degree'] == 1 + ('cross' not in task['kind']) and task['kind'] != 'cross_nc'
        return th or task.get('dim', 0) < 3 and task['degree'] <= 2 or task.get('dim', 0) == 3 and task['degree'] <= 1
    if check == 'c14':
        return th and task[0] != 'large' or task[0] not in ('sparse', 'values', 'large') or task[0] == 'sparse' and task[1]*task[2] <= 6
    return False


CHECKS = ['c08', 'c05', 'c06', 'c03', 'c01', 'c02', 'c04', 'c14']


def subtasks(check, tier):
    mod = importlib.import_module(check)
    ts = mod.tasks('quick')
    if check == 'c01':
        for t in ts:
            if 'limit' in t:
                t['limit'] = min(t['limit'], 600 if tier == 'quick' else 6000)
    return [t for t in ts if select(check, t, tier)]


class Quiet(Ctx):
    """Context that keeps the coverage numbers; wrong values are recorded but not reported."""

    def __init__(self, outer):
        self.outer = outer
        self.tier = 'quick'
        self.begin()

    def case(self, desc):
        if self.outer is not None:
            self.outer.case(desc)
            self.desc = self.outer.desc
        else:
            self.desc = desc if isinstance(desc, str) else json.dumps(desc, default=str)

    def state(self, key=None):
        self.n_states += 1


def tasks(tier):
    out = []
    for c in CHECKS:
        ts = subtasks(c, tier)
        for i in range(len(ts)):
            out.append(['monitor', c, i])
    n = 16
    out = [['fill', k, n] for k in range(n)] + out
    return out


_ready = {}


def setup(ctx):
    for k in ('LD_PRELOAD',):
        os.environ.pop(k, None)      # not for the compilers started from here
    import hermipy as hm
    import hermite_cpp
    if '/asan-' not in hermite_cpp.__file__:
        raise RuntimeError('not the monitored build: ' + hermite_cpp.__file__)


def run_task(ctx, task):
    if task[0] == 'monitor':
        name, i = task[1:]
        mod = importlib.import_module(name)
        q = Quiet(ctx)
        if name not in _ready:
            _ready[name] = True
            mod.setup(q)
        t = subtasks(name, ctx.tier)[i]
        try:
            mod.run_task(q, t)
        except Exception:
            pass
        ctx.n_states += q.n_states + len(q.states)
        ctx.transitions += q.transitions
        ctx.outcomes |= q.outcomes
        ctx.sample({'check': name, 'task': t})
    else:
        fill(ctx, *task[1:])


def fill(ctx, k, n):
    """Results with two fillings of uninitialised memory."""
    ctx.case('tasks %d modulo %d under the filling allocator' % (k, n))
    libdir = build.build('release')
    env = {a: b for a, b in os.environ.items() if not a.startswith(('LD_PRELOAD', 'ASAN', 'UBSAN'))}
    env['PYTHONPATH'] = '%s:%s:%s' % (libdir, build.REPO, os.path.dirname(os.path.abspath(__file__)))
    runs = []
    for tun in ('', 'glibc.malloc.perturb=1:glibc.malloc.tcache_count=0'):
        e = dict(env)
        if tun:
            e['GLIBC_TUNABLES'] = tun
        r = subprocess.run([sys.executable, os.path.abspath(__file__), 'fill', str(k), str(n), ctx.tier],
                           env=e, capture_output=True, text=True, errors='replace', timeout=3000)
        runs.append((r.returncode, [json.loads(x) for x in r.stdout.splitlines() if x.startswith('{')], r.stderr[-1500:]))
    (rc0, a, _), (rc1, b, err) = runs
    ctx.step(2*sum(x['transitions'] for x in a))
    ctx.trace(sum(x['states'] for x in a))
    if rc0 == 0 and rc1 != 0:
        last = b[-1]['task'] if b else 'the first task'
        ctx.fail('with filled memory the process ends with status %s after %s\n%s' % (rc1, last, err))
        return
    if rc0 != 0:
        return
    for x, y in zip(a, b):
        if x['violations'] != y['violations']:
            new = [v for v in y['violations'] if v not in x['violations']][:3]
            ctx.case('task %s of %s' % (x['task'], x['check']))
            ctx.fail('the results depend on uninitialised memory: %s' % new)


def fill_main(k, n, tier):
    import numpy as np
    np.seterr(all='ignore')
    allt = [(c, t) for c in CHECKS for t in subtasks(c, tier)
            if tier == 'thorough' or isinstance(t, list) or t.get('what') not in ('objects', 'quad', 'eval', 'size')]
    for c, t in allt[k::n]:
        mod = importlib.import_module(c)
        q = Quiet(None)
        if c not in _ready:
            _ready[c] = True
            mod.setup(q)
        try:
            mod.run_task(q, t)
        except Exception as e:
            q.violations.append({'case': q.desc, 'what': repr(e)[:300]})
        print(json.dumps({'check': c, 'task': t, 'transitions': q.transitions, 'states': q.n_states,
                          'violations': [[v['case'], v['what'][:60]] for v in q.violations]}, default=str), flush=True)


if __name__ == '__main__':
    fill_main(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    sys.stdout.flush()
    os._exit(0)
