"""Driver of the checks.

    python3 checks/run.py C01 [--tier quick|thorough]
    python3 checks/run.py --replay replays/C01-1.json

Builds the library from /repo, splits the bounded space of the property into
tasks, lets worker processes explore every one of them on the real library,
confirms violations in a fresh process, writes the evidence file.
Exit 0: held everywhere; 1: VIOLATION line printed; 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import re
import selectors
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402

VERIF = build.VERIF
PYTHON = '/usr/bin/python3'
N_WORKERS = int(os.environ.get('VERIF_JOBS', '8'))
TASK_LIMIT = 240
RETRY_LIMIT = 260
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAXV", "25"))


def clean_tmp():
    for f in os.listdir('/tmp'):
        if re.fullmatch(r'[0-9]+(\.[0-9A-Za-z_]+)*\.(cpp|so|o|tmp)', f):
            try:
                os.unlink('/tmp/' + f)
            except OSError:
                pass


class Worker:

    def __init__(self, check, libdir, scratch, index, tier):
        self.dir = os.path.join(scratch, 'w%d' % index)
        os.makedirs(self.dir, exist_ok=True)
        self.casefile = os.path.join(self.dir, 'case')
        open(self.casefile, 'w').close()
        env = dict(os.environ)
        env.update(PYTHONPATH='%s:%s:%s' % (libdir, build.REPO, HERE),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=os.environ.get('VERIF_HASHSEED', '0'), MPLBACKEND='Agg',
                   MPLCONFIGDIR=os.path.join(scratch, 'mpl'),
                   OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8',
                   VERIF_LIBDIR=libdir, VERIF_TIER=tier, VERIF_CASEFILE=self.casefile,
                   HOME=self.dir)
        mod = importlib.import_module(check.lower())
        for k, v in getattr(mod, 'ENV', {}).items():
            env[k] = v
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.log = open(os.path.join(self.dir, 'log'), 'wb')
        self.proc = subprocess.Popen(
            [PYTHON, os.path.join(HERE, 'worker.py'), check, str(r1), str(w2)],
            pass_fds=(r1, w2), env=env, cwd=self.dir, stdin=subprocess.DEVNULL,
            stdout=self.log, stderr=self.log, start_new_session=True)
        os.close(r1)
        os.close(w2)
        self.to = os.fdopen(w1, 'w')
        self.fd = r2
        self.buf = b''
        self.task = None
        self.started = None

    def send(self, i, task):
        self.task, self.started = i, time.time()
        try:
            self.to.write(json.dumps([i, task]) + '\n')
            self.to.flush()
        except BrokenPipeError:
            pass

    def case(self):
        try:
            with open(self.casefile, errors='replace') as f:
                return f.read().rstrip('\0 ')
        except OSError:
            return ''

    def tail(self):
        try:
            with open(os.path.join(self.dir, 'log'), errors='replace') as f:
                return f.read()[-6000:]
        except OSError:
            return ''

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()
        for c in (self.to.close, lambda: os.close(self.fd), self.log.close):
            try:
                c()
            except OSError:
                pass


def explore(check, tasks, libdir, scratch, tier, n_workers, limit, base=0, known=()):
    """Run every task; yield result dictionaries."""
    sel = selectors.DefaultSelector()
    todo = list(enumerate(tasks))[::-1]
    results, workers, counter = {}, {}, [base]

    def spawn():
        counter[0] += 1
        w = Worker(check, libdir, scratch, counter[0], tier)
        workers[w.fd] = w
        sel.register(w.fd, selectors.EVENT_READ)
        return w

    def drop(w):
        sel.unregister(w.fd)
        del workers[w.fd]
        w.kill()

    def feed(w):
        if todo:
            w.send(*todo.pop())
        else:
            drop(w)

    for _ in range(min(n_workers, len(todo))):
        feed(spawn())
    n_viol = 0
    while workers:
        for key, _ in sel.select(timeout=1.0):
            w = workers[key.fd]
            data = os.read(w.fd, 1 << 16)
            if data:
                w.buf += data
                while b'\n' in w.buf:
                    line, w.buf = w.buf.split(b'\n', 1)
                    r = json.loads(line)
                    if 'fatal' in r:
                        w.fatal = r['fatal']
                        continue
                    r['wall'] = time.time() - w.started
                    results[r['task']] = r
                    n_viol += sum(v.get('key') not in known for v in r['violations'])
                    w.task = None
                    if n_viol >= MAX_VIOLATIONS:
                        todo.clear()
                    feed(w)
                continue
            # End of file: the worker process ended
            rc = w.proc.wait()
            if w.task is not None:
                if hasattr(w, 'fatal'):
                    raise RuntimeError('worker could not start: ' + w.fatal)
                results[w.task] = {
                    'task': w.task, 'stats': {},
                    'violations': [{'case': w.case(), 'what':
                                    'the process ended during the call (status %s)' % rc,
                                    'log': w.tail()}]}
                n_viol += 1
            drop(w)
            if todo:
                feed(spawn())
        now = time.time()
        for w in list(workers.values()):
            if w.task is not None and now - w.started > limit:
                results[w.task] = {'task': w.task, 'stats': {}, 'timeout': True,
                                   'violations': [{'case': w.case(), 'what':
                                                   'no answer within %d s' % limit,
                                                   'log': w.tail()}]}
                n_viol += 1
                todo.clear()
                drop(w)
    return results


def known_findings(check):
    path = os.path.join(VERIF, 'known_findings.txt')
    known = {}
    if os.path.exists(path):
        with open(path, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == check:
                    known[m.group(2)] = m.group(3).strip()
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='run only the tasks whose JSON contains this text')
    args = ap.parse_args()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    replay = None
    if args.replay:
        with open(args.replay) as f:
            replay = json.load(f)
        args.check, tier = replay['property'], replay['tier']
    check = args.check
    t0 = time.time()
    mod = importlib.import_module(check.lower())
    libdir = build.build(getattr(mod, 'VARIANT', 'release'))
    t_build = time.time() - t0
    clean_tmp()
    scratch = tempfile.mkdtemp(prefix='hermipy-verif-')
    try:
        tasks = mod.tasks(tier) if replay is None else [replay['task']]
        if args.only:
            tasks = [t for t in tasks if args.only in json.dumps(t)]
        limit = TASK_LIMIT if tier == 'quick' else 6 * 3600
        n_workers = getattr(mod, 'WORKERS', N_WORKERS)
        known = known_findings(check)
        results = explore(check, tasks, libdir, scratch, tier, n_workers, limit, known=known)
        stats = {'states': 0, 'transitions': 0, 'traces': 0, 'outcomes': 0}
        extra, samples, violations, seen_known = {}, [], [], {}
        for i in sorted(results):
            r = results[i]
            for k in stats:
                stats[k] += r['stats'].get(k, 0)
            for k, v in r['stats'].get('extra', {}).items():
                extra[k] = extra.get(k, 0) + v
            if len(samples) < 6 and r.get('samples'):
                samples += r['samples'][:1]
            for v in r['violations']:
                if v.get('key') in known:
                    seen_known[v['key']] = known[v['key']]
                else:
                    violations.append((i, v))
        for k in sorted(seen_known):
            print('KNOWN-FINDING: property=%s %s' % (check, seen_known[k]), flush=True)

        if os.environ.get('VERIF_DUMP'):
            with open(os.environ['VERIF_DUMP'], 'w') as f:
                for i, v in violations:
                    f.write(json.dumps([tasks[i], v]) + '\n')

        # Confirm in fresh processes before reporting
        confirmed, unconfirmed = [], []
        done = set()
        for i, v in violations:
            if i in done:
                continue
            done.add(i)
            if len(confirmed) >= 3 or len(done) > 6:
                break
            for attempt in range(3):
                rr = explore(check, [tasks[i]], libdir, scratch, tier, 1,
                             RETRY_LIMIT if tier == 'quick' else limit,
                             base=1000 * (len(done) + 1) + 100 * attempt)
                vv = [x for x in rr[0]['violations'] if x.get('key') not in known]
                if vv:
                    same = [x for x in vv if x['case'] == v['case']]
                    confirmed.append((i, (same or vv)[0]))
                    break
                if v['what'].startswith('no answer'):
                    break
            else:
                unconfirmed.append((i, v))
        replays = []
        if confirmed:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, (i, v) in enumerate(confirmed):
            path = os.path.join(VERIF, 'replays', '%s-%d.json' % (check, n + 1))
            with open(path, 'w') as f:
                json.dump({'property': check, 'tier': tier, 'task': tasks[i],
                           'violation': v,
                           'how': 'python3 checks/run.py --replay ' + path}, f, indent=1)
            replays.append(path)
        wall = time.time() - t0
        complete = len(results) == len(tasks)
        if replay is None and not args.only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            cov = {'states': stats['states'], 'transitions': stats['transitions'],
                   'traces_validated_against_impl': stats['traces'],
                   'distinct_outcomes': stats['outcomes'],
                   'tasks': len(tasks), 'tasks_completed': len(results),
                   'exhaustive': bool(complete and not any(r.get('timeout') for r in results.values())),
                   'bounds': getattr(mod, 'BOUNDS', {}).get(tier, ''),
                   'meaning': getattr(mod, 'MEANING', ''),
                   'known_findings_seen': sorted(seen_known.values()),
                   'build_s': round(t_build, 1),
                   'samples': samples}
            cov.update(extra)
            ev = {'property': check, 'tier': tier,
                  'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
                  'level': 'model_checking', 'coverage': cov,
                  'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                  'wall_s': round(wall, 1), 'violations': len(violations)}
            path = os.path.join(VERIF, 'evidence', check + '.json')
            with open(path + '.tmp', 'w') as f:
                json.dump(ev, f, indent=1)
            os.replace(path + '.tmp', path)
        print('%s %s: tasks=%d/%d states=%d transitions=%d traces=%d outcomes=%d violations=%d '
              'wall=%.1fs (build %.1fs)%s'
              % (check, tier, len(results), len(tasks), stats['states'], stats['transitions'],
                 stats['traces'], stats['outcomes'], len(violations), wall, t_build,
                 ' ' + json.dumps(extra) if extra else ''), flush=True)
        if os.environ.get('VERIF_VERBOSE'):
            groups = {}
            for i in results:
                g = json.dumps(tasks[i][:2] if isinstance(tasks[i], list) else tasks[i].get('what'))
                groups[g] = groups.get(g, 0) + results[i].get('wall', 0)
            print('  ' + ' '.join('%s:%.0fs' % (g, v) for g, v in sorted(groups.items(), key=lambda x: -x[1])[:12]))
            for i in sorted(results, key=lambda i: -results[i].get('wall', 0))[:12]:
                print('  %.1fs %s' % (results[i].get('wall', 0), json.dumps(tasks[i])))
        if confirmed:
            for (i, v), path in zip(confirmed, replays):
                print('  case: %s\n  what: %s' % (v['case'][:1500], v['what'][:3000]), flush=True)
            print('VIOLATION property=%s replay=%s' % (check, replays[0]), flush=True)
            return 1
        if unconfirmed:
            for i, v in unconfirmed:
                print('NOT REPRODUCED: task %s case %s: %s' % (tasks[i], v['case'], v['what']))
            return 2
        if not complete:
            print('incomplete exploration')
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        clean_tmp()


if __name__ == '__main__':
    try:
        rc = main()
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
