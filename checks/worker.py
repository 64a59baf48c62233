"""Worker process: explores the tasks it is given on the real library."""
import importlib
import json
import os
import sys
import time
import traceback
import zlib


class Violation(Exception):
    pass


class Ctx:

    def __init__(self, tier):
        self.tier = tier
        self.fd = os.open(os.environ['VERIF_CASEFILE'], os.O_RDWR | os.O_CREAT)
        self.begin()

    def begin(self):
        self.states = set()
        self.n_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.violations = []
        self.samples = []
        self.extra = {}
        self.desc = ''

    def case(self, desc):
        """Announce the case about to run (read by the driver if we die)."""
        self.desc = desc if isinstance(desc, str) else json.dumps(desc, default=str, ensure_ascii=False)
        data = self.desc.encode('utf-8', 'replace')[:4000]
        os.pwrite(self.fd, data + b' ' * (4000 - len(data)), 0)

    def state(self, key=None):
        if key is None:
            self.n_states += 1
        else:
            self.states.add(key)

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        self.outcomes.add(zlib.crc32(obj if isinstance(obj, bytes) else repr(obj).encode()))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def fail(self, what, key=None):
        if key is not None and any(v.get('key') == key for v in self.violations):
            return
        v = {'case': self.desc, 'what': str(what)[:4000]}
        if key is not None:
            v['key'] = key
        if len(self.violations) < 40 or key is not None:
            self.violations.append(v)

    def check(self, ok, what, key=None):
        if not ok:
            self.fail(what() if callable(what) else what, key)
        return ok

    def guard(self, desc, fn):
        """Run one case; an unexpected exception is a violation."""
        self.case(desc)
        try:
            return fn()
        except Violation as e:
            self.fail(str(e))
        except Exception:
            self.fail('unexpected exception:\n' + traceback.format_exc()[-2500:])
        return None


def main():
    check, r, w = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    inp, out = os.fdopen(r, 'r'), os.fdopen(w, 'w')

    def emit(obj):
        out.write(json.dumps(obj, default=str) + '\n')
        out.flush()

    try:
        ctx = Ctx(os.environ['VERIF_TIER'])
        mod = importlib.import_module(check.lower())
    except Exception:
        emit({'fatal': traceback.format_exc()})
        os._exit(3)
    imported = False
    for line in inp:
        i, task = json.loads(line)
        ctx.begin()
        if not imported:
            imported = True
            ctx.case('import of the library')
            try:
                if hasattr(mod, 'setup'):
                    mod.setup(ctx)
            except Exception:
                ctx.fail('import failed:\n' + traceback.format_exc()[-2500:])
        if not ctx.violations:
            ctx.case('task %s' % json.dumps(task))
            try:
                mod.run_task(ctx, task)
            except Exception:
                ctx.fail('unexpected exception:\n' + traceback.format_exc()[-2500:])
        emit({'task': i, 'violations': ctx.violations, 'samples': ctx.samples,
              'stats': {'states': len(ctx.states) + ctx.n_states,
                        'transitions': ctx.transitions, 'traces': ctx.traces,
                        'outcomes': len(ctx.outcomes), 'extra': ctx.extra}})


if __name__ == '__main__':
    main()
    os._exit(0)
