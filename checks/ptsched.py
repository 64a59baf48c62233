"""A controlled scheduler and fault injector for real processes.

Agents are forked from the worker process and traced with ptrace. An agent stops just before every system call
that touches a watched path, or a descriptor of a watched file, and waits for the scheduler. The explorer enumerates
all schedules of the agents up to a bound on preemptions, and all crash points (the agent is killed before the
call, or after a prefix of a write) up to a bound on crashes.
"""
import ctypes
import os
import pickle
import signal
import struct
import sys
import traceback

libc = ctypes.CDLL(None, use_errno=True)
libc.ptrace.restype = ctypes.c_long
libc.ptrace.argtypes = [ctypes.c_long, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]

TRACEME, CONT, GETREGS, SETREGS, SYSCALL, SETOPTIONS, GETEVENTMSG, INFO = 0, 7, 12, 13, 24, 0x4200, 0x4201, 0x420e
OPTIONS = 1 | 2 | 4 | 8 | 16 | 0x100000     # SYSGOOD, FORK, VFORK, CLONE, EXEC, EXITKILL
WALL = 0x40000000

NAMES = {0: 'read', 1: 'write', 2: 'open', 4: 'stat', 6: 'lstat', 9: 'mmap', 17: 'pread', 18: 'pwrite', 19: 'readv', 20: 'writev',
         21: 'access', 40: 'sendfile', 73: 'flock', 76: 'truncate', 77: 'ftruncate', 78: 'getdents', 217: 'getdents', 82: 'rename',
         83: 'mkdir', 84: 'rmdir', 85: 'creat', 86: 'link', 87: 'unlink', 88: 'symlink', 257: 'open', 258: 'mkdir', 262: 'stat',
         263: 'unlink', 264: 'rename', 265: 'link', 266: 'symlink', 269: 'access', 285: 'fallocate', 295: 'preadv', 296: 'pwritev',
         316: 'rename', 326: 'copy_file_range', 332: 'stat', 437: 'open', 439: 'access'}
# path arguments: (position of the directory descriptor or None, position of the path)
PATHS = {2: [(None, 0)], 4: [(None, 0)], 6: [(None, 0)], 21: [(None, 0)], 76: [(None, 0)], 82: [(None, 0), (None, 1)],
         83: [(None, 0)], 84: [(None, 0)], 85: [(None, 0)], 86: [(None, 0), (None, 1)], 87: [(None, 0)], 88: [(None, 1)],
         257: [(0, 1)], 258: [(0, 1)], 262: [(0, 1)], 263: [(0, 1)], 264: [(0, 1), (2, 3)], 265: [(0, 1), (2, 3)], 266: [(1, 2)],
         269: [(0, 1)], 316: [(0, 1), (2, 3)], 332: [(0, 1)], 437: [(0, 1)], 439: [(0, 1)]}
FDS = {0: [0], 1: [0], 9: [4], 17: [0], 18: [0], 19: [0], 20: [0], 40: [0, 1], 73: [0], 77: [0], 285: [0], 295: [0], 296: [0],
       326: [0, 2], 78: [0], 217: [0]}
WRITES = (1, 18)


def ptrace(req, pid, addr=0, data=0):
    r = libc.ptrace(req, pid, addr, data)
    if r < 0:
        raise OSError(ctypes.get_errno(), 'ptrace %d %d' % (req, pid))
    return r


class Agent:

    def __init__(self, name):
        self.name = name
        self.tracees = {}          # pid -> True once seen
        self.at = None             # tracee that waits for the scheduler
        self.op = None             # (number, text, count)
        self.done = False
        self.killed = False
        self.status = None
        self.result = None
        self.ops = 0
        self.blocked = False


class Machine:

    def __init__(self, watch):
        self.watch = watch         # path -> bool
        self.agents = []
        self.buf = ctypes.create_string_buffer(128)
        signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGCHLD])

    # -------------------------------------------------------- agents

    def spawn(self, name, fn):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.pthread_sigmask(signal.SIG_UNBLOCK, [signal.SIGCHLD])
                ptrace(TRACEME, 0)
                os.kill(os.getpid(), signal.SIGSTOP)
                try:
                    out = ('ok', fn())
                except BaseException as e:
                    out = ('raised', type(e).__name__, str(e), traceback.format_exc()[-1500:])
                data = pickle.dumps(out)
                while data:
                    data = data[os.write(w, data):]
            finally:
                os._exit(0)
        os.close(w)
        a = Agent(name)
        a.leader, a.pipe = pid, r
        os.waitpid(pid, WALL)
        ptrace(SETOPTIONS, pid, 0, OPTIONS)
        a.tracees[pid] = 'entry'
        a.at, a.op = pid, (None, 'start', 0)
        self.agents.append(a)
        return a

    def string(self, pid, addr):
        try:
            with open('/proc/%d/mem' % pid, 'rb', buffering=0) as f:
                f.seek(addr)
                out = b''
                while b'\0' not in out and len(out) < 4096:
                    chunk = f.read(min(256, 4096 - (addr + len(out)) % 4096))
                    if not chunk:
                        break
                    out += chunk
            return out.split(b'\0')[0].decode('utf-8', 'replace')
        except OSError:
            return ''

    def fdpath(self, pid, fd):
        fd = fd & 0xffffffff
        if fd >= 0x80000000:
            return ''
        try:
            return os.readlink('/proc/%d/fd/%d' % (pid, fd))
        except OSError:
            return ''

    def info(self, pid):
        n = ptrace(INFO, pid, 88, ctypes.addressof(self.buf))
        raw = self.buf.raw
        return raw[0], struct.unpack_from('<Q6Q', raw, 24)

    def relevant(self, pid, nr, args):
        """Text of the operation if it touches a watched file."""
        if nr in PATHS:
            texts, hit = [], False
            for d, p in PATHS[nr]:
                path = self.string(pid, args[p])
                if not path.startswith('/'):
                    if path == '':
                        base = ''
                    elif d is None or (args[d] & 0xffffffff) == 0xffffff9c:
                        base = os.readlink('/proc/%d/cwd' % pid)
                    else:
                        base = self.fdpath(pid, args[d])
                    path = os.path.join(base, path) if path else self.fdpath(pid, args[d]) if d is not None else ''
                path = os.path.normpath(path) if path else path
                texts.append(path)
                hit = hit or (path and self.watch(path))
            return ' '.join([NAMES[nr]] + [os.path.basename(t) for t in texts]) if hit else None
        if nr in FDS:
            for p in FDS[nr]:
                path = self.fdpath(pid, args[p])
                if path.endswith(' (deleted)'):
                    path = path[:-10]
                if path.startswith('/') and self.watch(path):
                    n = args[2] if nr in (0, 1, 17, 18) else 0
                    return '%s %s %s' % (NAMES[nr], os.path.basename(path), n or '')
        return None

    def owner(self, pid):
        for a in self.agents:
            if pid in a.tracees:
                return a
        return None

    # ------------------------------------------------------- running

    def resume(self, pid, sig=0):
        try:
            ptrace(SYSCALL, pid, 0, sig)
        except OSError:
            pass

    def wait(self, agent):
        """Run until the agent reaches a watched call or ends."""
        asleep = None
        while True:
            if self.events(agent):
                return
            # Blocked if all its processes sleep and use no CPU between two looks
            now = [self.cpu(p) for p in agent.tracees]
            if now == asleep and all(s in 'SDt' for s, _ in now) and any(s == 'S' for s, _ in now):
                agent.blocked = True
                return
            asleep = now

    def cpu(self, pid):
        try:
            with open('/proc/%d/stat' % pid) as f:
                s = f.read().rsplit(')', 1)[1].split()
            return s[0], (s[11], s[12])
        except OSError:
            return 'X', 0

    def settle(self):
        """Let blocked agents that can run again reach their next call."""
        for a in self.agents:
            if a.blocked and not a.done and a.at is None:
                a.blocked = False
                self.wait(a)

    def events(self, agent):
        """False if nothing happened for a while."""
        while True:
            if agent.at is not None or agent.done:
                return True
            pid, status = os.waitpid(-1, WALL | os.WNOHANG)
            if pid == 0:
                if signal.sigtimedwait([signal.SIGCHLD], 1.) is None:
                    return False
                continue
            a = self.owner(pid)
            if os.WIFEXITED(status) or os.WIFSIGNALED(status):
                if a is None:
                    continue
                del a.tracees[pid]
                if pid == a.leader:
                    a.status = status
                if not a.tracees:
                    self.finish(a)
                continue
            if a is None:
                # A child of the current agent, not announced yet
                a = agent
                a.tracees[pid] = 'entry'
                self.resume(pid)
                continue
            sig, event = os.WSTOPSIG(status), status >> 16
            if sig == signal.SIGTRAP and event:
                if event in (1, 2, 3):
                    msg = ctypes.c_ulong()
                    ptrace(GETEVENTMSG, pid, 0, ctypes.addressof(msg))
                    a.tracees.setdefault(msg.value, 'new')
                self.resume(pid)
                continue
            if sig == (signal.SIGTRAP | 0x80):
                op, data = self.info(pid)
                if op == 1:
                    nr, args = data[0], data[1:]
                    text = self.relevant(pid, nr, args) if nr in NAMES else None
                    if text is not None:
                        a.at, a.op = pid, (nr, text, args[2])
                        a.ops += 1
                        a.blocked = False
                        continue
                self.resume(pid)
                continue
            if a.tracees.get(pid) == 'new' and sig == signal.SIGSTOP:
                a.tracees[pid] = 'entry'
                self.resume(pid)
                continue
            self.resume(pid, 0 if sig in (signal.SIGTRAP, signal.SIGSTOP) else sig)

    def finish(self, a):
        a.done, a.at = True, None
        data = b''
        while True:
            chunk = os.read(a.pipe, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(a.pipe)
        if data and not a.killed:
            a.result = pickle.loads(data)

    def step(self, a):
        pid, a.at = a.at, None
        self.resume(pid)
        self.wait(a)

    def tear(self, a, n):
        """Let the pending write store only its first n bytes, then kill."""
        regs = (ctypes.c_ulonglong*27)()
        ptrace(GETREGS, a.at, 0, ctypes.addressof(regs))
        regs[12] = n               # rdx
        ptrace(SETREGS, a.at, 0, ctypes.addressof(regs))
        pid = a.at
        self.resume(pid)
        os.waitpid(pid, WALL)
        self.kill(a)

    def kill(self, a, leader_only=False):
        a.killed = True
        a.at = None
        pids = [a.leader] if leader_only else list(a.tracees)
        stopped = [p for p in a.tracees if p not in pids]
        for p in pids:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        for p in stopped:
            self.resume(p)
        if not a.done:
            while not a.done:
                a.at = None
                self.wait(a)
                if a.blocked:
                    break
                if a.at is not None:
                    self.resume(a.at)

    def close(self):
        for a in self.agents:
            if not a.done:
                self.kill(a)
        self.agents = []


class Explorer:
    """Enumerates the schedules of a scenario.

    scenario() -> (machine, agents): starts the agents in a fresh situation
    verdict(machine, agents, trace): checks the outcome of a complete run
    """

    def __init__(self, start, verdict, preemptions=2, crashes=0, torn=None, leader_only=False, max_runs=None,
                 only_first=None):
        self.start, self.verdict = start, verdict
        self.preemptions, self.crashes, self.torn, self.leader_only = preemptions, crashes, torn, leader_only
        self.runs, self.steps, self.truncated, self.diverged = 0, 0, False, 0
        self.max_runs = max_runs

    def choices(self, agents, current, used, crashed):
        """All decisions allowed at this point: (decision, cost in preemptions, cost in crashes)."""
        enabled = [i for i, a in enumerate(agents) if a.at is not None]
        out = []
        order = ([current] if current in enabled else []) + [i for i in enabled if i != current]
        for i in order:
            cost = 1 if current in enabled and i != current else 0
            if used + cost <= self.preemptions:
                out.append((('run', i), cost, 0))
        if crashed < self.crashes:
            for i in order:
                if i != current and current in enabled:
                    continue       # the agent that runs is the one that is killed
                out.append((('kill', i), 0, 1))
                a = agents[i]
                if self.leader_only and len(a.tracees) > 1:
                    out.append((('kill-leader', i), 0, 1))
                if self.torn is not None and a.op[0] in WRITES:
                    for n in self.torn(a.op[2]):
                        out.append((('torn', i, n), 0, 1))
        return out

    def run(self, prefix):
        machine, agents = self.start()
        self.runs += 1
        trace, current, used, crashed = [], None, 0, 0
        try:
            while True:
                opts = self.choices(agents, current, used, crashed)
                if not opts:
                    break
                if len(trace) < len(prefix):
                    d = prefix[len(trace)]
                    match = [o for o in opts if o[0] == d]
                    if not match:
                        # The processes did something else than in the run before
                        self.diverged += 1
                        prefix = prefix[:len(trace)]
                    choice = match[0] if match else opts[0]
                else:
                    choice = opts[0]
                d, c1, c2 = choice
                a = agents[d[1]]
                trace.append((d, opts, a.op[1]))
                self.steps += 1
                used += c1
                crashed += c2
                current = d[1]
                if d[0] == 'run':
                    machine.step(a)
                elif d[0] == 'kill':
                    machine.kill(a)
                elif d[0] == 'kill-leader':
                    machine.kill(a, leader_only=True)
                else:
                    machine.tear(a, d[2])
                if any(b.blocked for b in agents):
                    machine.settle()
                if len(trace) > 5000:
                    raise RuntimeError('endless run')
            for i, a in enumerate(agents):
                if not a.done:
                    a.result = ('blocked',)
            self.verdict(machine, agents, trace)
        finally:
            machine.close()
        return trace

    def explore(self, report=None, first=None):
        """first = (i, n): only the i-th of n parts of the tree."""
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.max_runs is not None and self.runs >= self.max_runs:
                self.truncated = True
                return
            trace = self.run(prefix)
            branch = []
            for k in range(len(prefix), len(trace)):
                d, opts, _ = trace[k]
                for o in opts:
                    if o[0] != d:
                        branch.append([t[0] for t in trace[:k]] + [o[0]])
            if first is not None and (not prefix or (len(prefix) == 1 and prefix[0][0] == 'run')):
                # The runs that differ only in who starts are done by every part
                branch = [b for j, b in enumerate(branch)
                          if (len(b) == 1 and b[0][0] == 'run') or j % first[1] == first[0]]
            stack += branch


def text(trace):
    """Readable schedule."""
    out = []
    for d, _, op in trace:
        if out and out[-1][0] == d[0] == 'run' and out[-1][1] == d[1]:
            out[-1][2].append(op)
        else:
            out.append([d[0], d[1], [op + (' (%d bytes)' % d[2] if d[0] == 'torn' else '')]])
    return ' | '.join('%s %s: %s' % (o[0], 'ABCDE'[o[1]], ', '.join(o[2])) for o in out)
