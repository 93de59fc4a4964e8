"""The simulated operating system.

One kernel object runs one simulated execution.  It lives in a batch worker, which is also the zygote:
it has the code under test imported, and every simulated process is a parked child of it (or, with
the fork start method, of another simulated process).  At any instant exactly one thread of one
simulated process is running; every system call that matters (process creation and death, signals,
pipes, waiting, locks, time, file system mutation) is a request to the kernel, which decides - from
the choice sequence alone - which thread runs next, what time it is, and which fault the call meets.
"""
import array
import errno
import heapq
import marshal
import os
import select
import signal
import socket
import sys
import time as _time
import traceback
import zlib

REAL_FORK = os.fork
REAL_EXIT = os._exit
REAL_KILL = os.kill
REAL_GETPID = os.getpid
REAL_WAITPID = os.waitpid
REAL_CLOSE = os.close
REAL_OPEN = os.open
REAL_DUP2 = os.dup2
REAL_CLOSERANGE = os.closerange
REAL_POLL = select.poll
REAL_MONO = _time.monotonic
REAL_FCNTL_DUP = os.dup

RPC_FD = 400
FD_BASE = 300
EPOCH = 1700000000.0


class HarnessError(Exception):
    pass


class Hang(Exception):
    """Code under test ran for long without reaching a simulator seam."""


class Proc(object):

    def __init__(self, vpid, ppid, role, pgid):
        self.vpid = vpid
        self.ppid = self.ppid0 = ppid
        self.patient = False     # its timeouts never fire early
        self.role = role
        self.pgid = pgid
        self.sock = None
        self.pidfd = None
        self.rpid = None
        self.tasks = {}
        self.alive = True
        self.zombie = False
        self.status = None
        self.disp = {}
        self.pending = []
        self.mask = set()       # of the main thread
        self.masked = []        # signals waiting to be unmasked
        self.stopped = False
        self.stalled = 0.0
        self.steps = 0
        self.doom = None      # Dies when it has taken this many steps
        self.fs_ops = 0
        self.kind = 'root'
        self.argv = None
        self.killed_by = None
        self.tags = {}

    def __repr__(self):
        return f'P{self.vpid}({self.role})'


class Task(object):
    READY, BLOCKED, DEAD = 0, 1, 2

    def __init__(self, proc, tid, prio):
        self.proc = proc
        self.tid = tid
        self.st = Task.READY
        self.reply = None
        self.keys = ()
        self.deadline = None
        self.maybe = False
        self.timedout = False
        self.why = None
        self.prio = prio
        self.pending_wait = None
        self.rechecked = False
        self.seen = None

    def __repr__(self):
        return f'{self.proc}.{self.tid}'


class Kernel(object):

    DEFAULT_MAX_STEPS = 60000

    def __init__(self, scenario, spec, choices, scratch, max_steps=None, max_time=3600.0, verbose=False):
        self.scenario = scenario
        self.spec = spec
        self.ch = choices
        self.scratch = scratch
        self.max_steps = max_steps or Kernel.DEFAULT_MAX_STEPS
        self.max_time = max_time
        self.verbose = verbose
        self.procs = {}
        self.next_vpid = 5000000
        self.now = EPOCH
        self.step = 0
        self.history = []
        self.current = None
        self.timers = []
        self.tseq = 0
        self.outcome = None
        self.faults = {}
        self.probes = {}
        self.switches = 0
        self.last_run_len = 0
        self.schedule_hash = 0
        self.sent_fds = []
        self.listener = None
        self.violations = []
        self.prompt_waiters = []
        self.roles = {}
        self.idle_rechecks = 0
        # policy
        self.policy = 'rw'
        self.p_switch = 0.1
        self.p_timer = 0.0
        self.p_stall = 0.0
        self.line_mean = 0          # mean number of traced lines between preemptions, 0 = off
        self.change_points = ()
        self.pipe_size = 0
        self.trace_prefixes = ()
        self.gated = None
        self.listorder = 0
        self.version = 0

    # ------------------------------------------------------------------ policy

    def choose_policy(self, trace_lines=False, timers=True, pipes=True):
        ch = self.ch
        k = ch.draw(8)
        if k in (0, 1):
            self.policy, self.p_switch = 'rw', 0.03
        elif k in (2, 3):
            self.policy, self.p_switch = 'rw', 0.15
        elif k == 4:
            self.policy, self.p_switch = 'rw', 0.5
        else:
            self.policy = 'pct'
            self.change_points = tuple(sorted(ch.draw(1500) for _ in range(1 + ch.draw(4))))
        if timers:
            self.p_timer = (0.0, 0.0, 0.01, 0.08)[ch.draw(4)]
            self.p_stall = (0.0, 0.0, 0.0, 0.004, 0.03)[ch.draw(5)]
        if pipes:
            self.pipe_size = (0, 0, 4096)[ch.draw(3)]
        if trace_lines:
            self.line_mean = (0, 40, 8)[ch.draw(3)]

    # ------------------------------------------------------------------ history

    def note(self, kind, *data):
        self.history.append((self.step, round(self.now - EPOCH, 6), kind) + data)
        if self.verbose:
            print('   ', self.history[-1], file=sys.__stderr__)

    def notes(self, kind):
        return [h[3:] for h in self.history if h[2] == kind]

    def fault(self, kind):
        self.faults[kind] = self.faults.get(kind, 0) + 1

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    def violation(self, what):
        self.violations.append(what)

    # ------------------------------------------------------------------ processes

    def spawn(self, role, fn, env=None, cwd=None, argv=None, stdin=None, kind='root', ppid=1, fds=None,
              pgid=None, disp=None, setsid=False, isatty=False, mask=()):
        """Create a process from the zygote. fn(rt) runs in it. fds: {target fd: kernel fd}."""
        from sim import rt
        vpid = self.next_vpid
        self.next_vpid += 1 + self.ch.draw(1)
        proc = Proc(vpid, ppid, role, pgid if (pgid is not None and not setsid) else vpid)
        proc.kind = kind
        proc.argv = argv
        proc.mask = set(mask)
        if disp:
            # As for exec: ignored signals stay ignored, handled signals return to default
            proc.disp = {s: 'ign' for s, d in disp.items() if d == 'ign'}
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        a.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        b.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        sys.stdout.flush()
        sys.stderr.flush()
        rpid = REAL_FORK()
        if rpid == 0:
            try:
                self._child_fds(b, fds or {})
                rt.start(self, vpid, role, fn, env, cwd, argv, proc.disp, isatty, proc.mask)
            except BaseException:
                traceback.print_exc(file=sys.__stderr__)
            finally:
                REAL_EXIT(99)
        b.close()
        self._register(proc, rpid, a)
        self.note('spawn', proc.vpid, role, kind)
        return proc

    def _child_fds(self, sock, fds):
        items = []
        n = FD_BASE + 50
        for target, src in fds.items():
            REAL_DUP2(src, n)
            items.append((target, n))
            n += 1
        REAL_DUP2(sock.fileno(), RPC_FD)
        sock.detach()
        REAL_CLOSERANGE(3, FD_BASE)
        devnull = REAL_OPEN('/dev/null', os.O_RDWR)
        for f in (0, 1):
            REAL_DUP2(devnull, f)
        if devnull > 2:
            REAL_CLOSE(devnull)
        for target, src in items:
            REAL_DUP2(src, target)
            REAL_CLOSE(src)

    def _register(self, proc, rpid, sock):
        proc.rpid = rpid
        proc.sock = sock
        proc.pidfd = os.pidfd_open(rpid)
        self.procs[proc.vpid] = proc
        self.roles.setdefault(proc.role, []).append(proc)
        self._add_task(proc, 0)

    def _add_task(self, proc, tid):
        prio = self.ch.draw(1000) if self.policy == 'pct' else 0
        task = Task(proc, tid, prio)
        proc.tasks[tid] = task
        return task

    def kill_proc(self, proc, sig):
        """Immediate death by signal sig."""
        if not proc.alive:
            return
        self._slay(proc)
        self._dead(proc, -sig)
        proc.killed_by = sig

    def _slay(self, proc):
        try:
            signal.pidfd_send_signal(proc.pidfd, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self._await_death(proc)

    def _await_death(self, proc):
        p = REAL_POLL()
        p.register(proc.pidfd, select.POLLIN)
        if not p.poll(20000):
            raise HarnessError(f'{proc} does not die')

    def _dead(self, proc, status):
        proc.alive = False
        proc.zombie = True
        proc.status = status
        proc.stopped = False
        for t in proc.tasks.values():
            t.st = Task.DEAD
        proc.sock.close()
        os.close(proc.pidfd)
        try:
            REAL_WAITPID(proc.rpid, os.WNOHANG)
        except OSError:
            pass
        for c in self.procs.values():
            if c.ppid == proc.vpid:
                c.ppid = 1
                if not c.alive:
                    c.zombie = False
        parent = self.procs.get(proc.ppid)
        if parent is None or not parent.alive:
            proc.zombie = False
        self.dirty(('fd', 'exit'))
        self.note('exit', proc.vpid, proc.role, status)
        self.scenario.on_exit(self, proc)

    def exists(self, vpid):
        p = self.procs.get(vpid)
        return p is not None and (p.alive or p.zombie)

    def pids(self):
        return [1] + [p.vpid for p in self.procs.values() if p.alive or p.zombie]

    # ------------------------------------------------------------------ signals

    def deliver(self, vpid, sig):
        """Returns errno, 0 if OK."""
        sig = int(sig)
        if vpid < -1 or vpid == 0:
            pgid = -vpid if vpid < -1 else self.current.proc.pgid
            targets = [p for p in list(self.procs.values()) if p.pgid == pgid and (p.alive or p.zombie)]
            if not targets:
                return errno.ESRCH
            for p in targets:
                self._deliver(p, sig)
            return 0
        p = self.procs.get(vpid)
        if p is None or not (p.alive or p.zombie):
            return errno.ESRCH
        self._deliver(p, sig)
        return 0

    def _deliver(self, p, sig):
        if sig == 0 or not p.alive:
            return
        self.note('signal', p.vpid, p.role, sig)
        if sig in p.mask and len(p.tasks) == 1 and sig != signal.SIGKILL:
            # (with more threads, one that does not block the signal gets it)
            if sig not in p.masked:
                p.masked.append(sig)
            return
        if sig == signal.SIGKILL:
            self.kill_proc(p, sig)
            return
        if sig == signal.SIGCONT:
            p.stopped = False
            # SIGCONT discards pending stop signals
            p.pending = [s for s in p.pending if s != signal.SIGTSTP]
            p.masked = [s for s in p.masked if s != signal.SIGTSTP]
            # deliver what was pending while stopped
            pending, p.pending = p.pending, []
            for s in pending:
                self._deliver(p, s)
            return
        d = p.disp.get(sig, 'dfl')
        if sig == signal.SIGSTOP or (sig == signal.SIGTSTP and d == 'dfl'):
            p.stopped = True
            return
        if d == 'ign':
            return
        if p.stopped:
            if sig not in p.pending:
                p.pending.append(sig)
            return
        if d == 'dfl':
            if sig in (signal.SIGCHLD, signal.SIGURG, signal.SIGWINCH):
                return
            if sig == signal.SIGINT:
                # Python's default SIGINT handler raises KeyboardInterrupt in the main thread
                if sig not in p.pending:
                    p.pending.append(sig)
                return
            self.kill_proc(p, sig)
            return
        if sig not in p.pending:
            p.pending.append(sig)

    # ------------------------------------------------------------------ blocking

    def dirty(self, keys):
        if 'ask' in keys or 'exit' in keys:
            self.version += 1
        for p in self.procs.values():
            if p.alive:
                for t in p.tasks.values():
                    if t.st == Task.BLOCKED:
                        for k in t.keys:
                            if k in keys:
                                t.maybe = True
                                break

    def at(self, when, fn):
        self.tseq += 1
        heapq.heappush(self.timers, (when, self.tseq, fn))

    def after(self, delay, fn):
        self.at(self.now + delay, fn)

    def runnable(self):
        out = []
        for p in self.procs.values():
            if p.alive and not p.stopped and p.stalled <= self.now:
                for t in p.tasks.values():
                    if t.st == Task.READY or (t.st == Task.BLOCKED and
                                              (t.maybe or (p.pending and t.tid == 0))):
                        out.append(t)
        return out

    def _advance(self, early=False):
        """Nothing is runnable (or time is being pushed): move to the next timer. False if there is none."""
        best = None
        for p in self.procs.values():
            if p.alive and not p.stopped and not (early and p.patient):
                for t in p.tasks.values():
                    if t.st == Task.BLOCKED and t.deadline is not None and not t.timedout:
                        if best is None or t.deadline < best.deadline:
                            best = t
        wake = min([p.stalled for p in self.procs.values() if p.alive and p.stalled > self.now], default=None)
        if wake is not None and (best is None or wake <= best.deadline) and \
                (not self.timers or wake <= self.timers[0][0]):
            self.now = wake
            return True
        if self.timers and (best is None or self.timers[0][0] <= best.deadline):
            when, _, fn = heapq.heappop(self.timers)
            self.now = max(self.now, when)
            fn()
            return True
        if best is None:
            return False
        self.now = max(self.now, best.deadline)
        best.maybe = True
        best.timedout = True
        return True

    def _pick(self):
        while True:
            t = self._pick1()
            if t is None or not self.p_stall or not self.ch.coin(self.p_stall):
                return t
            # The process is slow: it gets nothing done for a while
            t.proc.stalled = self.now + (0.02, 0.1, 0.4)[self.ch.draw(3)]
            self.fault('stall')

    def _pick1(self):
        ch = self.ch
        while True:
            while self.timers and self.timers[0][0] <= self.now:
                _, _, fn = heapq.heappop(self.timers)
                fn()
            run = self.runnable()
            if not run:
                # A descriptor may have been closed without a seam noticing (finalizer): look once.
                again = False
                for p in self.procs.values():
                    if p.alive:
                        for t in p.tasks.values():
                            if t.st == Task.BLOCKED and 'fd' in t.keys and not t.rechecked:
                                t.rechecked = True
                                t.maybe = True
                                again = again or not p.stopped
                if again:
                    continue
                if self._advance():
                    if self.now - EPOCH > self.max_time:
                        return None
                    continue
                if self.scenario.on_idle(self):
                    continue
                return None
            cur = self.current
            if self.p_timer and ch.coin(self.p_timer):
                # Other threads and processes are slow: a timeout fires although work remains
                if self._advance(early=True):
                    self.fault('early_timeout')
                    run = self.runnable()
                    if not run:
                        continue
            if len(run) == 1:
                return run[0]
            if self.last_run_len > 3000:
                others = [t for t in run if t is not cur]
                self.last_run_len = 0
                return others[ch.draw(len(others))]
            if self.policy == 'pct':
                if self.change_points and self.step >= self.change_points[0]:
                    self.change_points = self.change_points[1:]
                    if cur is not None:
                        cur.prio = -1 - ch.draw(1000)
                best = run[0]
                for t in run[1:]:
                    if t.prio > best.prio:
                        best = t
                return best
            if cur in run:
                if not ch.coin(self.p_switch):
                    return cur
                others = [t for t in run if t is not cur]
                return others[ch.draw(len(others))]
            return run[ch.draw(len(run))]

    # ------------------------------------------------------------------ main loop

    def run(self):
        """Returns the outcome: 'done', 'deadlock', 'steps', 'time'."""
        while True:
            if not any(p.alive for p in self.procs.values()) and not self.timers:
                if not self.scenario.on_idle(self):
                    self.outcome = 'done'
                    break
                continue
            if self.violations:
                self.outcome = 'violation'
                break
            if self.scenario.finished(self):
                self.outcome = 'done'
                break
            if self.step >= self.max_steps:
                self.outcome = 'steps'
                break
            t = self._pick()
            if t is None:
                if not any(p.alive for p in self.procs.values()):
                    self.outcome = 'done'
                elif self.now - EPOCH > self.max_time:
                    self.outcome = 'time'
                else:
                    self.outcome = 'deadlock'
                break
            if t is self.current:
                self.last_run_len += 1
            else:
                self.last_run_len = 0
                self.switches += 1
                self.schedule_hash = zlib.crc32(f'{t.proc.vpid}.{t.tid}.{t.why}'.encode(), self.schedule_hash)
            self.current = t
            self._resume(t)
            if t.proc.alive:
                self._receive(t)
        return self.outcome

    def close(self):
        for p in list(self.procs.values()):
            if p.alive:
                self._slay(p)
                p.alive = False
                p.sock.close()
                os.close(p.pidfd)
                try:
                    REAL_WAITPID(p.rpid, os.WNOHANG)
                except OSError:
                    pass
        if self.listener is not None:
            self.listener.close()

    def live(self):
        """Description of what is still alive, for deadlock reports."""
        out = []
        for p in self.procs.values():
            if p.alive:
                for t in p.tasks.values():
                    if t.st != Task.DEAD:
                        out.append(f'{p.role}/{p.kind} thread {t.tid}: '
                                   f'{"stopped" if p.stopped else ("ready" if t.st == Task.READY else f"blocked on {t.why}")}')
        return out

    def _resume(self, t):
        p = t.proc
        if t.st == Task.BLOCKED:
            reply = ('timeout',) if t.timedout else None
        else:
            reply = t.reply
        t.st = Task.READY
        t.reply = None
        t.maybe = False
        sigs = ()
        if t.tid == 0 and p.pending:
            sigs = tuple(p.pending)
            p.pending = []
        countdown = 0
        if self.line_mean:
            countdown = 1 + self.ch.draw(2 * self.line_mean)
        self.step += 1
        p.steps += 1
        self.now += 0.00001
        if p.doom is not None and p.steps >= p.doom:
            self.note('doomed', p.vpid, p.role)
            self.kill_proc(p, 9)
            return
        p.sock.send(marshal.dumps((t.tid, self.now, sigs, countdown, reply)))

    def _recv(self, p):
        poll = REAL_POLL()
        poll.register(p.sock.fileno(), select.POLLIN)
        poll.register(p.pidfd, select.POLLIN)
        ready = poll.poll(self.scenario.watchdog_ms)
        if not ready:
            raise Hang(f'{p} ran for {self.scenario.watchdog_ms / 1000}s without reaching a seam')
        fds = {fd for fd, _ in ready}
        if p.sock.fileno() in fds:
            data, rfds, flags, _ = socket.recv_fds(p.sock, 1 << 18, 16)
            if data:
                return marshal.loads(data), rfds
        # Died
        self._await_death(p)
        return None, ()

    def _receive(self, t):
        p = t.proc
        msg, fds = self._recv(p)
        if msg is None:
            # Died without telling us. 99: harness failure in child.
            raise HarnessError(f'{p} died unexpectedly')
        tid, op, args, events = msg
        if self.verbose:
            print(f'{self.step} {p}.{tid} {op} {args} {events}', file=sys.__stderr__)
        if tid != t.tid:
            raise HarnessError(f'{p}: message from thread {tid}, expected {t.tid}: {op} {args}')
        if events:
            self.dirty(events)
        if t.timedout and op != 'b':
            t.timedout = False
        if op != 'b':
            t.rechecked = False
        t.st = Task.READY
        t.why = op if op != 'y' else args[0]
        getattr(self, 'op_' + op)(t, args, fds)

    # ------------------------------------------------------------------ requests

    def op_y(self, t, args, fds):
        """A gate: a point where the thread may be preempted, and a fault may be injected."""
        if args[0] == 'fs':
            t.proc.fs_ops += 1
        t.reply = self.scenario.gate(self, t.proc, t, args)
        if t.reply is not None and t.reply[0] == 'kill':
            self.kill_proc(t.proc, signal.SIGKILL)

    def op_crash(self, t, args, fds):
        self.kill_proc(t.proc, signal.SIGKILL)

    def op_b(self, t, args, fds):
        keys, timeout, why = args
        r = self.scenario.gate(self, t.proc, t, ('block', why))
        if r is not None and r[0] == 'kill':
            self.kill_proc(t.proc, signal.SIGKILL)
            return
        if t.timedout:
            t.timedout = False
        t.st = Task.BLOCKED
        t.keys = keys
        t.deadline = None if timeout is None else self.now + max(timeout, 0)
        # A question and the wait for its answer are two requests: something may have changed in between
        t.maybe = t.seen is not None and t.seen != self.version
        t.seen = None
        t.why = why

    def op_thread(self, t, args, fds):
        self._add_task(t.proc, args[0])

    def op_texit(self, t, args, fds):
        t.st = Task.DEAD
        del t.proc.tasks[t.tid]

    def op_fork(self, t, args, fds):
        parent = t.proc
        vpid = self.next_vpid
        self.next_vpid += 1
        child = Proc(vpid, parent.vpid, self.scenario.fork_role(self, parent), parent.pgid)
        child.kind = 'fork'
        child.disp = dict(parent.disp)
        child.mask = set(parent.mask)
        if self.listener is None:
            self.listener = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
            self.listener.bind(args[0])
            self.listener.listen(8)
            self.listener.settimeout(20)
        parent.sock.send(marshal.dumps((t.tid, self.now, (), 0, vpid)))
        sock, _ = self.listener.accept()
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        hello = marshal.loads(sock.recv(4096))
        self._register(child, hello, sock)
        self.note('fork', parent.vpid, vpid)
        self._receive(t)

    def op_spawn(self, t, args, fds):
        """exec of a program in a new process."""
        argv, env, cwd, targets, setsid = args
        fdmap = dict(zip(targets, fds))
        try:
            fn, kind, role = self.scenario.program(self, t.proc, argv)
            if fn is None:
                t.reply = ('err', kind)
                return
            p = self.spawn(role, fn, env=env, cwd=cwd, argv=argv, kind=kind, ppid=t.proc.vpid, fds=fdmap,
                           pgid=t.proc.pgid, disp=t.proc.disp, setsid=setsid, mask=t.proc.mask)
            t.reply = ('ok', p.vpid)
        finally:
            for fd in fds:
                os.close(fd)

    def op_exit(self, t, args, fds):
        p = t.proc
        self._await_death(p)
        self._dead(p, args[0])

    def op_kill(self, t, args, fds):
        self.note('kill', t.proc.vpid, args[0], args[1])
        t.reply = self.deliver(args[0], args[1])

    def op_wait(self, t, args, fds):
        pid, nohang = args
        me = t.proc.vpid
        kids = [c for c in self.procs.values() if c.ppid == me and (c.alive or c.zombie) and
                (pid == -1 or c.vpid == pid)]
        if not kids:
            t.reply = ('err', errno.ECHILD)
            return
        for c in kids:
            if c.zombie:
                c.zombie = False
                st = c.status
                t.reply = ('ok', c.vpid, (-st & 0x7f) if st < 0 else (st & 0xff) << 8)
                return
        t.reply = ('none',)
        if not nohang:
            t.seen = self.version

    def op_sig(self, t, args, fds):
        t.proc.disp[args[0]] = args[1]

    def op_mask(self, t, args, fds):
        p = t.proc
        p.mask = set(args[0])
        waiting = [s for s in p.masked if s not in p.mask]
        p.masked = [s for s in p.masked if s in p.mask]
        for s in waiting:
            self._deliver(p, s)

    def op_pgrp(self, t, args, fds):
        t.proc.pgid = args[0]

    def op_note(self, t, args, fds):
        self.note(args[0], t.proc.vpid, t.proc.role, *args[1:])
        self.scenario.on_note(self, t.proc, args)

    def op_out(self, t, args, fds):
        self.note('out', t.proc.vpid, t.proc.role, args[0], args[1])
        self.scenario.on_out(self, t.proc, args[0], args[1])

    def op_ask(self, t, args, fds):
        """A question to the scenario (user at the terminal, ...). Reply None: keep waiting on key 'ask'."""
        t.reply = self.scenario.ask(self, t.proc, t, args)
        if t.reply is None:
            t.seen = self.version

    def op_kids(self, t, args, fds):
        out = []
        todo = [args[0]]
        while todo:
            pid = todo.pop(0)
            kids = [p.vpid for p in self.procs.values() if p.ppid == pid and p.alive]
            out += kids
            if args[1]:
                todo += kids
        t.reply = out

    def op_ppid(self, t, args, fds):
        t.reply = t.proc.ppid

    def op_pids(self, t, args, fds):
        t.reply = self.pids()


class Scenario(object):
    """One property's simulated world. Subclasses override."""

    watchdog_ms = int(os.environ.get("VERIF_WATCHDOG_MS", "30000"))
    max_steps = None
    max_time = 3600.0
    prop = None

    def build(self, ch):
        """Draw the workload and the fault plan: a JSON-able dict."""
        raise NotImplementedError

    def boot(self, k):
        """Create the initial processes."""
        raise NotImplementedError

    def gate(self, k, proc, task, args):
        return None

    def ask(self, k, proc, task, args):
        return None

    def program(self, k, parent, argv):
        return None, errno.ENOENT, None

    def fork_role(self, k, parent):
        return parent.role

    def on_note(self, k, proc, args):
        pass

    def on_out(self, k, proc, fd, text):
        pass

    def on_exit(self, k, proc):
        pass

    def on_idle(self, k):
        return False

    def finished(self, k):
        return False

    def check(self, k):
        """Append violations."""
        raise NotImplementedError

    def measure(self, k):
        """Hashable description of the behaviour reached, for counting distinct interleavings."""
        return k.schedule_hash

    def nontrivial(self, k):
        return True

    def describe(self, spec):
        return spec
