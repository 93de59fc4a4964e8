"""In-process half of the simulator: the seams.

install() replaces, once and before the code under test is imported, the functions of the Python standard library through which a program meets nondeterminism.  In a process that is
not simulated (the kernel/zygote itself) the replacements pass straight through.  In a simulated process
they ask the kernel.  Nothing in the code under test is patched.
"""
import builtins
import errno
import fcntl
import io
import marshal
import os
import select
import signal
import socket
import stat
import struct
import sys
import threading
import time
import _thread
import traceback
import types

ZYGOTE_PID = 424242421
RPC_FD = 400

ACTIVE = False
R = None            # The Runtime of this process


class real(object):
    pass


for _n in ('fork', '_exit', 'kill', 'killpg', 'getpid', 'getppid', 'waitpid', 'close', 'read', 'write', 'pipe', 'open',
           'stat', 'lstat', 'listdir', 'scandir', 'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'link',
           'symlink', 'chmod', 'utime', 'truncate', 'readlink', 'fstat', 'setsid', 'setpgid', 'getpgid', 'getpgrp',
           'access', 'chdir', 'dup', 'dup2', 'urandom', 'path', 'chown', 'ftruncate', 'wait'):
    setattr(real, _n, getattr(os, _n))
real.io_open = io.open
real.FileIO = io.FileIO
real.poll = select.poll
real.select = select.select
real.time = time.time
real.monotonic = time.monotonic
real.sleep = time.sleep
real.signal = signal.signal
real.getsignal = signal.getsignal
real.pthread_sigmask = signal.pthread_sigmask
real.start_new_thread = _thread.start_new_thread
real.get_ident = _thread.get_ident
real.allocate_lock = _thread.allocate_lock
real.flock = fcntl.flock
real.Popen_fork_exec = None


class SimBug(BaseException):
    pass


class TaskLocal(object):

    def __init__(self, tid):
        self.tid = tid
        self.sem = real.allocate_lock()
        self.sem.acquire()
        self.inbox = None
        self.finished = False


class Runtime(object):

    def __init__(self, sock, vpid, role, scratch):
        self.sock = sock
        self.vpid = vpid
        self.role = role
        self.scratch = scratch
        self.tasks = {}
        self.by_ident = {}
        self.events = set()
        self.now = 0
        self.countdown = 0
        self.handlers = {}
        self.next_tid = 1
        self.pipe_size = 0
        self.gated = None
        self.trace_prefixes = ()
        self.atexit_done = False
        self.prng = None
        self.fsmask = None
        self.forking = False
        self.mask = set()
        self.flocked = set()

    def call(self, op, args=(), fds=None):
        t = self.by_ident.get(real.get_ident())
        if t is None:
            real.write(2, f'sim: unknown thread calls {op}\n'.encode())
            real._exit(98)
        events = tuple(sorted(self.events))
        self.events.clear()
        m = marshal.dumps((t.tid, op, args, events))
        if fds:
            socket.send_fds(self.sock, [m], fds)
        else:
            self.sock.send(m)
        if op in ('exit', 'crash'):
            if op == 'crash':
                while True:
                    self.sock.recv(1)
            return None
        return self.resume(t)

    def resume(self, t):
        self.read_for(t)
        tid, self.now, sigs, self.countdown, reply = t.inbox
        t.inbox = None
        for s in sigs:
            h = self.handlers.get(s)
            if h is None and s == signal.SIGINT:
                h = signal.default_int_handler
            if callable(h):
                # The frame that was interrupted
                h(s, sys._getframe())
        return reply

    # Only the running thread touches the socket. When the kernel resumes a different thread of this process, hand
    # over and wait.
    def read_for(self, t, exiting=False):
        while True:
            data = self.sock.recv(1 << 18)
            if not data:
                real._exit(97)
            m = marshal.loads(data)
            other = self.tasks[m[0]]
            other.inbox = m
            if other is t:
                return
            other.sem.release()
            if exiting:
                return
            t.sem.acquire()
            return

    def gate(self, *args):
        return self.call('y', args)

    def block(self, keys, timeout, why):
        """Wait until one of keys may have changed. False: timed out."""
        return self.call('b', (keys, timeout, why)) is None

    def event(self, key):
        self.events.add(key)


# ---------------------------------------------------------------------- fds

def fd_kind(fd):
    mode = real.fstat(fd).st_mode
    return 'p' if (stat.S_ISFIFO(mode) or stat.S_ISSOCK(mode)) else 'f' if stat.S_ISREG(mode) else 'o'


def fd_ready(fd, mask):
    p = real.poll()
    p.register(fd, mask)
    return bool(p.poll(0))


def wait_fd(fd, mask, why):
    R.gate('io', why)
    while not fd_ready(fd, mask):
        R.block(('fd',), None, why)


def pipe_write(fd, data):
    """Blocking write semantics on a pipe, socket: everything is written, unless there is an error."""
    view = memoryview(data).cast('B')
    n = len(view)
    done = 0
    R.gate('io', 'pipe write')
    while True:
        flags = fcntl.fcntl(fd, fcntl.F_GETFL)
        fcntl.fcntl(fd, fcntl.F_SETFL, flags | os.O_NONBLOCK)
        try:
            k = real.write(fd, view[done:])
        except BlockingIOError:
            k = None
        finally:
            fcntl.fcntl(fd, fcntl.F_SETFL, flags)
        if k is not None:
            R.event('fd')
            done += k
            if done >= n:
                return n
        R.block(('fd',), None, 'pipe write')


# ---------------------------------------------------------------------- locks

class SimLock(object):

    def __init__(self):
        self._locked = False
        self._key = None

    def key(self):
        return f'L{R.vpid}.{id(self)}'

    def acquire(self, blocking=True, timeout=-1):
        if not ACTIVE:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError('sim: lock contention outside simulation')
            self._locked = True
            return True
        if R.by_ident.get(real.get_ident()) is None:
            if self._locked:
                return False
            self._locked = True
            return True
        if len(R.tasks) > 1 and not R.forking:
            R.gate('lock')
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else R.now + timeout
        while self._locked:
            left = None if deadline is None else deadline - R.now
            if left is not None and left <= 0:
                return False
            R.block((self.key(),), left, 'lock')
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        if ACTIVE and R is not None:
            R.event(self.key())

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def __reduce_ex__(self, protocol):
        raise TypeError("cannot pickle '_thread.lock' object")

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


def make_lock():
    return SimLock()


def sim_start_new_thread(function, args, kwargs=None):
    if not ACTIVE:
        return real.start_new_thread(function, args, kwargs or {})
    tid = R.next_tid
    R.next_tid += 1
    task = TaskLocal(tid)
    R.tasks[tid] = task
    owner = getattr(function, '__self__', None)
    if isinstance(owner, threading.Thread):
        owner._sim_task = task

    def boot():
        task.sem.acquire()
        me = real.get_ident()
        R.by_ident[me] = task
        try:
            _, R.now, _, R.countdown, _ = task.inbox
            task.inbox = None
            if R.trace_prefixes:
                sys.settrace(tracefn)
            try:
                function(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException:
                R.call('note', ('thread_exception', traceback.format_exc()[-2000:]))
        finally:
            sys.settrace(None)
            task.finished = True
            R.event(f'T{R.vpid}.{tid}')
            events = tuple(sorted(R.events))
            R.events.clear()
            del R.tasks[tid]
            R.by_ident.pop(me, None)
            R.sock.send(marshal.dumps((tid, 'texit', (), events)))
            R.read_for(task, exiting=True)

    real.start_new_thread(boot, ())
    R.call('thread', (tid,))
    return tid + 10**9


def sim_wait_tstate(self, block=True, timeout=-1):
    """Thread._wait_for_tstate_lock"""
    if not ACTIVE or getattr(self, '_sim_task', None) is None:
        return real.wait_tstate(self, block, timeout)
    task = self._sim_task
    if self._tstate_lock is None:
        return
    if block:
        R.gate('join')
        deadline = None if timeout is None or timeout < 0 else R.now + timeout
        while not task.finished:
            left = None if deadline is None else deadline - R.now
            if left is not None and left <= 0:
                return
            R.block((f'T{R.vpid}.{task.tid}',), left, 'thread join')
    if task.finished:
        lock = self._tstate_lock
        self._tstate_lock = None
        self._is_stopped = True
        if not self.daemon:
            with threading._shutdown_locks_lock:
                threading._shutdown_locks.discard(lock)


def tracefn(frame, event, arg):
    fn = frame.f_code.co_filename
    for p in R.trace_prefixes:
        if fn.startswith(p):
            return tracelocal
    return None


def tracelocal(frame, event, arg):
    if event == 'line' and ACTIVE and R.countdown:
        R.countdown -= 1
        if R.countdown == 0 and len(R.tasks) > 1:
            R.gate('line')
    return tracelocal


# ---------------------------------------------------------------------- polling

class SimPoll(object):

    def __init__(self):
        self._p = real.poll()
        self._n = 0

    def register(self, fd, *mask):
        self._p.register(fd, *mask)

    def modify(self, fd, mask):
        self._p.modify(fd, mask)

    def unregister(self, fd):
        self._p.unregister(fd)

    def poll(self, timeout=None):
        if not ACTIVE:
            return self._p.poll(timeout)
        R.gate('io', 'poll')
        deadline = None if timeout is None or timeout < 0 else R.now + timeout / 1000.0
        while True:
            ready = self._p.poll(0)
            if ready:
                return ready
            left = None if deadline is None else deadline - R.now
            if left is not None and left <= 1e-9:
                return []
            R.block(('fd',), left, 'poll')


def sim_select(r, w, x, timeout=None):
    if not ACTIVE:
        return real.select(r, w, x, timeout)
    R.gate('io', 'select')
    deadline = None if timeout is None else R.now + timeout
    while True:
        ready = real.select(r, w, x, 0)
        if any(ready):
            return ready
        left = None if deadline is None else deadline - R.now
        if left is not None and left <= 1e-9:
            return ready
        R.block(('fd',), left, 'select')


# ---------------------------------------------------------------------- time

def sim_time():
    if not ACTIVE:
        return real.time()
    if R.by_ident.get(real.get_ident()) is not None:
        R.gate('time')
    return R.now


def sim_monotonic():
    return R.now - 1600000000.0 if ACTIVE else real.monotonic()


def sim_sleep(s):
    if not ACTIVE:
        return real.sleep(s)
    deadline = R.now + s
    while R.now < deadline - 1e-12:
        R.block(('never',), deadline - R.now, 'sleep')


# ---------------------------------------------------------------------- signals

def sim_signal(signum, handler):
    if not ACTIVE:
        return real.signal(signum, handler)
    if R.by_ident[real.get_ident()].tid != 0:
        raise ValueError('signal only works in main thread of the main interpreter')
    old = sim_getsignal(signum)
    R.handlers[int(signum)] = handler
    R.call('sig', (int(signum),
                   'ign' if handler == signal.SIG_IGN else
                   'dfl' if handler == signal.SIG_DFL or handler is None else
                   'handler'))
    if int(signum) == signal.SIGINT and handler == signal.SIG_DFL:
        # kernel treats dfl SIGINT as Python's default handler; really it is death
        R.call('sig', (int(signum), 'handler'))
        R.handlers[int(signum)] = lambda s, f: R.call('kill', (R.vpid, int(signal.SIGTERM)))
    return old


def sim_sigmask(how, mask):
    if not ACTIVE:
        return real.pthread_sigmask(how, mask)
    t = R.by_ident[real.get_ident()]
    old = {signal.Signals(s) for s in R.mask}
    if t.tid == 0:
        mask = {int(s) for s in mask}
        R.mask = R.mask | mask if how == signal.SIG_BLOCK else R.mask - mask if how == signal.SIG_UNBLOCK else mask
        R.call('mask', (tuple(sorted(R.mask)),))
    return old


def sim_getsignal(signum):
    if not ACTIVE:
        return real.getsignal(signum)
    h = R.handlers.get(int(signum))
    if h is None:
        return signal.default_int_handler if signum == signal.SIGINT else signal.SIG_DFL
    return h


# ---------------------------------------------------------------------- processes

def sim_getpid():
    return R.vpid if ACTIVE else (ZYGOTE_PID if IMPORTING else real.getpid())


IMPORTING = False


def sim_getppid():
    return R.call('ppid') if ACTIVE else real.getppid()


def sim_fork():
    global R
    if not ACTIVE:
        return real.fork()
    t = R.by_ident[real.get_ident()]
    path = os.path.join(R.scratch, '.sim')
    vpid = R.call_fork(path)
    R.forking = True
    pid = real.fork()
    R.forking = False
    if pid == 0:
        old = R
        sock = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        sock.connect(path)
        real.dup2(sock.fileno(), RPC_FD)
        sock.close()
        old.sock.detach()
        sock = socket.socket(fileno=RPC_FD)
        sock.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
        R.sock = sock
        R.vpid = vpid
        me = TaskLocal(0)
        R.tasks = {0: me}
        R.by_ident = {real.get_ident(): me}
        R.events = set()
        R.next_tid = 1
        sock.send(marshal.dumps(real.getpid()))
        R.resume(me)
        return 0
    R.gate('forked')
    return vpid


def call_fork(self, path):
    t = self.by_ident[real.get_ident()]
    events = tuple(sorted(self.events))
    self.events.clear()
    self.sock.send(marshal.dumps((t.tid, 'fork', (path,), events)))
    return marshal.loads(self.sock.recv(65536))[4]


Runtime.call_fork = call_fork


def sim__exit(status):
    if not ACTIVE:
        real._exit(status)
    R.gate('sys', 'exit')
    R.call('exit', (int(status) & 0xff,))
    real._exit(status)


def sim_kill(pid, sig):
    if not ACTIVE:
        return real.kill(pid, sig)
    R.gate('sys', 'kill')
    e = R.call('kill', (int(pid), int(sig)))
    if e:
        raise OSError(e, os.strerror(e))


def sim_killpg(pgid, sig):
    if not ACTIVE:
        return real.killpg(pgid, sig)
    return sim_kill(-pgid, sig)


def sim_waitpid(pid, options):
    if not ACTIVE:
        return real.waitpid(pid, options)
    R.gate('sys', 'wait')
    while True:
        r = R.call('wait', (pid, bool(options & os.WNOHANG)))
        if r[0] == 'ok':
            return r[1], r[2]
        if r[0] == 'err':
            raise ChildProcessError(r[1], os.strerror(r[1]))
        if options & os.WNOHANG:
            return 0, 0
        R.block(('exit',), None, 'waitpid')


def sim_setsid():
    if not ACTIVE:
        return real.setsid()
    R.call('pgrp', (R.vpid,))


def sim_fork_exec(args, executable_list, close_fds, pass_fds, cwd, env_list,
                  p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite, errpipe_read, errpipe_write,
                  restore_signals, start_new_session, pgid_to_set, gid, gids, uid, umask, preexec_fn, *rest):
    if not ACTIVE:
        return real.fork_exec(args, executable_list, close_fds, pass_fds, cwd, env_list,
                              p2cread, p2cwrite, c2pread, c2pwrite, errread, errwrite, errpipe_read, errpipe_write,
                              restore_signals, start_new_session, pgid_to_set, gid, gids, uid, umask, preexec_fn, *rest)
    targets, fds = [], []

    def add(target, fd):
        if fd >= 0:
            targets.append(target)
            fds.append(fd)

    add(0, p2cread)
    add(1, c2pwrite)
    add(2, errwrite)
    for fd in pass_fds:
        if fd > 2 and fd != errpipe_write:   # that one is close-on-exec
            add(fd, fd)
    if not close_fds:
        pass
    env = dict(os.environ) if env_list is None else {
        k: v for k, v in (os.fsdecode(e).split('=', 1) for e in env_list)}
    setsid = bool(start_new_session) or getattr(preexec_fn, '__name__', '') in ('setsid', 'sim_setsid', 'setpgrp')
    argv = [os.fsdecode(a) for a in args]
    R.gate('sys', 'spawn')
    r = R.call('spawn', (argv, env, os.fsdecode(cwd) if cwd is not None else os.getcwd(), targets, setsid), fds=fds)
    if r[0] == 'err' and r[1] in (errno.EAGAIN, errno.ENOMEM):
        raise OSError(r[1], os.strerror(r[1]))      # fork failed
    if r[0] == 'err':
        real.write(errpipe_write, b'OSError:%x:' % r[1])
        # A child that failed to exec: already dead and reaped by wait
        return R_DEADCHILD
    return r[1]


R_DEADCHILD = 999


# ---------------------------------------------------------------------- pipes, raw fds

def sim_pipe():
    r, w = real.pipe()
    if ACTIVE and R.pipe_size:
        fcntl.fcntl(w, 1031, R.pipe_size)   # F_SETPIPE_SZ
    return r, w


def sim_read(fd, n):
    if ACTIVE and fd_kind(fd) == 'p':
        wait_fd(fd, select.POLLIN, 'pipe read')
        data = real.read(fd, n)
        R.event('fd')
        return data
    return real.read(fd, n)


def sim_write(fd, data):
    if ACTIVE:
        k = fd_kind(fd)
        if k == 'p':
            return pipe_write(fd, data)
        if k == 'f':
            path = fd_path(fd)
            if in_scratch(path):
                return raw_write(path, lambda b: real.write(fd, b), data)
    return real.write(fd, data)


def sim_close(fd):
    if ACTIVE:
        if fd == RPC_FD:
            return
        try:
            if fd_kind(fd) == 'p':
                R.event('fd')
        except OSError:
            pass
        if fd in R.flocked:
            R.flocked.discard(fd)
            real.close(fd)
            R.event('flock')
            return
    return real.close(fd)


def sim_flock(fd, operation):
    if not ACTIVE:
        return real.flock(fd, operation)
    fd = fd if isinstance(fd, int) else fd.fileno()
    R.gate('lock')
    if operation & fcntl.LOCK_UN:
        R.flocked.discard(fd)
        real.flock(fd, operation)
        R.event('flock')
        return
    while True:
        try:
            real.flock(fd, operation | fcntl.LOCK_NB)
            R.flocked.add(fd)
            return
        except BlockingIOError:
            if operation & fcntl.LOCK_NB:
                raise
        R.block(('flock', 'exit'), None, 'flock')


# ---------------------------------------------------------------------- file system

MUTATING = {'mkdir', 'rmdir', 'unlink', 'remove', 'rename', 'replace', 'link', 'symlink', 'chmod', 'utime', 'truncate',
            'openw', 'write', 'chown'}


def fd_path(fd):
    try:
        return real.readlink(f'/proc/self/fd/{fd}')
    except OSError:
        return ''


def moved(path):
    """Hard-coded temporary paths lead into the scratch directory."""
    if isinstance(path, int):
        return path
    p = os.fsdecode(path)
    if p.startswith('/tmp/') and not in_scratch(p):
        return R.scratch + p
    return path


def abspath(path, dir_fd=None):
    if isinstance(path, int):
        return fd_path(path)
    path = os.fsdecode(path)
    if not path.startswith('/'):
        if dir_fd is not None:
            path = fd_path(dir_fd) + '/' + path
        else:
            try:
                path = os.getcwd() + '/' + path
            except OSError:
                path = '/?/' + path
    return os.path.normpath(path)


def in_scratch(path):
    return path.startswith(R.scratch + '/') or path == R.scratch


def fs_gate(op, path, extra=None):
    """Ask permission for a file system operation. Raises the injected error."""
    if not in_scratch(path):
        if op in MUTATING and path != '/dev/null':
            R.call('note', ('escape', op, path))
            raise PermissionError(errno.EPERM, 'sim: mutation outside scratch', path)
        return None
    if R.gated is not None and op not in R.gated:
        return None
    rel = path[len(R.scratch):]
    r = R.call('y', ('fs', op, rel, extra))
    if r is None:
        return None
    if r[0] == 'err':
        raise OSError(r[1], os.strerror(r[1]), path)
    return r


def touch(path, follow=True):
    try:
        real.utime(path, (R.now, R.now), follow_symlinks=follow)
    except OSError:
        pass


def wrap_fs(name, two=False):
    f = getattr(real, name)

    def g(path, *args, **kwargs):
        if not ACTIVE or R.by_ident.get(real.get_ident()) is None:
            return f(path, *args, **kwargs)
        path = moved(path)
        p = abspath(path, kwargs.get('dir_fd', kwargs.get('src_dir_fd')))
        extra = None
        if two:
            extra = abspath(args[0] if args else kwargs.get('dst'), kwargs.get('dst_dir_fd'))
            if not in_scratch(extra):
                fs_gate('write', extra)
            extra = extra[len(R.scratch):]
        if name == 'symlink':
            p = abspath(args[0], kwargs.get('dir_fd'))
            extra = None
        try:
            fs_gate(name, p, extra)
        except OSError:
            if name == 'access':
                return False
            raise
        result = f(path, *args, **kwargs)
        if name == 'mkdir':
            touch(p)
        elif name == 'utime' and not args and not kwargs.get('times') and not kwargs.get('ns'):
            touch(p)
        return result

    g.__name__ = name
    g.__qualname__ = name
    return g


def sim_listdir(path='.'):
    if not ACTIVE:
        return real.listdir(path)
    fs_gate('listdir', abspath(path if path is not None else '.'))
    return order(sorted(real.listdir(path)))


def order(names):
    if R.listorder == 1:
        names.reverse()
    elif R.listorder > 1:
        k = R.listorder % max(1, len(names))
        names = names[k:] + names[:k]
    return names


class SimScandir(object):

    def __init__(self, path):
        with real.scandir(path) as it:
            entries = {e.name: e for e in it}
        self.entries = [entries[n] for n in order(sorted(entries))]
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i >= len(self.entries):
            raise StopIteration
        e = self.entries[self.i]
        self.i += 1
        return e

    def close(self):
        self.i = len(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sim_scandir(path='.'):
    if not ACTIVE:
        return real.scandir(path)
    fs_gate('scandir', abspath(path if path is not None else '.'))
    return SimScandir(path if path is not None else '.')


def sim_os_open(path, flags, mode=0o777, *, dir_fd=None):
    if not ACTIVE or R.by_ident.get(real.get_ident()) is None:
        return real.open(path, flags, mode, dir_fd=dir_fd)
    path = moved(path)
    p = abspath(path, dir_fd)
    w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND))
    fs_gate('openw' if w else 'open', p)
    fd = real.open(path, flags, mode, dir_fd=dir_fd)
    if w and in_scratch(p):
        touch(p)
    return fd


def raw_write(path, do, data):
    """One write(2) on a regular file of the scratch directory."""
    view = memoryview(data).cast('B')
    r = fs_gate_write(path, len(view))
    if r is None:
        n = do(view)
        touch(path)
        return n
    kind, k = r[0], min(r[1], len(view))
    if k:
        done = 0
        while done < k:
            done += do(view[done:k])
        touch(path)
    if kind == 'short':
        return k
    if kind == 'crash':
        R.call('crash')
    raise OSError(r[2], os.strerror(r[2]), path)


def fs_gate_write(path, n):
    if R.gated is not None and 'write' not in R.gated:
        return None
    r = R.call('y', ('fs', 'write', path[len(R.scratch):], n))
    if r is not None and r[0] == 'err':
        raise OSError(r[1], os.strerror(r[1]), path)
    return r


class SimRaw(io.FileIO):

    def __init__(self, file, mode='r', closefd=True, opener=None):
        self._kind = None
        self._path = None
        self._w = any(c in mode for c in 'wax+')
        if isinstance(file, int):
            super().__init__(file, mode, closefd)
            self._kind = fd_kind(file)
            if self._kind == 'f':
                self._path = fd_path(file)
        else:
            p = abspath(file)
            if opener is None:
                fs_gate('openw' if self._w else 'open', p)
                if not self._w and not os.path.isdir(p) and os.path.exists(p) and stat.S_ISFIFO(real.stat(p).st_mode):
                    pass
            super().__init__(file, mode, closefd, opener)
            self._kind = fd_kind(self.fileno())
            self._path = p
            if self._w and in_scratch(p) and ('w' in mode or 'x' in mode):
                touch(p)
        self._scr = self._kind == 'f' and in_scratch(self._path or '')

    def readinto(self, b):
        if ACTIVE:
            if self._kind == 'p':
                if len(memoryview(b)) == 0:
                    return 0
                wait_fd(self.fileno(), select.POLLIN, 'pipe read')
                n = super().readinto(b)
                R.event('fd')
                return n
            if self._scr:
                r = fs_gate('read', self._path, len(b))
                if r is not None and r[0] == 'short':
                    m = memoryview(b)[:max(1, min(r[1], len(b)))]
                    return super().readinto(m)
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        b = bytearray(n)
        k = self.readinto(b)
        return None if k is None else bytes(b[:k])

    def readall(self):
        out = bytearray()
        while True:
            chunk = bytearray(8192)
            k = self.readinto(chunk)
            if not k:
                return bytes(out)
            out += chunk[:k]

    def write(self, b):
        if ACTIVE:
            if self._kind == 'p':
                return pipe_write(self.fileno(), b)
            if self._scr:
                return raw_write(self._path, lambda v: io.FileIO.write(self, v), b)
        return super().write(b)

    def close(self):
        if ACTIVE and not self.closed and self._kind == 'p':
            R.event('fd')
        super().close()


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not ACTIVE or R.by_ident.get(real.get_ident()) is None:
        return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if not isinstance(file, int):
        file = moved(os.fspath(file))
        p = abspath(file)
        if not in_scratch(p):
            if any(c in mode for c in 'wax+') and p != '/dev/null':
                fs_gate('openw', p)
            return real.io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    # From _pyio.open
    modes = set(mode)
    if modes - set('axrwb+t') or len(mode) > len(modes):
        raise ValueError('invalid mode: %r' % mode)
    creating, reading, writing, appending, updating = ('x' in modes, 'r' in modes, 'w' in modes, 'a' in modes,
                                                       '+' in modes)
    text, binary = 't' in modes, 'b' in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError('must have exactly one of create/read/write/append mode')
    if binary and (encoding is not None or errors is not None or newline is not None):
        raise ValueError('binary mode does not take encoding, errors, newline')
    raw = SimRaw(file, (creating and 'x' or '') + (reading and 'r' or '') + (writing and 'w' or '') +
                 (appending and 'a' or '') + (updating and '+' or ''), closefd, opener=opener)
    result = raw
    try:
        line_buffering = buffering == 1
        if buffering < 0 or line_buffering:
            buffering = 8192
        if buffering == 0:
            if binary:
                return result
            raise ValueError("can't have unbuffered text I/O")
        if updating:
            buffer = io.BufferedRandom(raw, buffering)
        elif creating or writing or appending:
            buffer = io.BufferedWriter(raw, buffering)
        else:
            buffer = io.BufferedReader(raw, buffering)
        result = buffer
        if binary:
            return result
        encoding = 'utf-8' if encoding is None else encoding
        text = io.TextIOWrapper(buffer, encoding, errors, newline, line_buffering)
        result = text
        text.mode = mode
        return result
    except:
        result.close()
        raise


# ---------------------------------------------------------------------- terminal

class SimOut(io.TextIOBase):

    def __init__(self, fd, isatty=False):
        self._fd = fd
        self._tty = isatty
        self._pending = ''

    def fileno(self):
        return self._fd

    def isatty(self):
        return self._tty

    def writable(self):
        return True

    @property
    def encoding(self):
        return 'utf-8'

    def write(self, s):
        self._pending += s
        if '\n' in self._pending or len(self._pending) > 4000:
            self._send(keep=True)
        return len(s)

    def _send(self, keep):
        s = self._pending
        if keep and '\n' in s:
            i = s.rindex('\n') + 1
            s, self._pending = s[:i], s[i:]
        else:
            self._pending = ''
        while s:
            if ACTIVE and R.by_ident.get(real.get_ident()) is not None:
                R.call('out', (self._fd, s[:10000]))
            s = s[10000:]

    def flush(self):
        if self._pending:
            self._send(keep=False)


class SimIn(io.TextIOBase):

    def __init__(self, isatty):
        self._tty = isatty

    def fileno(self):
        return 0

    def isatty(self):
        return self._tty

    def readable(self):
        return True

    @property
    def encoding(self):
        return 'utf-8'

    def readline(self, n=-1):
        s = ask('stdin')
        return '' if s is None else s + '\n'

    def read(self, n=-1):
        out = ''
        while True:
            s = self.readline()
            if not s:
                return out
            out += s

    def __iter__(self):
        return iter(self.readline, '')


def ask(*args):
    """A question to the scenario; blocks while the answer is None. ('none',) is None, ('v', x) is x."""
    while True:
        r = R.call('ask', args)
        if r is None:
            R.block(('ask',), None, f'ask {args[0]}')
            continue
        return None if r[0] == 'none' else r[1]


def note(*args):
    R.call('note', args)


def sim_prompt(self, message='', **kwargs):
    """PromptSession.prompt: the terminal is in raw mode, the line editor is ours."""
    sys.stdout.flush()
    a = ask('prompt', str(getattr(message, 'value', message)))
    if a[0] == 'eof':
        raise EOFError()
    if a[0] == 'int':
        raise KeyboardInterrupt()
    self.history.append_string(a[1])
    return a[1]


# ---------------------------------------------------------------------- pid namespace for psutil

def sim_pids():
    if not ACTIVE:
        return real.pids()
    R.gate('sys', 'pids')
    return R.call('pids')


class SimPsProcess(object):

    def __init__(self, pid=None):
        import psutil
        self.pid = os.getpid() if pid is None else pid
        if ACTIVE and self.pid not in R.call('pids'):
            raise psutil.NoSuchProcess(self.pid)

    def children(self, recursive=False):
        return [SimPsProcess(p) for p in R.call('kids', (self.pid, recursive))] if ACTIVE else []

    def send_signal(self, sig):
        import psutil
        try:
            sim_kill(self.pid, sig)
        except ProcessLookupError:
            raise psutil.NoSuchProcess(self.pid)

    def __getattr__(self, name):
        raise AttributeError(name)


# ---------------------------------------------------------------------- installation

def install():
    os.fork = sim_fork
    os._exit = sim__exit
    os.kill = sim_kill
    os.killpg = sim_killpg
    os.getpid = sim_getpid
    os.getppid = sim_getppid
    os.waitpid = sim_waitpid
    os.setsid = sim_setsid
    os.pipe = sim_pipe
    os.read = sim_read
    os.write = sim_write
    os.close = sim_close
    fcntl.flock = sim_flock
    names = {'stat': 0, 'lstat': 0, 'mkdir': 0, 'rmdir': 0, 'unlink': 0, 'remove': 0, 'rename': 1, 'replace': 1,
             'link': 1, 'symlink': 0, 'chmod': 0, 'utime': 0, 'truncate': 0, 'access': 0, 'chdir': 0}
    for n, two in names.items():
        w = wrap_fs(n, bool(two))
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks, os.supports_effective_ids):
            if getattr(real, n) in s:
                s.add(w)
        setattr(os, n, w)
    for n, f in (('listdir', sim_listdir), ('scandir', sim_scandir), ('open', sim_os_open)):
        for s in (os.supports_dir_fd, os.supports_fd, os.supports_follow_symlinks):
            if getattr(real, n) in s:
                s.add(f)
        setattr(os, n, f)
    import selectors
    import _posixsubprocess
    select.poll = SimPoll
    select.select = sim_select
    selectors.PollSelector._selector_cls = SimPoll
    selectors.DefaultSelector = selectors.PollSelector
    selectors.EpollSelector = selectors.PollSelector
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_monotonic
    time.sleep = sim_sleep
    threading._time = sim_monotonic
    signal.signal = sim_signal
    signal.getsignal = sim_getsignal
    signal.pthread_sigmask = sim_sigmask
    builtins.open = sim_open
    io.open = sim_open
    threading._allocate_lock = make_lock
    threading.Lock = make_lock
    threading._CRLock = None
    threading._start_new_thread = sim_start_new_thread
    real.wait_tstate = threading.Thread._wait_for_tstate_lock
    threading.Thread._wait_for_tstate_lock = sim_wait_tstate
    real.fork_exec = _posixsubprocess.fork_exec
    _posixsubprocess.fork_exec = sim_fork_exec
    import subprocess
    subprocess._fork_exec = sim_fork_exec
    subprocess._USE_VFORK = False
    subprocess._USE_POSIX_SPAWN = False
    import tempfile
    tempfile._RandomNameSequence.rng = property(temp_rng)
    import multiprocessing.resource_tracker as rtk
    rtk.ResourceTracker.ensure_running = lambda self: None
    rtk.ResourceTracker.getfd = lambda self: _tracker_fd()
    rtk.getfd = _tracker_fd
    rtk.ensure_running = lambda: None
    import multiprocessing.synchronize
    import prompt_toolkit
    prompt_toolkit.PromptSession.prompt = sim_prompt
    import psutil
    real.pids = psutil.pids
    psutil.pids = sim_pids
    psutil.pid_exists = lambda pid: pid in sim_pids()
    psutil.Process = SimPsProcess


_tracker = []


def _tracker_fd():
    if not _tracker:
        _tracker.append(real.open('/dev/null', os.O_RDONLY))
    return _tracker[0]


def temp_rng(self):
    import random
    if not hasattr(self, '_simrng'):
        self._simrng = random.Random(R.vpid if ACTIVE else 0)
    return self._simrng


def scan_pid(vpid):
    """Import-time os.getpid() calls ran in the zygote. A fresh interpreter would have seen its own pid."""
    for name, mod in list(sys.modules.items()):
        if name == 'marcel' or name.startswith('marcel.'):
            for k, v in list(vars(mod).items()):
                if type(v) is int and v == ZYGOTE_PID:
                    setattr(mod, k, vpid)
                elif isinstance(v, type) and v.__module__ == name:
                    for ck, cv in list(vars(v).items()):
                        if type(cv) is int and cv == ZYGOTE_PID:
                            setattr(v, ck, vpid)


def exit_hook(args):
    """threading.excepthook: an exception escaped a thread"""
    R.call('note', ('thread_exception', f'{args.exc_type.__name__}: {args.exc_value}',
                    ''.join(traceback.format_tb(args.exc_traceback))[-1500:]))


def start(kernel, vpid, role, fn, env, cwd, argv, disp, isatty, mask=()):
    """Runs in a freshly forked child of the zygote. Never returns."""
    global ACTIVE, R
    import atexit
    import gc
    import random
    import multiprocessing.util
    atexit._clear()
    atexit.register(multiprocessing.util._exit_function)
    gc.disable()
    sock = socket.socket(fileno=RPC_FD)
    R = Runtime(sock, vpid, role, kernel.scratch)
    R.pipe_size = kernel.pipe_size
    R.gated = kernel.gated
    R.trace_prefixes = tuple(kernel.trace_prefixes) if kernel.line_mean else ()
    R.listorder = kernel.listorder
    R.mask = set(mask)
    main = TaskLocal(0)
    R.tasks[0] = main
    R.by_ident[real.get_ident()] = main
    for s, d in disp.items():
        if d == 'ign':
            R.handlers[int(s)] = signal.SIG_IGN
    for s in (signal.SIGINT, signal.SIGTERM, signal.SIGTSTP):
        real.signal(s, signal.SIG_DFL)
    real.signal(signal.SIGCHLD, signal.SIG_IGN)
    os.environ.clear()
    os.environ.update(env or {})
    if cwd:
        os.chdir(cwd)
    import multiprocessing.process
    multiprocessing.process.ORIGINAL_DIR = os.getcwd()
    random.seed(vpid)
    sys.argv = list(argv) if argv else ['marcel']
    sys.stdout = sys.__stdout__ = SimOut(1, isatty)
    sys.stderr = SimOut(2, isatty)
    sys.__stderr__ = sys.stderr
    sys.stdin = sys.__stdin__ = SimIn(isatty)
    m = types.ModuleType('__main__')
    m.__spec__ = None
    sys.modules['__main__'] = m
    threading.excepthook = exit_hook
    scan_pid(vpid)
    ACTIVE = True
    status = 0
    try:
        # Wait to be scheduled for the first time
        R.resume(main)
        if R.trace_prefixes:
            sys.settrace(tracefn)
        fn()
    except SystemExit as e:
        c = e.code
        status = 0 if c is None else c if type(c) is int else 1
        if c is not None and type(c) is not int:
            print(c, file=sys.stderr)
    except KeyboardInterrupt:
        status = 130
        R.call('note', ('uncaught', 'KeyboardInterrupt', ''))
    except BaseException as e:
        status = 1
        R.call('note', ('uncaught', f'{type(e).__name__}: {e}'[:500], traceback.format_exc()[-3000:]))
    finally:
        sys.settrace(None)
    try:
        # As Py_FinalizeEx
        for t in list(threading.enumerate()):
            if t is not threading.main_thread() and not t.daemon and t is not threading.current_thread():
                t.join()
        atexit._run_exitfuncs()
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException as e:
        R.call('note', ('uncaught_exit', f'{type(e).__name__}: {e}'[:500], traceback.format_exc()[-3000:]))
    os._exit(status)
