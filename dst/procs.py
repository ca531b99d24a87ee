"""Simulated operating-system processes: fork, signals, exit, working directory and files, for code that turns into a daemon.

No real process is ever forked or signalled on behalf of an actor. A forked process is a new actor that executes the same
program again from its start; everything it asked the operating system before the fork is answered from its parent's
record, so it arrives at the same place, where the fork returns 0. Files are real ones inside a scratch directory that
stands for the root of the file system.
"""
import builtins
import errno
import io
import os
import signal
import sys

from . import kernel as K

_real = {}
PIDS = (300, 340)


class ProcExit(K.SimCrash):
    """os._exit() of a simulated process."""


def current():
    a = K.current_actor()
    return a.data.get('proc') if a is not None else None


def err(no, path=None):
    return OSError(no, os.strerror(no)) if path is None else OSError(no, os.strerror(no), path)


class Proc(object):
    def __init__(self, table, pid, user='me', parent=None):
        self.table = table
        self.pid = pid
        self.user = user
        self.parent = parent
        self.root = parent.root if parent is not None else self
        self.alive = True
        self.actor = None
        self.cwd = parent.cwd if parent is not None else table.home
        self.record = []
        self.replay = list(parent.record) if parent is not None else []
        self.children = 0
        self.atexit = []
        self.fds = set()
        # what it did
        self.forked = self.slept = self.flushed = self.touched_file = self.own_end = self.hit = False
        self.error = None

    def label(self):
        return 'process %d' % self.pid


class Table(object):
    """All processes and the scratch file system of one run."""

    def __init__(self, run, root, home='/srv/app', pids=PIDS):
        self.run = run
        self.k = run.kernel
        self.rootdir = root
        self.home = home
        self.procs = []
        self.by_pid = {}
        self.next = pids[0]
        self.pids = pids
        self.listeners = []
        self.forking = lambda p: None

    # -- processes
    def new_pid(self):
        for _ in range(self.pids[1] - self.pids[0]):
            p = self.next
            self.next = self.next + 1 if self.next + 1 < self.pids[1] else self.pids[0]
            q = self.by_pid.get(p)
            if q is None or not q.alive:
                return p
        raise K.HarnessError('no process ids left')

    def add(self, user='me', parent=None, pid=None):
        p = Proc(self, pid if pid is not None else self.new_pid(), user, parent)
        self.procs.append(p)
        self.by_pid[p.pid] = p
        self.changed()
        return p

    def ended(self, p):
        p.alive = False
        self.changed()

    def changed(self):
        for l in self.listeners:
            l()

    def living(self, pid):
        p = self.by_pid.get(pid)
        return p if p is not None and p.alive else None

    def start(self, name, program, parent=None, role='daemon'):
        """A process running program(proc); a forked one if a parent is given."""
        p = self.add(parent=parent)
        p.program = program
        p.name = name

        def main(actor):
            k = self.k
            actor.data['proc'] = p
            try:
                program(p)
                p.own_end = True
            except K.SimAbort:
                raise
            except ProcExit:
                p.own_end = True
            except K.SimCrash:
                if k.aborting:
                    raise
                p.hit = p.root.hit = True
            except (SystemExit, KeyboardInterrupt):
                p.own_end = True
            except Exception as e:
                if actor.dead or k.aborting:
                    raise
                p.error = e
            finally:
                if not k.aborting:
                    for fn, args, kw in reversed(p.atexit):
                        if p.own_end and not p.exited:
                            fn(*args, **kw)
                    self.ended(p)
        p.exited = False
        p.actor = self.k.spawn(name, main, role=role, background=True)
        return p

    def stamp(self, path, age=0):
        """Files bear simulated times."""
        t = self.run.kernel.clock() - age
        os.utime(path, (t, t))

    def kill(self, p):
        """SIGKILL from outside."""
        if not p.alive:
            return
        a = p.actor
        if a is not None:
            p.hit = True
            if a.state == 'new':
                a.state = 'done'
            elif a.state != 'done':
                a.dead = True
                a.state = 'ready'
        self.ended(p)

    # -- files
    def real(self, path, cwd):
        """The scratch file standing for a path; None for paths outside the simulated part of the file system."""
        path = os.fspath(path)
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if path.startswith(self.rootdir + os.sep):
            return path
        full = os.path.normpath(os.path.join(cwd, path))
        if os.path.isabs(path) and not full.startswith((self.home + os.sep, '/run/')):
            return None
        return self.rootdir + full


# ------------------------------------------------------------------------------------------------ operating system calls
def seam(p, fn, kind=None, sig=None, faults=True):
    """Perform fn() as an operation of a process, or answer from the record if it comes from before the fork."""
    if p.replay:
        ok, v = p.replay.pop(0)
        p.record.append((ok, v))
        if ok:
            return v
        raise v
    if kind is not None:
        a = p.actor
        k = a.kernel
        f = k.yield_op(a, kind, sig, sig)
        idx = a.ops - 1
        if f is not None:
            p.hit = p.root.hit = True
            k.fault_fired(a, idx, f, sig)
            if f == 'crash':
                die(p)
            if f == 'io_error':
                fn = lambda: fail(errno.ENOSPC if 'write' in sig else errno.EIO)
            elif f == 'fork_fail':
                fn = lambda: fail(errno.EAGAIN)
        if f == 'crash_after':
            fn()
            die(p)
    try:
        v = fn()
        p.record.append((True, v))
        return v
    except OSError as e:
        p.record.append((False, e))
        raise


def fail(no):
    raise err(no)


def die(p):
    p.table.ended(p)
    p.actor.kernel.crash(p.actor)


def sim_fork():
    p = current()
    if p is None:
        raise RuntimeError('a process of the simulation that must not fork called fork')
    if p.replay:
        return seam(p, None)

    def fork():
        p.forked = True
        p.table.forking(p)
        p.children += 1
        c = p.table.start('%s.%d' % (p.name, p.children), p.program, parent=p)
        c.replay = list(p.record) + [(True, 0)]
        return c.pid
    return seam(p, fork, 'fork', 'fork')


def sim_exit(code):
    p = current()
    if p is None:
        raise K.SimCrash()
    p.own_end = p.exited = True
    p.table.ended(p)
    a = p.actor
    a.dead = True
    for w in a.wrappers:
        w.sim_kill()
    a.in_tx = False
    a.kernel.tx_ended()
    raise ProcExit()


def sim_kill(pid, sig):
    p = current()
    if not isinstance(pid, int):
        raise TypeError('an integer is required')
    if not -2 ** 31 <= pid < 2 ** 31:
        raise OverflowError('signed integer is greater than maximum')
    if p is None:
        raise err(errno.ESRCH)

    def kill():
        if pid == 0 or pid == -1:
            return None
        if pid < 0:
            raise err(errno.ESRCH)
        q = p.table.living(pid)
        if q is None:
            raise err(errno.ESRCH)
        if q.user != p.user:
            raise err(errno.EPERM)
        if sig != 0 and q is p:
            die(p)
        if sig != 0:
            p.table.kill(q)
    return seam(p, kill, 'proc', 'kill')


def sim_waitpid(pid, options=0):
    import time
    p = current()
    if p is None:
        raise err(errno.ECHILD)
    kids = [q for q in p.table.procs if q.parent is p and pid in (-1, 0, q.pid)]
    if not kids:
        raise err(errno.ECHILD)
    while True:
        for q in kids:
            if not q.alive:
                return q.pid, 0
        if options:
            return 0, 0
        time.sleep(0.01)


def sim_getpid():
    p = current()
    return _real['getpid']() if p is None else seam(p, lambda: p.pid)


def sim_getppid():
    p = current()
    if p is None:
        return _real['getppid']()
    return seam(p, lambda: p.parent.pid if p.parent is not None and p.parent.alive else 1)


def sim_chdir(path):
    p = current()
    p.cwd = os.path.normpath(os.path.join(p.cwd, os.fspath(path)))


class WriteFile(object):
    """A file being written: what is not flushed is lost when the process dies."""

    def __init__(self, p, f):
        self.p = p
        self.f = f
        self.buf = io.StringIO() if 'b' not in f.mode else io.BytesIO()
        self.closed = False
        self.name = f.name
        self.mode = f.mode

    def write(self, s):
        return self.buf.write(s)

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def fileno(self):
        return self.f.fileno()

    def flush(self):
        data = self.buf.getvalue()
        if not data or not self.p.alive:
            return
        self.buf.seek(0)
        self.buf.truncate()

        def put():
            self.f.write(data)
            self.f.flush()
            self.p.table.stamp(self.f.name)
            self.p.table.changed()
        n = len(self.p.record)
        try:
            seam(self.p, put, 'file', 'file write')
        finally:
            del self.p.record[n:]       # a forked process does not write again

    def close(self):
        if self.closed:
            return
        self.closed = True
        try:
            self.flush()
        finally:
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        self.flush()
        return getattr(self.f, name)


class Sink(object):
    """Stands for a file opened for writing before the fork."""

    def __getattr__(self, name):
        return lambda *a, **kw: 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        pass


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    p = current()
    path = p.table.real(file, p.cwd) if p is not None and not isinstance(file, int) else None
    if path is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if set(mode) & set('wax+'):
        if p.replay:
            seam(p, None)
            return Sink()
        p.touched_file = True

        def op():
            new = not os.path.exists(path)
            f = _real['open'](path, mode, encoding=encoding, errors=errors, newline=newline)
            if new or 'w' in mode:
                p.table.stamp(path)
            p.table.changed()
            return None, f
        f = seam(p, op, 'file', 'file open for write')[1]
        p.record[-1] = (True, None)
        return WriteFile(p, f)

    def read():
        with _real['open'](path, 'rb') as f:
            return f.read()
    data = seam(p, read, 'file', 'file read')
    raw = io.BytesIO(data)
    return raw if 'b' in mode else io.TextIOWrapper(raw, encoding=encoding or 'utf8', errors=errors, newline=newline)


def _mapped(name, nargs, writes):
    real = _real[name] = getattr(os, name)

    def fn(*args, **kw):
        p = current()
        if p is None or any(isinstance(x, int) for x in args[:nargs]):
            return real(*args, **kw)
        paths = [p.table.real(x, p.cwd) for x in args[:nargs]]
        if None in paths:
            if writes:
                raise err(errno.EACCES, args[0])
            return real(*args, **kw)
        if name == 'open' and not p.replay:
            w = bool(args[1] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        else:
            w = writes
        if w:
            p.touched_file = True

        def op():
            try:
                return real(*paths, *args[nargs:], **kw)
            finally:
                if w:
                    p.table.changed()
        return seam(p, op, 'file', 'file %s%s' % (name, ' write' if w else ''))
    setattr(os, name, fn)


def _own(name, replacement):
    """Replace a function for simulated processes only."""
    real = _real[name] = getattr(os, name)

    def fn(*args, **kw):
        if current() is None:
            return real(*args, **kw)
        return replacement(*args, **kw)
    setattr(os, name, fn)


def _actors_only(name, replacement):
    """Replace a function for every actor: the real one must not be called during a run."""
    real = _real[name] = getattr(os, name)

    def fn(*args, **kw):
        if K.current_actor() is None:
            return real(*args, **kw)
        return replacement(*args, **kw)
    setattr(os, name, fn)


def install():
    if _real:
        return
    for name, n, w in (('stat', 1, False), ('lstat', 1, False), ('access', 1, False), ('unlink', 1, True), ('remove', 1, True),
                       ('rename', 2, True), ('replace', 2, True), ('link', 2, True), ('mkdir', 1, True), ('rmdir', 1, True),
                       ('chmod', 1, True), ('open', 1, True)):
        _mapped(name, n, w)
    _real['osopen'] = _real['open']
    _real['open'] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    _actors_only('fork', sim_fork)
    _actors_only('_exit', sim_exit)
    _actors_only('kill', sim_kill)
    _actors_only('killpg', lambda pg, sig: fail(errno.ESRCH))
    _actors_only('waitpid', sim_waitpid)
    _actors_only('setsid', lambda: None)
    _actors_only('setpgrp', lambda: None)
    _actors_only('dup2', lambda a, b, inheritable=True: b)
    _actors_only('ttyname', lambda fd: fail(errno.ENOTTY))
    _actors_only('umask', lambda m: 0o22)
    _own('getpid', sim_getpid)
    _own('getppid', sim_getppid)
    _own('getcwd', lambda: current().cwd)
    _actors_only('chdir', lambda path: sim_chdir(path) if current() is not None else None)
    real_signal = signal.signal
    signal.signal = lambda s, h: signal.SIG_DFL if K.current_actor() is not None else real_signal(s, h)
    import atexit
    real_atexit = atexit.register

    def register(fn, *args, **kw):
        p = current()
        if p is None:
            return real_atexit(fn, *args, **kw)
        if not p.replay:
            p.atexit.append((fn, args, kw))
        return fn
    atexit.register = register
