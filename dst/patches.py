"""Process-wide patches that put remaining nondeterminism behind the simulator. Only actor threads are affected."""
import copyreg
import datetime
import os
import queue
import random
import select
import sys
import threading
import time
import uuid

from . import kernel as K, procs

_real = {}


def install():
    if _real:
        return
    for n in ('sleep', 'time', 'time_ns', 'monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns'):
        _real[n] = getattr(time, n)
    _real['wait'] = threading.Event.wait
    _real['select'] = select.select

    def sim_sleep(seconds):
        a = K.current_actor()
        if a is None:
            return _real['sleep'](seconds)
        k = a.kernel
        extra = a.data.get('jitter')
        if extra:
            seconds = seconds * extra
        for m in k.monitors:
            m.on_sleep(k, a)
        f = k.sleep(a, seconds)
        if f is not None:
            idx = a.ops - 1
            if f == 'crash':
                k.fault_fired(a, idx, 'crash', 'sleep')
                k.crash(a)
            elif f == 'interrupt':
                k.fault_fired(a, idx, f, 'sleep')
                raise KeyboardInterrupt()

    def sim_time():
        a = K.current_actor()
        if a is None:
            return _real['time']()
        return a.kernel.clock(a)

    def sim_ns():
        a = K.current_actor()
        return int(sim_time() * 1e9) if a is not None else _real['time_ns']()

    def steady(name):
        real = _real[name]

        def fn():
            a = K.current_actor()
            if a is None:
                return real()
            return int(a.kernel.now * 1e9) if name.endswith('_ns') else a.kernel.now
        return fn

    def sim_wait(self, timeout=None):
        if K.current_actor() is None or timeout is None:
            return _real['wait'](self, timeout)
        if not self.is_set():
            sim_sleep(timeout)
        return self.is_set()

    def sim_select(r, w, x, timeout=None):
        if K.current_actor() is None or timeout is None or r or w or x:
            return _real['select'](r, w, x, timeout)
        sim_sleep(timeout)
        return [], [], []

    time.sleep = sim_sleep
    time.time = sim_time
    time.time_ns = sim_ns
    for n in ('monotonic', 'monotonic_ns', 'perf_counter', 'perf_counter_ns'):
        setattr(time, n, steady(n))
    threading.Event.wait = sim_wait
    install_threads(sim_sleep)
    install_urandom()
    select.select = sim_select
    K.PROCESS_START.append(fresh_connections)
    procs.install()


def install_datetime():
    """now() and today() tell the simulated time; everything else is the real thing.
    To be called when all modules are loaded: drivers look up converters by the real classes."""
    for name, methods in (('datetime', ('now', 'utcnow', 'today')), ('date', ('today',))):
        real = getattr(datetime, name)

        class Meta(type):
            def __instancecheck__(cls, x, real=real):
                return isinstance(x, real) if '_sim' in cls.__dict__ else type.__instancecheck__(cls, x)

            def __subclasscheck__(cls, c, real=real):
                return issubclass(c, real) if '_sim' in cls.__dict__ else type.__subclasscheck__(cls, c)

        def new(cls, *args, real=real, **kwargs):
            return real(*args, **kwargs) if '_sim' in cls.__dict__ else real.__new__(cls, *args, **kwargs)
        ns = {'_sim': True, '__new__': new, '__module__': 'datetime'}
        for m in methods:
            def fn(cls, tz=None, m=m, real=real):
                if K.current_actor() is None:
                    return getattr(real, m)(tz) if tz is not None else getattr(real, m)()
                if m == 'utcnow':
                    return real.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)
                return real.fromtimestamp(time.time(), tz) if tz is not None else real.fromtimestamp(time.time())
            ns[m] = classmethod(fn)
        sim = Meta(name, (real,), ns)
        setattr(datetime, name, sim)
        for m in [m for n, m in sorted(sys.modules.items()) if n == 'django.utils.timezone' or n.split('.')[0] == 'denorm']:
            for k, v in list(vars(m).items()):
                if v is real:
                    setattr(m, k, sim)
        copyreg.pickle(real, lambda x, name=name: (getattr(datetime, name), x.__reduce_ex__(2)[1]))


def install_urandom():
    """The operating system's random source, for actors: the seeded generator (uuid4, secrets and SystemRandom use it too)."""
    real = os.urandom

    def urandom(n):
        if K.current_actor() is None or not n:
            return real(n)
        return random.getrandbits(8 * n).to_bytes(n, 'little')
    os.urandom = random._urandom = urandom
    uuid._generate_time_safe = None


def install_threads(sim_sleep):
    """A thread started by an actor becomes an actor too: it belongs to the same simulated process and dies with it."""
    T, C = threading.Thread, threading.Condition
    for n in ('start', 'join', 'is_alive'):
        _real['thread.' + n] = getattr(T, n)
    _real['condition.wait'] = C.wait

    def sim_start(self):
        a = K.current_actor()
        if a is None or isinstance(self, K.PoolThread):
            return _real['thread.start'](self)
        k = a.kernel
        a.data['threads'] = n = a.data.get('threads', 0) + 1

        def main(actor):
            actor.data.update((x, a.data[x]) for x in ('clock', 'proc') if x in a.data)
            self._started.set()
            try:
                self.run()
            except Exception as e:      # ends the thread, nothing else
                k.log(actor, 'thread died', '%s' % type(e).__name__)
                k.probe('threads_died')
        self._sim = k.spawn('%s.t%d' % (a.name, n), main, role=a.role, faults_ok=a.faults_ok, background=a.background or self.daemon)
        a.family.append(self._sim)
        self._sim.family = a.family
        k.probe('threads_started')

    def poll(done, timeout):
        k = K.current_actor().kernel
        end, step = None if timeout is None else k.now + timeout, 0.01
        while not done() and (end is None or k.now < end):
            sim_sleep(step if end is None else max(0.0, min(step, end - k.now)))
            step = min(step * 2, 1.0)

    def sim_join(self, timeout=None):
        s = getattr(self, '_sim', None)
        if s is None:
            return _real['thread.join'](self, timeout)
        if K.current_actor() is not None:
            poll(lambda: s.state == 'done', timeout)

    def sim_alive(self):
        s = getattr(self, '_sim', None)
        return s.state != 'done' if s is not None else _real['thread.is_alive'](self)

    def sim_cond_wait(self, timeout=None):
        if K.current_actor() is None:
            return _real['condition.wait'](self, timeout)
        waiter = threading.Lock()
        waiter.acquire()
        self._waiters.append(waiter)
        saved = self._release_save()
        try:
            got = []
            poll(lambda: got or (waiter.acquire(False) and not got.append(1)), timeout)
            if not got:
                try:
                    self._waiters.remove(waiter)
                except ValueError:
                    pass
            return bool(got)
        finally:
            self._acquire_restore(saved)

    T.start, T.join, T.is_alive, C.wait = sim_start, sim_join, sim_alive, sim_cond_wait
    queue.SimpleQueue = queue._PySimpleQueue


def fresh_connections():
    """Forget this thread's Django connections: the actor starts with a process of its own."""
    from django.db import connections
    for alias in list(connections.databases):
        try:
            delattr(connections._connections, alias)
        except AttributeError:
            pass
