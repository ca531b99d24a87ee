"""Points where the simulated application reports to (or is driven by) the simulator."""
import functools

from . import kernel as _k

_state = {'stamp': 0}
LISTENERS = []        # objects with on_compute(actor, instance, name)


def reset(stamp=0):
    _state['stamp'] = stamp


def next_stamp():
    _state['stamp'] += 1
    return _state['stamp']


SLOW = {}             # 'Class.field' -> seconds the function takes before it returns
FUNCTIONS = set()     # 'Class.field' of every denormalized field of the simulated application


def computed(fn):
    FUNCTIONS.add(fn.__qualname__)

    @functools.wraps(fn)
    def wrapper(self):
        a = _k.current_actor()
        for l in LISTENERS:
            l.on_compute(a, self, fn.__name__)
        value = fn(self)
        pause = SLOW.get(fn.__qualname__)
        if pause is not None and a is not None:
            a.kernel.probe('slow_functions')
            a.kernel.sleep(a, pause, kind='compute')
        return value
    return wrapper


class SimCache(object):
    """The application's cache: shared by all processes, may lose anything at any time."""

    def __init__(self):
        self.data = {}
        self.gets = self.sets = self.hits = 0

    def clear(self):
        self.data = {}
        self.gets = self.sets = self.hits = 0

    def _op(self, kind, key):
        a = _k.current_actor()
        if a is None:
            return None
        f = a.kernel.yield_op(a, 'cache', key, 'cache-' + kind)
        if f is None:
            return None
        idx = a.ops - 1
        if f == 'crash':
            a.kernel.fault_fired(a, idx, f, 'cache-' + kind)
            a.kernel.crash(a)
        if f in ('cache_evict', 'cache_flush') or (f == 'cache_drop' and kind == 'set'):
            a.kernel.fault_fired(a, idx, f, 'cache-' + kind)
            return f
        return None

    def get(self, key, default=None, version=None):
        f = self._op('get', key)
        if f == 'cache_flush':
            self.data = {}
        if f == 'cache_evict':
            self.data.pop(key, None)
        self.gets += 1
        if key in self.data:
            self.hits += 1
            return self.data[key]
        return default

    def set(self, key, value, timeout=None, version=None):
        f = self._op('set', key)
        if f == 'cache_flush':
            self.data = {}
        if f == 'cache_drop':
            return
        self.sets += 1
        self.data[key] = value

    def add(self, key, value, timeout=None, version=None):
        f = self._op('set', key)
        if f == 'cache_drop':
            return False
        if key in self.data:
            return False
        self.data[key] = value
        return True

    def delete(self, key, version=None):
        self._op('delete', key)
        self.data.pop(key, None)

    def get_or_set(self, key, default, timeout=None, version=None):
        v = self.get(key)
        if v is None:
            v = default() if callable(default) else default
            self.set(key, v, timeout)
        return v

    def __contains__(self, key):
        return self.get(key) is not None


CACHE = SimCache()
