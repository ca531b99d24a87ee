"""The simulation kernel: actors, scheduler, simulated time, faults, event log.

Actors are real threads, but exactly one of them runs at any time: an actor hands control back to the
kernel at every intercepted operation (database statement, commit, connect, sleep, cache access, file access)
and is parked until the scheduler grants it that operation.
"""
import _thread
import hashlib
import random
import re
import threading
import time as _time

real_monotonic = _time.monotonic
real_sleep = _time.sleep

_tls = threading.local()


def current_actor():
    return getattr(_tls, 'actor', None)


class SimCrash(BaseException):
    """The simulated process dies. Nothing may catch it but the simulated operating system."""


class SimAbort(SimCrash):
    """End of the run: parked actors are unwound."""


class StepLimit(Exception):
    """The run needed more steps than allowed."""


class HarnessError(Exception):
    """Something is wrong with the simulation itself."""


_SIG_CACHE = {}
_SIG_RE = re.compile(r'\b(?:FROM|INTO|UPDATE|TABLE|ON|TRIGGER)\s+["`]?(\w+)', re.I)
_NORM_RE = re.compile(r'\b(s\d+_x\d+|_django_curs_\d+_\d+)\b')


def signature(sql):
    """A short, stable description of a statement: verb and table."""
    s = _SIG_CACHE.get(sql)
    if s is None:
        verb = sql.split(None, 1)[0].upper() if sql.strip() else ''
        m = _SIG_RE.search(sql)
        t = m.group(1) if m else ''
        if verb in ('SAVEPOINT', 'RELEASE', 'ROLLBACK'):
            t = ''
        if verb == 'SELECT' and 'FOR UPDATE' in sql:
            verb = 'SELECT-FOR-UPDATE'
        s = ('%s %s' % (verb, t)).strip()
        if len(_SIG_CACHE) > 20000:
            _SIG_CACHE.clear()
        _SIG_CACHE[sql] = s
    return s


def normalise(text):
    return _NORM_RE.sub('SP', text)


class Op(object):
    __slots__ = ('kind', 'label', 'sig', 'idx', 'meta', 'stalled')

    def __init__(self, kind, label, sig, meta=None):
        self.kind = kind
        self.label = label
        self.sig = sig
        self.meta = meta
        self.idx = -1
        self.stalled = False


class PoolThread(threading.Thread):
    def __init__(self):
        super().__init__(daemon=True)
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.job = None
        self.start()

    def run(self):
        while True:
            self.lock.acquire()
            job = self.job
            if job is None:
                return
            self.job = None
            try:
                job()
            finally:
                job = None


_pool = []
PROCESS_START = []      # called in the actor's thread when its (simulated) process starts


def _get_thread():
    return _pool.pop() if _pool else PoolThread()


class Actor(object):
    def __init__(self, kernel, name, fn, role, index, faults_ok=True, background=False):
        self.kernel = kernel
        self.name = name
        self.fn = fn
        self.role = role              # 'client', 'flusher', 'daemon', ...
        self.index = index
        self.faults_ok = faults_ok
        self.background = background  # does not keep the run going
        self.state = 'new'            # new ready blocked sleeping done
        self.pending = None
        self.steps = 0                # grants
        self.ops = 0                  # intercepted operations (lock retries not counted)
        self.wake_at = 0.0
        self.block_epoch = -1
        self.block_deadline = None
        self.blocked_since = None
        self.victim = False
        self.dead = False
        self.fault = None
        self.outcome = None
        self.exc = None
        self.wrappers = []
        self.interrupts = 0
        self.pid = None
        self.data = {}
        self.thread = None
        self.in_tx = False
        self.family = [self]          # the threads of one process

    def _main(self):
        _tls.actor = self
        try:
            try:
                for hook in PROCESS_START:
                    hook()
                self.fn(self)
                self.outcome = 'ok'
            except SimCrash:
                self.outcome = 'crashed'
            except BaseException as e:
                if self.dead:
                    self.outcome = 'crashed'
                else:
                    self.outcome = 'error'
                    self.exc = e
        finally:
            try:
                self.kernel.reap(self)
            except BaseException as e:
                self.kernel.harness_errors.append(e)
            self.state = 'done'
            _tls.actor = None
            t = self.thread
            self.thread = None
            _pool.append(t)
            self.kernel.klock.release()


class Kernel(object):
    """One simulation run."""

    def __init__(self, seed, strategy=None, decisions=None, faults=None, fault_plan=None, max_steps=20000,
                 keep_trace=False, victim_salt=0):
        self.seed = seed
        self.klock = _thread.allocate_lock()
        self.klock.acquire()
        self.actors = []
        self.cur = None
        self.now = 0.0
        self.step_cost = 0.001
        self.nsteps = 0
        self.max_steps = max_steps
        self.epoch = 0
        self.strategy = strategy
        self.replay_decisions = None if decisions is None else {(d[0], d[1]): d[2] for d in decisions}
        self.decisions = []           # recorded, non-default ones
        self.explicit_faults = faults  # {"actor:op": kind} or None
        self.fault_plan = fault_plan   # FaultPlan or None
        self.fired = []               # [(key, kind, sig)]
        self.fired_counts = {}
        self.faults_on = True
        self.victim_salt = victim_salt
        self.hash = hashlib.blake2b(digest_size=12)
        self.shape = hashlib.blake2b(digest_size=12)
        self.trace = [] if keep_trace else None
        self.monitors = []
        self.harness_errors = []
        self.deadlocks = 0
        self.lock_waits = 0
        self.switches = 0
        self.idle_blocks = []         # (blocked actor, sleeping actors, time)
        self.watched = {}
        self.aborting = False
        self.probes = {}
        self.notes = []
        self.ddl_mode = False
        self.violations = []          # [(kind, message)]
        self.stop_on_violation = True

    # -- bookkeeping ---------------------------------------------------------------------------------------
    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def violation(self, kind, message):
        self.violations.append((kind, message))
        self.log(None, 'VIOLATION', '%s %s' % (kind, message))

    def log(self, actor, what, detail=''):
        name = actor.name if actor is not None else '-'
        self.hash.update(('%d|%s|%s|%s\n' % (self.nsteps, name, what, detail)).encode('utf8', 'replace'))
        if self.trace is not None:
            self.trace.append('%5d t=%.3f %-10s %s %s' % (self.nsteps, self.now, name, what, detail))

    def spawn(self, name, fn, role='client', faults_ok=True, background=False):
        a = Actor(self, name, fn, role, len(self.actors), faults_ok, background)
        self.actors.append(a)
        return a

    def watch_ops(self, name, out):
        """Note every granted operation of an actor as [index, kind, signature]."""
        self.watched[name] = out

    def open_tx_others(self, actor):
        for a in self.actors:
            if a is not actor and a.in_tx:
                return True
        return False

    # -- called from actor threads ----------------------------------------------------------------------------
    def _switch(self, a):
        self.klock.release()
        a.thread.lock.acquire()
        if self.aborting or a.dead:
            a.dead = True
            raise SimAbort() if self.aborting else SimCrash()

    def yield_op(self, a, kind, label, sig=None, meta=None):
        """Park until the scheduler grants this operation; returns the fault to apply, if any."""
        if a.dead:
            raise SimCrash()
        a.pending = Op(kind, label, sig if sig is not None else kind, meta)
        a.state = 'ready'
        self._switch(a)
        f, a.fault = a.fault, None
        return f

    def block(self, a, timeout):
        """The granted operation hit a lock held by another transaction: wait for some transaction to end.
        Returns True to retry, False when the operation must fail (deadlock victim or timeout)."""
        self.lock_waits += 1
        a.state = 'blocked'
        a.block_epoch = self.epoch
        if a.blocked_since is None:
            a.blocked_since = self.now
            a.block_deadline = None if timeout is None else self.now + timeout
        self.log(a, 'blocked')
        self._switch(a)
        if a.victim:
            a.victim = False
            a.blocked_since = None
            return False
        return True

    def unblocked(self, a):
        if a.blocked_since is not None:
            a.blocked_since = None
            a.block_deadline = None

    def tx_ended(self):
        self.epoch += 1

    def sleep(self, a, seconds, label='sleep', kind='sleep'):
        f = None
        if a.dead:
            raise SimCrash()
        a.pending = Op(kind, label, kind)
        a.state = 'sleeping'
        a.wake_at = self.now + max(0.0, seconds)
        self._switch(a)
        f, a.fault = a.fault, None
        return f

    def crash(self, a):
        """The process of this actor dies now: its connections vanish, uncommitted work is rolled back."""
        for b in a.family:
            b.dead = True
            for w in b.wrappers:
                w.sim_kill()
            b.in_tx = False
            if b is not a and b.state == 'sleeping':
                b.state = 'ready'
        self.tx_ended()
        raise SimCrash()

    def reap(self, a):
        for w in a.wrappers:
            w.sim_kill()
        a.wrappers = []
        a.in_tx = False
        self.tx_ended()

    def restart(self, a):
        """A supervisor starts the process again (same actor, fresh memory as far as connections go)."""
        if self.aborting:
            raise SimAbort()
        self.reap(a)
        a.dead = False
        a.family = [a]
        for hook in PROCESS_START:
            hook()

    # -- the scheduler ------------------------------------------------------------------------------------------
    def _runnable(self, a):
        st = a.state
        if st == 'ready' or st == 'new':
            return True
        if st == 'sleeping':
            return a.wake_at <= self.now
        if st == 'blocked':
            return self.epoch > a.block_epoch or a.victim
        return False

    def _advance(self):
        """Nothing can run right now. Move time, or break a deadlock. Returns False when all is over."""
        live = [a for a in self.actors if a.state != 'done']
        if not live:
            return False
        sleepers = [a for a in live if a.state == 'sleeping']
        blocked = [a for a in live if a.state == 'blocked']
        if blocked and sleepers:
            idle = [s for s in sleepers if s.in_tx and s.pending.kind == 'sleep']       # not those that are stalled
            self.idle_blocks.append(([b.name for b in blocked], [s.name for s in idle], self.now, [s.role for s in idle]))
        times = [s.wake_at for s in sleepers] + [b.block_deadline for b in blocked
                                                if b.block_deadline is not None and sleepers]
        endless = [b for b in blocked if b.block_deadline is None]
        if endless and sleepers and not any(s.in_tx for s in sleepers):
            # those that sleep hold no locks, so the blocked ones block each other: the server finds out after a second
            t = min(b.blocked_since for b in endless) + 1.0
            if t <= min(times):
                self.now = max(self.now, t)
                self._break_deadlock(endless)
                return True
        if times:
            t = min(times)
            if t > self.now:
                self.now = t
            for b in blocked:
                if b.block_deadline is not None and b.block_deadline <= self.now:
                    b.victim = True
                    self.log(b, 'lock-timeout')
            return True
        if blocked:
            self._break_deadlock(blocked)
            return True
        return False

    def _break_deadlock(self, blocked):
        self.deadlocks += 1
        h = hashlib.blake2b(('%s|%s|%s' % (self.victim_salt, self.deadlocks,
                            ','.join(b.name for b in blocked))).encode(), digest_size=4).digest()
        v = blocked[int.from_bytes(h, 'big') % len(blocked)]
        v.victim = True
        self.log(v, 'deadlock-victim')

    def _choose(self, cands):
        cur = self.cur
        default = cur if cur in cands else cands[0]
        if len(cands) == 1 and self.replay_decisions is None:
            return cands[0]
        key = (cur.name, cur.steps) if cur is not None else ('', 0)
        if self.replay_decisions is not None:
            want = self.replay_decisions.get(key)
            if want is not None:
                for c in cands:
                    if c.name == want:
                        if c is not default:
                            self.decisions.append([key[0], key[1], want])
                        return c
            return default
        c = self.strategy.pick(self, cands, cur, default) if self.strategy is not None else default
        if c is not default:
            self.decisions.append([key[0], key[1], c.name])
        return c

    def _fault_for(self, a, op):
        """Which fault hits this operation?"""
        if not self.faults_on or not a.faults_ok or a.dead:
            return None
        key = '%s:%d' % (a.name, op.idx)
        if self.explicit_faults is not None:
            return self.explicit_faults.get(key)
        if self.fault_plan is not None:
            return self.fault_plan.choose(self, a, op)
        return None

    def fault_fired(self, a, op_idx, kind, sig):
        self.fired.append(['%s:%d' % (a.name, op_idx), kind, sig])
        self.fired_counts[kind] = self.fired_counts.get(kind, 0) + 1
        self.log(a, 'FAULT', kind)

    def run(self, until=None, max_time=None):
        """Run until every foreground actor is done (or `until()` is true)."""
        while True:
            if self.harness_errors:
                raise HarnessError(repr(self.harness_errors[0])) from self.harness_errors[0]
            if self.violations and self.stop_on_violation:
                return
            if until is not None:
                if until():
                    return
            elif all(a.state == 'done' for a in self.actors if not a.background):
                return
            if max_time is not None and self.now >= max_time:
                return
            cands = [a for a in self.actors if self._runnable(a)]
            if not cands:
                if not self._advance():
                    return
                continue
            if self.nsteps >= self.max_steps:
                raise StepLimit('more than %d steps' % self.max_steps)
            a = self._choose(cands)
            self._grant(a)

    def _grant(self, a):
        self.nsteps += 1
        self.now += self.step_cost
        if self.cur is not a:
            if self.cur is not None and self.cur.state != 'done':
                self.switches += 1
            self.cur = a
        a.steps += 1
        if a.state == 'new':
            a.thread = t = _get_thread()
            a.state = 'running'
            t.job = a._main
            t.lock.release()
            self.klock.acquire()
            return
        op = a.pending
        if a.state != 'blocked':
            op.idx = a.ops
            a.ops += 1
            a.fault = None if op.stalled else self._fault_for(a, op)
            self.log(a, op.kind, op.sig)
            if a.name in self.watched:
                self.watched[a.name].append([op.idx, op.kind, op.sig])
            self.shape.update(('%s|%s\n' % (a.name, op.sig)).encode())
            if a.fault == 'stall':
                a.fault = None
                self.fault_fired(a, op.idx, 'stall', op.sig)
                a.state = 'sleeping'
                a.ops -= 1
                a.wake_at = self.now + self.stall_length(a)
                op.stalled = True       # the operation itself is granted later
                return
            if a.fault == 'clock_jump':
                a.fault = None
                self.fault_fired(a, op.idx, 'clock_jump', op.sig)
                a.data['clock'] = a.data.get('clock', 0.0) + self.jump(a)
        a.state = 'running'
        a.thread.lock.release()
        self.klock.acquire()

    def clock(self, a=None):
        """The wall clock of a process. It may be off, and be set while the process runs."""
        return 1500000000.0 + self.now + (a.data.get('clock', 0.0) if a is not None else 0.0)

    def jump(self, a):
        return (-7200.0, -30.0, 30.0, 90000.0)[(a.ops + self.victim_salt) % 4]

    def stall_length(self, a):
        return (0.05, 0.5, 3.0, 20.0)[(a.ops + self.victim_salt) % 4]

    def shutdown(self):
        """Unwind whatever is still parked."""
        self.aborting = True
        for a in self.actors:
            n = 0
            while a.state != 'done':
                if a.state == 'new':
                    a.state = 'done'
                    break
                a.state = 'running'
                a.thread.lock.release()
                self.klock.acquire()
                n += 1
                if n > 1000:
                    raise HarnessError('actor %s does not unwind' % a.name)

    def digest(self):
        return self.hash.hexdigest()


# -- strategies ---------------------------------------------------------------------------------------------------
class RandomWalk(object):
    """Switch to a random other runnable actor with probability p at each operation."""
    name = 'walk'

    def __init__(self, rng, p):
        self.rng = rng
        self.p = p

    def pick(self, k, cands, cur, default):
        if default is cur:
            if self.rng.random() >= self.p:
                return cur
        return cands[self.rng.randrange(len(cands))]


class Hot(object):
    """Switch mostly around interesting operations: commits and statements on the table of pending work, row locks."""
    name = 'hot'

    def __init__(self, rng, p_hot, p_cold, hot):
        self.rng = rng
        self.p_hot = p_hot
        self.p_cold = p_cold
        self.hot = hot

    def pick(self, k, cands, cur, default):
        if default is cur:
            op = cur.pending
            p = self.p_hot if (op is not None and self.hot(op)) else self.p_cold
            if self.rng.random() >= p:
                return cur
        return cands[self.rng.randrange(len(cands))]


class Priorities(object):
    """PCT-like: random priorities, changed at a few random points."""
    name = 'pct'

    def __init__(self, rng, depth, horizon):
        self.rng = rng
        self.prio = {}
        self.points = set(rng.randrange(1, horizon) for _ in range(depth))
        self.low = 0

    def pick(self, k, cands, cur, default):
        for c in cands:
            if c.name not in self.prio:
                self.prio[c.name] = self.rng.random() + 1
        if k.nsteps in self.points and cur is not None:
            self.low -= 1
            self.prio[cur.name] = self.low
        return max(cands, key=lambda c: (self.prio[c.name], -c.index))


def make_strategy(rng, horizon=200):
    r = rng.random()
    if r < 0.35:
        return RandomWalk(rng, rng.choice([0.05, 0.15, 0.3, 0.5, 0.8]))
    if r < 0.7:
        def hot(op):
            return op.kind in ('commit', 'rollback', 'sleep') or 'dirtyinstance' in op.sig or op.sig.startswith('SELECT-FOR')
        return Hot(rng, rng.choice([0.3, 0.6, 0.9]), rng.choice([0.0, 0.05, 0.15]), hot)
    return Priorities(rng, rng.choice([1, 2, 3, 5, 8]), horizon)


class FaultPlan(object):
    """Draws faults for the operations of a run. `weights` maps fault kinds to relative weights; a run only gets
    the kinds selected for it (swarm), at a rate chosen so that most runs make progress."""

    def __init__(self, rng, rate, kinds, max_faults=6, only=None):
        self.rng = rng
        self.rate = rate
        self.kinds = kinds              # {op kind: [fault kinds]}
        self.left = max_faults
        self.only = only                # predicate(actor, op)

    def choose(self, k, a, op):
        if self.left <= 0:
            return None
        if self.only is not None and not self.only(a, op):
            return None
        ks = self.kinds.get(op.kind)
        if not ks:
            return None
        if self.rng.random() >= self.rate:
            return None
        self.left -= 1
        return ks[self.rng.randrange(len(ks))]
