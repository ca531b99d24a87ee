"""Executes one run: a specification (plain data) in a world, optionally with an explicit schedule and explicit faults."""
import hashlib
import os
import random
import traceback

from . import kernel as K
from . import monitors, simhooks, workload, zones

REPO = os.path.realpath(os.environ.get('DST_REPO', '/repo')) + os.sep


def in_repo(e):
    """Does the traceback of an exception pass through the code under test?"""
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        for f in traceback.extract_tb(e.__traceback__):
            if os.path.realpath(f.filename).startswith(REPO):
                return True
        e = e.__cause__ or e.__context__
    return False


def in_orm(e):
    """Did saving or deleting an instance fail inside Django, outside of the simulator?"""
    files = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    return (any(f.endswith('django/db/models/base.py') for f in files) and not files[-1].startswith(os.path.dirname(__file__)))


def where(e):
    last = ''
    for f in traceback.extract_tb(e.__traceback__):
        if os.path.realpath(f.filename).startswith(REPO):
            last = '%s:%s' % (os.path.relpath(os.path.realpath(f.filename), REPO), f.name)
    return last


class Run(object):
    def __init__(self, world, spec, scenario, decisions=None, faults=None, trace=False):
        self.world = world
        self.spec = spec
        self.scenario = scenario
        self.zone = spec['zone']
        self.seed = spec['seed']
        self.decisions = decisions
        self.faults = faults
        self.trace = trace
        self.readers = []
        self.errors = []        # (actor, exception class, where)
        self.single = len(spec.get('actors', ())) == 1
        self.strict = spec.get('strict', False)     # nothing but integrity errors is acceptable

    # -- building blocks for scenarios
    def error(self, actor, e, what):
        """A database error reached the caller of the library (or of the ORM)."""
        from django.db import DatabaseError, IntegrityError, OperationalError, InterfaceError, InternalError
        self.errors.append((actor.name, type(e).__name__, what))
        if isinstance(e, IntegrityError) and what == 'request':
            return
        if not self.strict and (isinstance(e, (IntegrityError, OperationalError, InterfaceError, InternalError)) or '(simulated)' in str(e)):
            return
        if not self.strict and what == 'request' and type(e) is DatabaseError and 'did not affect any rows' in str(e):
            return      # a partial save of a row somebody else has deleted
        self.kernel.violation('bad-error', '%s of %s failed with %s: %s' % (
            what, actor.name, type(e).__name__, str(e).strip().split('\n')[0][:200]))

    def flush_function(self):
        """One of the equivalent ways to flush."""
        import denorm
        from denorm import denorms
        from django.core.management import call_command
        how = self.spec.get('flush')
        if how == 'verbose':
            return lambda: denorms.flush(verbose=True)
        if how == 'command':
            return lambda: call_command('denorm_flush')
        return denorms.flush if how == 'module' else denorm.flush

    def flush(self, actor, fn=None):
        """Call the library's flush; True if it completed. Ordinary database errors may end it early."""
        from django.db import Error, connection
        k = self.kernel
        depth = actor.data.get('flushing', 0)
        actor.data['flushing'] = depth + 1
        try:
            (fn or self.flush_function())()
            k.probe('flush_ok')
            return True
        except Error as e:
            k.log(actor, 'flush-error', type(e).__name__)
            k.probe('flush_error')
            connection.close_if_unusable_or_obsolete()
            self.error(actor, e, 'flush')
            return False
        finally:
            actor.data['flushing'] = depth

    def guarded(self, fn):
        """An actor's main function: crashes restart it where it left off, anything unexpected is classified."""
        def main(actor):
            k = self.kernel
            state = {}
            n = 0
            while True:
                try:
                    fn(actor, state)
                    return
                except K.SimAbort:
                    raise
                except K.SimCrash:
                    if k.aborting:
                        raise
                    n += 1
                    k.probe('restarts')
                    actor.data.pop('saved', None)
                    actor.data['flushing'] = 0
                    actor.data['comp'] = {}
                    actor.data['tx'] = None
                    k.restart(actor)
                    state['crashed'] = n
                    delay = self.spec.get('restart_delay', 0.0)
                    if delay:
                        k.sleep(actor, delay)
                except Exception as e:
                    if actor.dead or k.aborting:
                        raise
                    self.unexpected(actor, e)
                    return
        return main

    def unexpected(self, actor, e):
        if in_repo(e) or in_orm(e):
            self.kernel.violation('internal-error', '%s in %s raised in %s: %s' % (
                type(e).__name__, where(e), actor.role, str(e).strip().split('\n')[0][:200]))
        else:
            self.kernel.harness_errors.append(e)

    def add_client(self, name, script, role='client', after=None, **kw):
        def fn(actor, state):
            state.setdefault('i', 0)
            c = workload.Client(self, actor)
            c.listener = kw.get('listener')
            while state['i'] < len(script):
                req = script[state['i']]
                state['i'] += 1
                n = actor.data.get('commits', 0)
                self.scenario.before_request(self, actor, req)
                res = c.request(req)
                self.scenario.after_request(self, actor, req, res, actor.data.get('commits', 0) - n)
                if after is not None:
                    after(actor, req, res)
        return self.kernel.spawn(name, self.guarded(fn), role=role)

    def add_flusher(self, name, times, gap=0.0, role='flusher', fn=None):
        """A process that flushes a number of times; a failed or crashed flush counts as one."""
        def main(actor, state):
            import time
            state.setdefault('i', 0)
            while state['i'] < times:
                state['i'] += 1
                if gap:
                    time.sleep(gap)
                self.flush(actor, fn)
        return self.kernel.spawn(name, self.guarded(main), role=role)

    def settle(self, name='final', fn=None, max_steps=6000, quiet=True):
        """Faults stop; one process flushes. Returns the number of recalculations it did."""
        k = self.kernel
        if k.violations:
            return None
        k.faults_on = False
        k.strategy = None
        k.replay_decisions = k.replay_decisions if k.replay_decisions is None else {}
        if self.spec.get('crowd'):
            max_steps *= 5
        k.max_steps = k.nsteps + max_steps
        n = self.tracker.ncomputes
        ok = []

        def main(actor, state):
            ok.append(self.flush(actor, fn))
        k.spawn(name, self.guarded(main), role='flusher')
        self.strict, was = True, self.strict
        try:
            k.run()
        except K.StepLimit:
            k.violation('no-termination', 'a flush on data nobody else changes did not end within %d operations' % max_steps)
            return None
        finally:
            self.strict = was
        return self.tracker.ncomputes - n

    def check_settled(self, kinds=None, nothing_pending=True):
        k = self.kernel
        if k.violations:
            return
        snap = self.world.snapshot(self.zone)
        if nothing_pending:
            marks = self.world.marks()
            if marks:
                k.violation('pending-left', 'still pending after a completed flush: %s' % (
                    ', '.join('%s %s' % (m, o) for i, m, o in marks[:5])))
                return
        d = zones.diff(self.world, self.zone, snap, kinds)
        k.probe('final_states_checked')
        if d:
            k.violation('mismatch', '; '.join(fmt(x) for x in d[:4]))

    # -- the run
    def execute(self):
        w, spec = self.world, self.spec
        self.scenario.before_reset(self)
        snap = w.reset(self.zone, spec.get('variant', 0), self.seed)
        rng = random.Random('sched|%s' % self.seed)
        strategy = None
        if self.decisions is None and spec.get('strategy'):
            strategy = K.make_strategy(rng, spec['strategy'].get('horizon', 200))
        plan = None
        if self.faults is None and spec.get('explicit_faults') is not None:
            self.faults = spec['explicit_faults']
        f = spec.get('faults')
        if self.faults is None and f:
            plan = K.FaultPlan(random.Random('faults|%s' % self.seed), f['rate'], f['kinds'], f.get('max', 6),
                               only=self.scenario.fault_filter(self))
        self.kernel = k = K.Kernel(self.seed, strategy, self.decisions, self.faults, plan,
                                   max_steps=spec.get('max_steps', 30000), keep_trace=self.trace,
                                   victim_salt=self.seed % 1000)
        self.reg = workload.Registry(w, self.zone, snap)
        self.tracker = monitors.Tracker(self, snap)
        monitors.install(self)
        error = None
        self.result = {}
        try:
            self.scenario.start(self)
            try:
                k.run()
            except K.StepLimit:
                k.violation('no-termination', 'the run did not end within %d operations' % k.max_steps)
            if not k.violations:
                self.scenario.finish(self)
        except Exception as e:
            error = e
        finally:
            try:
                k.shutdown()
            finally:
                simhooks.LISTENERS[:] = []
                simhooks.SLOW.clear()
        if k.harness_errors and error is None:
            error = k.harness_errors[0]
        if error is not None:
            raise K.HarnessError('%s: %s\n%s' % (type(error).__name__, error, ''.join(
                traceback.format_exception(type(error), error, error.__traceback__)))) from error
        h = hashlib.blake2b(digest_size=12)
        h.update(k.digest().encode())
        h.update(repr(sorted((t, sorted(map(repr, v.items() if isinstance(v, dict) else v)))
                             for t, v in self.tracker.snap.items())).encode())
        return {'violations': k.violations[:1], 'digest': h.hexdigest(), 'shape': k.shape.hexdigest(),
                'decisions': k.decisions, 'fired': k.fired, 'fired_counts': k.fired_counts, 'steps': k.nsteps,
                'switches': k.switches, 'simtime': k.now, 'probes': k.probes, 'lock_waits': k.lock_waits,
                'deadlocks': k.deadlocks, 'known': self.tracker.known, 'trace': k.trace,
                'nfaults': len(k.fired), **self.result}


def fmt(d):
    key, have, want = d
    if len(key) == 2:
        return '%s of %s is %r, should be %r' % (key[0], key[1], sorted(have), sorted(want))
    return '%s %s.%s is %r, should be %r' % (key[0], key[1], key[2], have, want)


class Scenario(object):
    """One way of exercising one property."""
    name = ''
    prop = ''
    second_db = False

    def prepare(self, world):
        world.enable_triggers()

    def cases(self, world, seed, i):
        """Specifications belonging to one seed; gets the result of each run back."""
        yield self.generate(world, random.Random('%s|%s' % (self.prop, seed)), seed)

    def nontrivial(self, spec, res):
        return res['switches'] > 0 or res['nfaults'] > 0

    def shape(self, spec, res):
        return res['shape']

    def generate(self, world, rng, seed):
        raise NotImplementedError

    def before_reset(self, run):
        pass

    def start(self, run):
        raise NotImplementedError

    def finish(self, run):
        run.settle()
        run.check_settled()

    def before_request(self, run, actor, req):
        pass

    def after_request(self, run, actor, req, res, commits):
        pass

    def fault_filter(self, run):
        return None
