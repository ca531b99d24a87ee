"""C16: daemons, pid files and processes that die."""
import os
import shutil

from django.db import Error

from . import kernel as K
from . import procs, workload
from .runner import Scenario, in_repo, where

# what may be found in a pid file; %d is a process id
CONTENTS = ['', ' ', '\n', 'x', 'pid', '-1', '0', '-%d', '%d.0', '%d %d', '%d\n%d\n', '1e3', '99999999999999999999', '4194999', '\x00',
            '\xff\xfe', '0x12', '%d\x00', 'None', '--', '﻿%d', '٣']
PIDFILES = ['/run/denorm.pid', '/srv/app/denorm.pid', 'denorm.pid', 'var/denorm.pid', '/run/denorm.pid']


class Start(object):
    """One start of the command and the processes it led to."""

    def __init__(self, judge, proc, detach, once):
        self.proc = proc
        self.detach = detach
        self.once = once
        self.seen = set()       # what the pid file said from the start until it was decided
        self.named = set()
        self.decided = None
        self.note(judge.status())
        self.begin = judge.k.nsteps
        self.end = None
        self.disturbed = False          # something else happened to the pid file before the start was over

    def note(self, status):
        if status == ('live', self.proc.pid):
            status = 'none', None       # an old entry; its process id has come round to this very process
        self.seen.add(status[0])
        self.named.add(status[1])


class Judge(object):
    """Watches the pid file and the processes."""

    def __init__(self, run, table, pidfile):
        self.run = run
        self.k = run.kernel
        self.t = table
        self.path = table.real(pidfile, table.home)
        self.starts = []
        self.last = None
        table.listeners.append(self.changed)
        table.forking = lambda p: self.acted(p, 'it forked')

    def content(self):
        try:
            with procs._real['open'](self.path, 'rb') as f:
                return f.read()
        except OSError:
            return None

    def status(self):
        """('live', pid) if the pid file names a living process, ('none', None) otherwise, ('odd', None) if it is arguable."""
        c = self.content()
        if c is None:
            return 'none', None
        try:
            s = c.decode('utf8').strip()
        except UnicodeDecodeError:
            return 'none', None
        if s.isascii() and s.isdigit():
            pid = int(s)
            if pid > 0 and self.t.living(pid) is not None:
                return 'live', pid
            return 'none', None
        try:
            int(s)
            return ('none', None) if s.startswith('-') else ('odd', None)
        except ValueError:
            return 'none', None

    def changed(self):
        st = self.status()
        for s in self.starts:
            if s.decided is None:
                s.note(st)
        for s in self.starts:
            self.look(s)

    def tampered(self):
        """Somebody else changed the pid file."""
        for s in self.starts:
            if s.end is None:
                s.disturbed = True
        self.changed()

    def start(self, name, program, detach, once):
        for s in self.starts:
            if s.end is None:
                s.disturbed = True
        over = any(s.end is None for s in self.starts)
        p = self.t.start(name, program)
        s = Start(self, p, detach, once)
        s.disturbed = over
        self.starts.append(s)
        return s

    def of(self, p):
        for s in self.starts:
            if s.proc is p.root:
                return s

    def tree(self, s):
        return [p for p in self.t.procs if p.root is s.proc]

    # -- what the processes do
    def acted(self, p, what):
        """The process forks, flushes or waits: it has decided to run."""
        s = self.of(p)
        if s is None or s.decided is not None:
            return
        s.decided = 'run'
        if s.seen == {'live'} and len(s.named) == 1:
            self.k.violation('second-daemon', 'a daemon started (%s) although the pid file named process %d, which was alive' % (
                what, list(s.named)[0]))

    def look(self, s):
        """Is there something to say about this start now?"""
        if s.end is not None or self.k.violations:
            return
        ps = self.tree(s)
        p = s.proc
        for q in ps:
            if q.error is not None and not q.hit and not p.hit:
                e, q.error = q.error, None
                if isinstance(e, Error) and '(simulated)' in str(e):
                    q.hit = True        # a conflict with another client of the database
                    continue
                if isinstance(e, K.HarnessError) or not in_repo(e):
                    self.k.harness_errors.append(e)
                    return
                self.k.violation('start-failed', 'starting a daemon failed with %s in %s: %s (the pid file: %r)' % (
                    type(e).__name__, where(e), str(e)[:100], self.content()))
                return
        hit = any(q.hit for q in ps)
        if not p.alive and s.decided is None and not hit:
            # it ended without having done anything
            s.decided = 'refused'
            s.end = self.k.nsteps
            self.k.probe('starts_refused')
            if s.seen == {'none'}:
                self.k.violation('no-start', 'a daemon refused to start although the pid file (%r) named no living process' % self.content())
            elif p.touched_file and s.seen == {'live'} and len(s.named) == 1:
                self.k.violation('pidfile-touched', 'a daemon that refused to start touched the pid file')
            return
        if s.decided != 'run':
            if not p.alive:
                s.end = self.k.nsteps
            return
        living = [q for q in ps if q.alive]
        if not living:
            done = [q for q in ps if q.flushed]
        else:
            done = [q for q in living if q.flushed and (q.slept or s.once)]
            if len(living) > 1 or not done or s.once:
                return
        s.end = self.k.nsteps
        if hit:
            self.k.probe('starts_hit')
            return
        self.k.probe('starts_completed')
        if not s.detach or s.disturbed or len(done) != 1:
            return
        c = self.content()
        pid = done[0].pid
        self.k.probe('pidfiles_compared')
        if c is None or c.decode('latin1').strip() != str(pid):
            self.k.violation('wrong-pid', 'a daemon runs as process %d but the pid file contains %r' % (pid, c))

    def daemons(self):
        return [p for p in self.t.procs if p.alive and p.actor is not None and p.flushed and p.slept]

    # -- as a monitor of the kernel
    def on_op(self, k, a, kind, sig, label, committed):
        p = a.data.get('proc')
        if p is not None and 'denorm_dirtyinstance' in sig and not p.flushed:
            p.flushed = True
            self.acted(p, 'it flushed')

    def on_sleep(self, k, a):
        p = a.data.get('proc')
        if p is not None and p.flushed and not p.slept:
            p.slept = True
            self.changed()


class C16(Scenario):
    prop = 'C16'
    zone = 'misc'

    def generate(self, world, rng, seed):
        spec = {'prop': 'C16', 'seed': seed, 'zone': 'misc', 'variant': rng.randrange(4)}
        spec['pidfile'] = rng.choice(PIDFILES)
        spec['pids'] = rng.choice([[300, 340], [300, 309], [95, 108], [4194296, 4194304]])
        g = workload.Gen(world, 'misc', rng, ops={'save': 10, 'create': 3})
        spec['strategy'] = {'horizon': 200}
        # daemons that have been running for days
        spec['long'] = rng.random() < 0.1
        intervals, waits = ([20000], [0.1, 3.0, 4000.0, 100000.0, 400000.0]) if spec['long'] else ([1, 2], [0.1, 1.0, 3.0, 10.0])
        steps = []
        if rng.random() < 0.5:
            steps.append(self.tamper(rng))
        for _ in range(rng.randint(2, 9)):
            r = rng.random()
            if r < 0.42:
                steps.append(['start', rng.random() < 0.75, rng.random() < 0.2, rng.choice(intervals), rng.random() < 0.75])
            elif r < 0.6:
                steps.append(['kill', rng.randrange(4)])
            elif r < 0.72:
                steps.append(self.tamper(rng))
            elif r < 0.8:
                steps.append(['write', g.request(rollback=0.0, maxops=2)])
            elif r < 0.88:
                steps.append(['process', rng.choice(['other', 'other', 'me']), rng.choice(['named', 'new'])])
            else:
                steps.append(['wait', rng.choice(waits)])
        spec['actors'] = [{'name': 'op', 'role': 'operator', 'script': steps}]
        if rng.random() < 0.55:
            kinds = {'file': ['io_error', 'crash', 'crash_after', 'clock_jump'], 'fork': ['fork_fail', 'crash', 'crash_after'], 'proc': ['crash'],
                     'sleep': ['crash', 'interrupt', 'clock_jump'], 'sql': ['crash'], 'commit': ['crash', 'crash_after']}
            for k in list(kinds):
                if rng.random() < 0.4:
                    del kinds[k]
            spec['faults'] = {'rate': rng.choice([0.02, 0.06, 0.15, 0.3]), 'max': rng.choice([1, 2, 4]), 'kinds': kinds}
        return spec

    def tamper(self, rng):
        r = rng.random()
        if r < 0.15:
            return ['pidfile', None, 'none', 0]
        if r < 0.5:
            return ['pidfile', '%d' + rng.choice(['', '', '\n', ' ', '\r\n']), rng.choice(['dead', 'daemon', 'other', 'new']), rng.choice([0, 0, 0, 3000000, -5000])]
        return ['pidfile', rng.choice(CONTENTS), rng.choice(['dead', 'daemon', 'other']), 0]

    def fault_filter(self, run):
        return lambda a, op: a.data.get('proc') is not None

    def nontrivial(self, spec, res):
        return res['probes'].get('starts', 0) > 0

    def before_reset(self, run):
        d = os.path.join(run.world.scratch, run.world.name + '-root')
        shutil.rmtree(d, ignore_errors=True)
        for x in ('run', 'srv/app/var', 'var'):
            os.makedirs(os.path.join(d, x))
        run.rootdir = d

    def start(self, run):
        spec = run.spec
        t = run.procs = procs.Table(run, run.rootdir, pids=tuple(spec['pids']))
        j = run.judge = Judge(run, t, spec['pidfile'])
        run.kernel.monitors.append(j)
        run.nstarts = 0

        def main(actor, state):
            c = workload.Client(run, actor)
            state.setdefault('i', 0)
            while state['i'] < len(spec['actors'][0]['script']):
                s = spec['actors'][0]['script'][state['i']]
                state['i'] += 1
                getattr(self, 'do_' + s[0])(run, c, *s[1:])
        run.kernel.spawn('op', run.guarded(main), role='operator', faults_ok=False)

    # -- what the operator does
    def do_start(self, run, c, detach, once, interval, wait):
        import time
        from django.core.management import call_command
        spec = run.spec
        run.nstarts += 1

        def program(p):
            if p.parent is not None:
                p.flushed = p.slept = False
            out = open(os.devnull, 'w')
            kw = {'run_once': True} if once else {}
            p.actor.data['flushing'] = 1
            call_command('denorm_daemon', foreground=not detach, interval=interval, pidfile=spec['pidfile'], stdout=out, stderr=out,
                         no_color=True, **kw)
        s = run.judge.start('d%d' % run.nstarts, program, detach, once)
        run.kernel.probe('starts')
        if wait:
            for _ in range(200):
                if s.end is not None:
                    break
                time.sleep(0.05)

    def do_kill(self, run, c, n):
        ps = [p for p in run.procs.procs if p.alive and p.actor is not None]
        if ps:
            run.kernel.probe('kills')
            run.procs.kill(ps[n % len(ps)])

    def pick(self, run, which):
        if which == 'daemon':
            ps = [p for p in run.procs.procs if p.alive and p.actor is not None]
        elif which == 'other':
            ps = [p for p in run.procs.procs if p.alive and p.actor is None]
        elif which == 'dead':
            ps = [p for p in run.procs.procs if not p.alive and run.procs.living(p.pid) is None]
        else:
            ps = []
        return ps[-1].pid if ps else run.procs.next

    def do_pidfile(self, run, c, content, which, age):
        p = run.judge.path
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if content is None:
            if os.path.exists(p):
                os.unlink(p)
        else:
            if '%d' in content:
                pid = self.pick(run, which)
                content = content % tuple([pid] * content.count('%d'))
            with open(p, 'wb') as f:
                f.write(content.encode('latin1', 'replace') if '\xff' in content else content.encode('utf8'))
            run.procs.stamp(p, age)
        run.kernel.probe('pidfile_changed')
        run.judge.tampered()

    def do_write(self, run, c, req):
        c.request(req)

    def do_process(self, run, c, user, which):
        """A process that has nothing to do with the daemon appears, perhaps with the id named in the pid file."""
        pid = None
        if which == 'named':
            s = (run.judge.content() or b'').strip()
            if s.isdigit() and 0 < int(s) < 2 ** 22 and run.procs.living(int(s)) is None:
                pid = int(s)
        run.procs.add(user=user, pid=pid)
        run.kernel.probe('other_processes')

    def do_wait(self, run, c, t):
        import time
        time.sleep(t)

    def finish(self, run):
        """Faults stop; a daemon is started once more."""
        k, j = run.kernel, run.judge
        k.faults_on = False
        k.max_steps = k.nsteps + 8000

        def settle(t):
            try:
                k.run(until=lambda: False, max_time=k.now + t)
            except K.StepLimit:
                k.violation('no-termination', 'the daemons do not settle: more than 8000 operations while nobody does anything')
        t = 50000 if run.spec['long'] else 12
        settle(t)
        if k.violations:
            return
        was = j.status()

        def main(actor, state):
            self.do_start(run, None, True, False, 20000 if run.spec['long'] else 1, False)
        k.spawn('last', run.guarded(main), role='operator', faults_ok=False)
        settle(t)
        if k.violations:
            return
        s = j.starts[-1]
        if s.end is None:
            k.violation('no-start', 'a daemon started on its own neither refused nor ran')
        elif was[0] == 'none' and not [p for p in j.tree(s) if p.alive]:
            k.violation('no-start', 'a daemon started while the pid file (%r) named no living process is not running' % j.content())
        elif was[0] == 'live' and [p for p in j.tree(s) if p.alive]:
            k.violation('second-daemon', 'a second daemon is running next to process %d named in the pid file' % was[1])
        k.probe('last_starts_judged')
        if j.daemons():
            run.check_settled()


SCENARIOS = [C16()]
