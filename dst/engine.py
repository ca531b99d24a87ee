"""Runs one check: starts the databases and the workers, gathers evidence, minimises and replays violations.

Usage: python -m dst.engine <property>            (VERIF_SEED, VERIF_TIER in the environment)
       python -m dst.engine --replay <file>       runs a replay file; exit 1 if the violation is reproduced exactly
"""
import json
import os
import selectors
import signal
import subprocess
import sys
import threading
import time

from . import known, plans, servers

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Worker(object):
    def __init__(self, scratch, job, n):
        self.job = job
        path = os.path.join(scratch.dir, 'job%s.json' % n)
        with open(path, 'w') as f:
            json.dump(job, f)
        env = {k: v for k, v in os.environ.items() if k in ('PATH', 'HOME', 'LANG', 'TMPDIR', 'DST_REPO')}
        env.update(PYTHONHASHSEED=os.environ.get('DST_HASHSEED', '0'), PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=ROOT, LC_ALL='C.UTF-8',
                   PYTHONWARNINGS='ignore')
        self.err_path = os.path.join(scratch.dir, 'err%s.txt' % n)
        self.err = open(self.err_path, 'wb')
        self.proc = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'dst.worker', path], cwd=ROOT, env=env,
                                     stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        os.set_blocking(self.proc.stdout.fileno(), False)
        self.buf = b''
        self.finished = False
        self.result = None

    def read(self):
        """Complete messages that have arrived; None at the end of the stream."""
        try:
            data = os.read(self.proc.stdout.fileno(), 1 << 20)
        except BlockingIOError:
            return []
        if not data:
            return None
        self.buf += data
        lines = self.buf.split(b'\n')
        self.buf = lines.pop()
        return [json.loads(l) for l in lines if l]

    def kill(self):
        if self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                self.proc.kill()
        self.proc.wait()
        self.proc.stdout.close()
        self.err.close()

    def stderr(self):
        try:
            with open(self.err_path, 'rb') as f:
                return f.read()[-3000:].decode('utf8', 'replace')
        except OSError:
            return ''


class Check(object):
    def __init__(self, prop, seed, tier):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.plan = plans.get(prop, tier)
        self.known = known.load().get(prop, {})
        self.t0 = time.monotonic()
        self.scratch = servers.Scratch()
        self.nworkers = 0
        self.servers = {}

    def elapsed(self):
        return time.monotonic() - self.t0

    def start_servers(self, vendors):
        errors = []

        def go(v):
            try:
                self.servers[v] = self.scratch.start_pg() if v == 'postgresql' else self.scratch.start_mysql()
            except Exception as e:
                errors.append(e)
        ts = [threading.Thread(target=go, args=(v,)) for v in ('postgresql', 'mysql') if v in vendors]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise CheckError('databases: %s' % errors[0])

    def worker(self, flavour, **job):
        vendor, _, opt = flavour.partition('+')
        n = self.nworkers
        self.nworkers += 1
        job.update(prop=self.prop, vendor=vendor, flavour=flavour, scratch=self.scratch.dir, name='w%d' % n,
                   server=self.servers.get(vendor), bulk_unsafe=opt == 'unsafe', known=sorted(self.known))
        return Worker(self.scratch, job, n)

    def run_one(self, flavour, timeout, **job):
        """A worker that delivers a single result."""
        w = self.worker(flavour, **job)
        end = time.monotonic() + timeout
        try:
            while time.monotonic() < end:
                msgs = w.read()
                if msgs is None:
                    break
                for m in msgs:
                    if m['type'] in ('result', 'setup-failed', 'harness-error'):
                        return m
                time.sleep(0.01)
            return {'type': 'harness-error', 'text': 'no result: ' + w.stderr(), 'trace': ''}
        finally:
            w.kill()

    # -- exploration
    def explore(self):
        plan = self.plan
        workers = []
        self.stats = {'runs': 0, 'steps': 0, 'switches': 0, 'lock_waits': 0, 'deadlocks': 0, 'faulty': 0, 'simtime': 0.0}
        self.by_flavour = {}
        self.fired = {}
        self.probes = {}
        self.known_hits = {}
        self.shapes = set()
        self.samples = []
        self.cases = 0
        violation = None
        sel = selectors.DefaultSelector()
        try:
            for flavour, n in plan['workers']:
                for j in range(n):
                    w = self.worker(flavour, mode='explore', seed=self.seed, index=j, stride=n, budget=plan['budget'], cap=plan['cap'],
                                    min=plan['min'])
                    workers.append(w)
                    sel.register(w.proc.stdout, selectors.EVENT_READ, w)
            deadline = time.monotonic() + plan['cap'] + 240
            open_ = len(workers)
            while open_ and violation is None:
                if time.monotonic() > deadline:
                    raise CheckError('workers did not end in time: %s' % ', '.join(
                        w.job['flavour'] for w in workers if not w.finished))
                for key, _ in sel.select(1.0):
                    w = key.data
                    msgs = w.read()
                    if msgs is None:
                        sel.unregister(w.proc.stdout)
                        open_ -= 1
                        if not w.finished and violation is None:
                            raise CheckError('a worker (%s) ended unexpectedly: %s' % (w.job['flavour'], w.stderr()))
                        continue
                    for m in msgs:
                        t = m['type']
                        if t == 'stats':
                            self.add(w.job['flavour'], m)
                        elif t == 'done':
                            w.finished = True
                            self.cases += m['cases']
                        elif t == 'violation':
                            w.finished = True
                            if violation is None:
                                violation = (w.job['flavour'], m)
                        elif t == 'setup-failed':
                            w.finished = True
                            if violation is None:
                                violation = (w.job['flavour'], dict(m, kind='setup-failed', spec={'zone': None}, decisions=[], faults={},
                                                                    digest='setup', seed=0, case=0))
                        elif t == 'harness-error':
                            raise CheckError('%s (%s)\n%s' % (m['text'][-2500:], w.job['flavour'], m['trace'][-1500:]))
        finally:
            for w in workers:
                w.kill()
        return violation

    def add(self, flavour, m):
        for k in self.stats:
            self.stats[k] += m[k]
        self.by_flavour[flavour] = self.by_flavour.get(flavour, 0) + m['runs']
        for src, dst in ((m['fired'], self.fired), (m['probes'], self.probes), (m['known'], self.known_hits)):
            for k, n in src.items():
                dst[k] = dst.get(k, 0) + n
        self.shapes.update(m['shapes'])
        if len(self.samples) < 4:
            self.samples += m['cases'][:4 - len(self.samples)]

    # -- violations
    def report(self, flavour, v):
        """Minimise, verify in a fresh process, write the replay file. Returns its path."""
        rep = {'property': self.prop, 'flavour': flavour, 'kind': v['kind'], 'text': v['text'], 'seed': v['seed'], 'verif_seed': self.seed,
               'case': v['case'], 'spec': v['spec'], 'decisions': v['decisions'], 'faults': v['faults'], 'digest': v['digest'],
               'known': sorted(self.known)}
        if v['kind'] != 'setup-failed':
            r = self.run_one(flavour, self.plan['shrink'] + 120, mode='shrink', replay=rep, kind=v['kind'], budget=self.plan['shrink'])
            if r['type'] == 'result' and r.get('ok'):
                rep.update(spec=r['spec'], decisions=r['decisions'], faults=r['faults'], digest=r['digest'], text=r['violation'][1],
                           minimised_in=r['attempts'])
            else:
                rep['not_minimised'] = r.get('text', 'the explicit schedule did not reproduce the violation')
        r = self.run_one(flavour, 180, mode='replay', replay=rep, trace=True)
        if r['type'] == 'result':
            rep['replayed'] = bool(r['violations'] and r['violations'][0][0] == rep['kind'] and r['digest'] == rep['digest'])
            rep['trace'] = r['trace']
        else:
            rep['replayed'] = False
            rep['replay_problem'] = r.get('text')
        d = os.path.join(ROOT, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (self.prop, rep['seed']))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        return path, rep

    def evidence(self, wall, violations):
        plan = self.plan
        st = self.stats
        explore_s = max(self.explored, 0.001)
        cov = {
            'evaluations': st['runs'],
            'distinct_nontrivial': len(self.shapes),
            'rule': plan['rule'],
            'samples': self.samples,
            'runs_per_flavour': self.by_flavour,
            'runs_per_hour': round(st['runs'] / explore_s * 3600),
            'cases_completed': self.cases,
            'seeds_per_hour': round(self.cases / explore_s * 3600),
            'simulated_seconds': round(st['simtime'], 3),
            'scheduled_operations': st['steps'],
            'context_switches': st['switches'],
            'lock_waits': st['lock_waits'],
            'deadlocks_resolved': st['deadlocks'],
            'runs_with_faults': st['faulty'],
            'faults_fired': dict(sorted(self.fired.items())),
            'reach_probes': dict(sorted(self.probes.items())),
            'components': plan['components'],
        }
        if self.known:
            cov['known_finding_occurrences'] = dict(sorted(self.known_hits.items()))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': plan['level'], 'coverage': cov, 'wall_s': round(wall, 2),
              'assumptions': plan['assumptions'], 'violations': violations}
        d = os.path.join(ROOT, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        os.replace(tmp, os.path.join(d, '%s.json' % self.prop))

    def run(self):
        print('seed=%d property=%s tier=%s' % (self.seed, self.prop, self.tier), flush=True)
        try:
            self.start_servers(set(f.partition('+')[0] for f, n in self.plan['workers']))
            t = time.monotonic()
            v = self.explore()
            self.explored = time.monotonic() - t
            if v is not None:
                path, rep = self.report(*v)
                self.evidence(self.elapsed(), 1)
                print('%s on %s: %s' % (rep['kind'], rep['flavour'], rep['text']))
                if not rep['replayed']:
                    print('note: the replay differs from the original run')
                print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, ROOT)), flush=True)
                return 1
            self.evidence(self.elapsed(), 0)
            for k in sorted(self.known):
                if self.known_hits.get(k):
                    print('KNOWN-FINDING: property=%s %s %s (%d times)' % (self.prop, k, self.known[k], self.known_hits[k]))
            print('held: %d runs, %d distinct, %d faults, %.0f s' % (
                self.stats['runs'], len(self.shapes), sum(self.fired.values()), self.elapsed()), flush=True)
            return 0
        finally:
            self.scratch.close()


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    c = Check(rep['property'], rep.get('verif_seed', 0), 'quick')
    c.known = {k: '' for k in rep.get('known', ())}
    try:
        c.start_servers({rep['flavour'].partition('+')[0]})
        r = c.run_one(rep['flavour'], 300, mode='replay', replay=rep, trace=True)
    finally:
        c.scratch.close()
    if r['type'] != 'result':
        print(r.get('text'))
        print(r.get('trace'))
        return 2
    print('\n'.join(r['trace'] or ()))
    if not r['violations']:
        print('no violation')
        return 0
    print('%s: %s' % tuple(r['violations'][0]))
    print('exactly as recorded' if r['digest'] == rep['digest'] else 'the run differs from the recorded one')
    print('VIOLATION property=%s replay=%s' % (rep['property'], path))
    return 1


def setup():
    """Can the databases be started and the code under test be imported?"""
    s = servers.Scratch()
    try:
        s.start_pg()
        s.start_mysql()
    finally:
        s.close()
    sys.path.insert(0, REPO)
    import django, psycopg2, MySQLdb      # noqa
    from django.conf import settings
    settings.configure()
    import denorm
    print('ready: Django %s, %s' % (django.get_version(), denorm.__file__))
    return 0


def main():
    def stop(sig, frame):
        raise CheckError('signal %d' % sig)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        if sys.argv[1] == '--replay':
            return replay(sys.argv[2])
        if sys.argv[1] == '--setup':
            return setup()
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
        return Check(sys.argv[1], seed, tier).run()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print('CHECK-ERROR %s: %s' % (type(e).__name__, e), flush=True)
        return 2


if __name__ == '__main__':
    sys.exit(main())
