"""A worker process: one world, many runs. Reads its job from the file named on the command line, writes JSON lines.

Modes: explore (runs until told to stop), replay (one run), shrink (minimise one failing run).
"""
import gc
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import kernel as K
from .world import Setup


def run_seed(master, prop, flavour, i):
    h = hashlib.blake2b(('%s|%s|%s|%d' % (master, prop, flavour, i)).encode(), digest_size=5)
    return int.from_bytes(h.digest(), 'big')


class Emitter(object):
    def __init__(self):
        self.fd = os.dup(1)
        os.dup2(2, 1)       # whatever the code under test prints is none of our output
        sys.stdout = open(os.devnull, 'w')

    def __call__(self, **msg):
        data = (json.dumps(msg) + '\n').encode()
        while data:
            n = os.write(self.fd, data)
            data = data[n:]


def make_world(job):
    from . import runner, scenarios, world
    sc = scenarios.SCENARIOS[job['prop']]
    try:
        w = world.World(job['vendor'], job['scratch'], job['name'], job.get('server'), bulk_unsafe=job.get('bulk_unsafe', False),
                        second_db=sc.second_db)
        w.known = job.get('known', [])
        sc.prepare(w)
    except Setup:
        raise
    except Exception as e:
        if runner.in_repo(e):
            raise Setup('%s: %s' % (type(e).__name__, str(e).strip().split('\n')[0][:300])) from e
        raise
    return w, sc


def execute(w, sc, spec, decisions=None, faults=None, trace=False):
    from . import runner, world
    try:
        res = runner.Run(w, spec, sc, decisions, faults, trace).execute()
    except world.TemplateError as e:
        res = {'violations': [('setup-failed', str(e))], 'digest': 'setup', 'shape': 'setup', 'decisions': [], 'fired': [],
               'fired_counts': {}, 'steps': 0, 'switches': 0, 'simtime': 0, 'probes': {}, 'lock_waits': 0, 'deadlocks': 0,
               'known': {}, 'trace': [], 'nfaults': 0}
    return res


def collect():
    gc.collect()


class Totals(object):
    def __init__(self):
        self.clear()

    def clear(self):
        self.runs = self.steps = self.switches = self.lock_waits = self.deadlocks = 0
        self.faulty = 0
        self.simtime = 0.0
        self.fired = {}
        self.probes = {}
        self.known = {}
        self.shapes = []
        self.cases = []

    def add(self, r):
        self.runs += 1
        self.steps += r['steps']
        self.switches += r['switches']
        self.lock_waits += r['lock_waits']
        self.deadlocks += r['deadlocks']
        self.simtime += r['simtime']
        self.faulty += 1 if r['nfaults'] else 0
        for k, n in r['fired_counts'].items():
            self.fired[k] = self.fired.get(k, 0) + n
        for k, n in r['probes'].items():
            self.probes[k] = self.probes.get(k, 0) + n
        for k, n in r['known'].items():
            self.known[k] = self.known.get(k, 0) + n

    def message(self):
        m = dict(self.__dict__)
        return m


def explore(job, emit):
    t0 = time.monotonic()
    w, sc = make_world(job)
    emit(type='ready', s=time.monotonic() - t0)
    gc.collect()
    gc.freeze()
    gc.disable()
    tot = Totals()
    last = time.monotonic()
    start = last
    digests = [] if job.get('digests') else None
    i = job['index']
    n = 0
    ncase = 0
    while True:
        if job.get('cases') is not None and ncase >= job['cases']:
            break
        if job.get('cases') is None:
            el = time.monotonic() - start
            if el > job['cap'] or (el > job['budget'] and ncase >= job['min']):
                break
        seed = run_seed(job['seed'], job['prop'], job['flavour'], i)
        gen = sc.cases(w, seed, i)
        res = None
        while True:
            try:
                spec = gen.send(res)
            except StopIteration:
                break
            res = execute(w, sc, spec)
            n += 1
            tot.add(res)
            if sc.nontrivial(spec, res):
                tot.shapes.append(sc.shape(spec, res))
            if len(tot.cases) < 1 and ncase < 2:
                tot.cases.append({'case': i, 'seed': seed, 'flavour': job['flavour'], 'spec': brief(spec), 'switches': res['decisions'][:12],
                                  'faults': res['fired'][:6], 'steps': res['steps']})
            if digests is not None:
                digests.append([i, res['digest']])
            if res['violations']:
                kind, text = res['violations'][0]
                emit(type='stats', **tot.message())
                emit(type='violation', kind=kind, text=text, case=i, seed=seed, spec=spec, decisions=res['decisions'],
                     faults=fault_map(res['fired']), digest=res['digest'], s=time.monotonic() - start)
                if not job.get('keep_going'):
                    return
                tot.clear()
            collect_every = 25 if w.vendor != 'sqlite3' else 15
            if n % collect_every == 0:
                collect()
            now = time.monotonic()
            if now - last > 1.0:
                emit(type='stats', **tot.message())
                tot.clear()
                last = now
        ncase += 1
        i += job['stride']
    emit(type='stats', **tot.message())
    if digests is not None:
        emit(type='digests', digests=digests)
    emit(type='done', cases=ncase, s=time.monotonic() - start)


def brief(spec):
    s = json.loads(json.dumps(spec))
    t = json.dumps(s)
    if len(t) > 4000:
        for a in s.get('actors', []):
            if 'script' in a and len(a['script']) > 2:
                a['script'] = a['script'][:2] + ['... %d more' % (len(a['script']) - 2)]
    return s


def fault_map(fired):
    out = {}
    for key, kind, sig in fired:
        out[key] = {'commit_refused': 'stmt_error'}.get(kind, kind)
    return out


def replay(job, emit):
    r = job['replay']
    try:
        w, sc = make_world(job)
    except Setup as e:
        emit(type='result', violations=[['setup-failed', str(e)]], digest='setup', fired=[], decisions=[], trace=None)
        return
    res = execute(w, sc, r['spec'], r['decisions'], r['faults'], trace=job.get('trace', False))
    emit(type='result', violations=res['violations'], digest=res['digest'], fired=res['fired'], decisions=res['decisions'],
         trace=res['trace'] if job.get('trace') else None)


# ------------------------------------------------------------------------------------------------ minimisation
def shrink(job, emit):
    r = job['replay']
    w, sc = make_world(job)
    gc.freeze()
    gc.disable()
    end = time.monotonic() + job['budget']
    kind = job['kind']
    count = [0]

    def attempt(spec, decisions, faults):
        count[0] += 1
        if count[0] % 20 == 0:
            collect()
        try:
            res = execute(w, sc, spec, decisions, faults)
        except K.HarnessError:
            return None         # cutting pieces out may make a nonsensical scenario
        if res['violations'] and res['violations'][0][0] == kind:
            return res
        return None

    spec, decisions, faults = r['spec'], r['decisions'], r['faults']
    res = attempt(spec, decisions, faults)
    if res is None:
        emit(type='result', ok=False, attempts=count[0])
        return
    best = [spec, res['decisions'], fault_map(res['fired']), res]

    def consider(spec, decisions, faults):
        if time.monotonic() > end:
            raise TimeoutError()
        res = attempt(spec, decisions, faults)
        if res is not None:
            best[:] = [spec, res['decisions'], fault_map(res['fired']), res]
            return True
        return False

    def listmin(get, put):
        """Remove as many elements of a list as possible."""
        n = 2
        while True:
            items = get()
            if not items:
                return
            size = max(1, len(items) // n)
            removed = False
            i = 0
            while i < len(get()):
                items = get()
                if put(items[:i] + items[i + size:]):
                    removed = True
                else:
                    i += size
            if size == 1 and not removed:
                return
            if not removed:
                n = min(len(get()) or 1, n * 2)

    def dup(x):
        return json.loads(json.dumps(x))

    def script_lists(spec):
        """Every list of steps in a specification, as paths."""
        out = []

        def walk(node, path):
            if isinstance(node, dict):
                for k in node:
                    if k in ('actors', 'script', 'ops', 'steps') and isinstance(node[k], list):
                        out.append(path + [k])
                    if k in ('actors', 'script', 'ops', 'steps'):
                        walk(node[k], path + [k])
            elif isinstance(node, list):
                for i, x in enumerate(node):
                    walk(x, path + [i])
        walk(spec, [])
        return out

    def at(spec, path):
        for p in path:
            spec = spec[p]
        return spec

    def with_list(path, items):
        s = dup(best[0])
        at(s, path[:-1])[path[-1]] = items
        return s

    try:
        before = None
        while before != (json.dumps(best[0]), len(best[1]), len(best[2])):
            before = (json.dumps(best[0]), len(best[1]), len(best[2]))
            if best[2] and not consider(best[0], best[1], {}):
                listmin(lambda: sorted(best[2].items()), lambda it: consider(best[0], best[1], dict(it)))
            if best[1] and not consider(best[0], [], best[2]):
                listmin(lambda: list(best[1]), lambda it: consider(best[0], it, best[2]))
            done = set()
            while True:
                paths = [p for p in script_lists(best[0]) if tuple(p) not in done]
                if not paths:
                    break
                p = paths[0]
                done.add(tuple(p))

                def put(items, p=p):
                    s = with_list(p, items)
                    if p[-1] == 'ops' and not items:
                        return False
                    return consider(s, best[1], best[2])
                listmin(lambda p=p: list(at(best[0], p)) if exists(best[0], p) else [], put)
            for a in range(len(best[0].get('actors', ()))):
                act = best[0]['actors'][a]
                if act.get('times', 1) > 1:
                    s = dup(best[0])
                    s['actors'][a]['times'] = 1
                    consider(s, best[1], best[2])
                if act.get('gap'):
                    s = dup(best[0])
                    s['actors'][a]['gap'] = 0
                    consider(s, best[1], best[2])
    except TimeoutError:
        pass
    spec, decisions, faults, res = best
    emit(type='result', ok=True, spec=spec, decisions=decisions, faults=faults, digest=res['digest'],
         violation=res['violations'][0], attempts=count[0])


def exists(spec, path):
    try:
        for p in path:
            spec = spec[p]
        return True
    except (KeyError, IndexError, TypeError):
        return False


def main():
    with open(sys.argv[1]) as f:
        job = json.load(f)
    emit = Emitter()
    random.seed(0)
    try:
        {'explore': explore, 'replay': replay, 'shrink': shrink}[job['mode']](job, emit)
    except Setup as e:
        emit(type='setup-failed', text=str(e), trace=traceback.format_exc())
    except BaseException as e:
        emit(type='harness-error', text='%s: %s' % (type(e).__name__, str(e)[-6000:]), trace=traceback.format_exc()[-6000:])
        sys.stderr.flush()
        os._exit(3)
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
