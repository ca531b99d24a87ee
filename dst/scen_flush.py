"""Scenarios around flushing processes: interruption, middleware, daemon, rebuild."""
import os
import random

from . import kernel as K
from . import monitors, schema, workload, zones
from .runner import Scenario
from .scenarios import ALL_ZONES, FUNC_ZONES, VARIANTS, Mixed, fault_config, pause

LATER = 1000.0      # simulated seconds after which a second phase starts; no first phase takes that long


class C03(Scenario):
    """A flush is hit by a fault at each of its operations, one by one; or several flushes by several faults."""
    prop = 'C03'

    def cases(self, world, seed, i):
        rng = random.Random('C03|%s' % seed)
        zone = rng.choice(FUNC_ZONES)
        g = workload.Gen(world, zone, rng)
        several = rng.random() < 0.3
        script = g.script(rng.randint(2, 4) if several else rng.choice([1, 1, 2]), rollback=0.0, maxops=2 if not several else 4)
        for r in script:
            r.pop('think', None)
        spec = {'prop': 'C03', 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS),
                'actors': [{'name': 'c0', 'role': 'client', 'script': script}]}
        if several:
            for j in range(rng.choice([1, 2, 2, 3])):
                spec['actors'].append({'name': 'f%d' % j, 'role': 'flusher', 'times': rng.randint(1, 4), 'gap': LATER if j == 0 else LATER + rng.choice([0, 0.01, 0.1])})
            for n in range(12):
                s = dict(spec, seed=seed + n + 1, strategy={'horizon': 200}, faults=fault_config(rng, rate=(0.02, 0.05, 0.1)))
                yield s
            return
        spec['actors'].append({'name': 'f0', 'role': 'flusher', 'times': 1, 'gap': LATER})
        base = dict(spec, explicit_faults={})
        res = yield base
        if res['violations']:
            return
        ops = [(i, kind, sig) for i, kind, sig in res['ops'] if kind in ('sql', 'commit', 'connect')]
        if len(ops) > 40:
            ops = sorted(rng.sample(ops, 40))
        for idx, kind, sig in ops:
            for f in self.kinds(world, kind, sig):
                res = yield dict(spec, explicit_faults={'f0:%d' % idx: f})

    def kinds(self, world, kind, sig):
        if kind == 'connect':
            return ['connect_fail']
        server = world.vendor != 'sqlite3'
        if kind == 'commit':
            return ['crash', 'crash_after', 'stmt_error'] + (['conn_lost', 'conn_lost_after'] if server else [])
        if sig.startswith('SELECT'):
            return ['crash', 'stmt_error'] + (['conn_lost'] if server else [])
        return ['crash', 'crash_after', 'stmt_error', 'deadlock'] + (['conn_lost', 'conn_lost_after'] if server else [])

    def nontrivial(self, spec, res):
        return res['nfaults'] > 0

    def shape(self, spec, res):
        return '%s/%s' % (res['shape'], ','.join('%s=%s' % (k, v) for k, v, s in res['fired']))

    def start(self, run):
        run.op_log = []
        for a in run.spec['actors']:
            if a['role'] == 'client':
                run.add_client(a['name'], a['script']).faults_ok = False
            else:
                run.add_flusher(a['name'], a['times'], a['gap'])
        run.kernel.watch_ops('f0', run.op_log)

    def finish(self, run):
        run.result['ops'] = run.op_log
        run.settle()
        run.check_settled()


class Middleware(Mixed):
    """C09: requests pass through the middleware, whose flush fails in every way."""

    def __init__(self):
        super().__init__('C09', FUNC_ZONES, clients=(1, 3), flushers=(0, 1), requests=(1, 4), faults=0.9, checkers=(monitors.BaseConserved,),
                         kinds=['stmt_error', 'deadlock', 'conn_lost', 'conn_lost_after', 'connect_fail', 'stall'],
                         fault_kw={'rate': (0.02, 0.08, 0.2)})

    def generate(self, world, rng, seed):
        spec = super().generate(world, rng, seed)
        spec['everywhere'] = rng.random() < 0.3
        if rng.random() < 0.3:
            spec['actors'] = [a for a in spec['actors'] if a['role'] == 'client'][:1]
            if rng.random() < 0.5:
                spec.pop('faults', None)
        for a in spec['actors']:
            for r in a.get('script', ()):
                if rng.random() < 0.3:
                    r['conn'] = rng.choice(['lost', 'closed', 'lost', 'broken-tx'])
                r['call'] = rng.random() < 0.5
                r['http'] = [rng.choice(['GET', 'GET', 'HEAD', 'POST', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH']),
                             rng.choice([200, 200, 201, 204, 302, 304, 400, 404, 500, 503]), rng.choice(['plain', 'plain', 'stream'])]
        return spec

    def fault_filter(self, run):
        if run.spec.get('everywhere'):
            return None
        return lambda a, op: a.data.get('middleware')

    def start(self, run):
        for c in self.checkers:
            run.tracker.checkers.append(c(run))
        for a in run.spec['actors']:
            if a['role'] == 'client':
                self.client(run, a['name'], a['script'])
            else:
                run.add_flusher(a['name'], a['times'], a['gap'])

    def client(self, run, name, script):
        def fn(actor, state):
            from django.db import close_old_connections
            state.setdefault('i', 0)
            c = workload.Client(run, actor)
            c.close_after_error = False
            while state['i'] < len(script):
                req = script[state['i']]
                state['i'] += 1
                k = actor.kernel
                n = len(k.fired)
                self.through(run, actor, lambda: self.view(run, actor, c, req), req.get('call'), req.get('http'))
                k.probe('responses_checked')
                if len(run.spec['actors']) == 1 and len(k.fired) == n and req.get('conn') != 'lost':
                    k.probe('undisturbed_requests_checked')
                    run.check_settled()
                close_old_connections()
        return run.kernel.spawn(name, run.guarded(fn), role='client')

    def view(self, run, actor, c, req):
        from django.db import connection, transaction
        c.request(req)
        how = req.get('conn')
        if how == 'closed':
            connection.close()
        elif how == 'lost' and connection.can_lose_connection and connection.connection is not None:
            connection.sim_lose()
            actor.kernel.log(actor, 'idle-connection-lost')
            actor.kernel.probe('idle_connection_lost')
        elif how == 'broken-tx':
            # the view swallowed a database error inside an atomic block that was rolled back
            from django.db import Error
            try:
                with transaction.atomic():
                    c.raw('SELECT 1 FROM nowhere_to_be_found', [])
            except Error:
                pass

    def http(self, method, status, kind):
        from django.http import HttpRequest, HttpResponse, StreamingHttpResponse
        request = HttpRequest()
        request.method = method
        request.path = request.path_info = '/x/'
        request.META.update(SERVER_NAME='localhost', SERVER_PORT='80', REMOTE_ADDR='127.0.0.1')
        if kind == 'stream':
            response = StreamingHttpResponse(iter(()), status=status)
        else:
            response = HttpResponse(status=status)
        return request, response

    def through(self, run, actor, view, call, http=None):
        """One request through the middleware; the response must come back whatever happens."""
        from denorm.middleware import DenormMiddleware
        request, response = self.http(*(http or ('GET', 200, 'plain')))
        depth = actor.data.get('flushing', 0)

        def inside():
            actor.data['middleware'] = True
            actor.data['flushing'] = depth + 1

        def get_response(request):
            view()
            inside()
            return response
        try:
            if call:
                out = DenormMiddleware(get_response)(request)
            else:
                view()
                inside()
                out = DenormMiddleware().process_response(request, response)
        except K.SimCrash:
            raise
        except Exception as e:
            if actor.dead or run.kernel.aborting:
                raise
            if not actor.data.get('middleware'):
                raise
            run.kernel.violation('middleware-raised', 'the middleware raised %s: %s' % (
                type(e).__name__, str(e).strip().split('\n')[0][:200]))
            return
        finally:
            actor.data['middleware'] = False
            actor.data['flushing'] = depth
        if out is not response:
            run.kernel.violation('response-lost', 'the middleware returned %r instead of the response' % (type(out).__name__,))

    def finish(self, run):
        def last():
            # no request of its own: the next one brings everything up to date
            self.through(run, K.current_actor(), lambda: None, False)
        run.settle(fn=last)
        run.check_settled()


class IdleDaemon(monitors.Checker):
    """C10: a waiting daemon holds nothing."""

    def on_sleep(self, a):
        if a.role != 'daemon' or a.data.get('supervisor'):
            return
        self.k.probe('daemon_waits_checked')
        if a.in_tx and (self.w.vendor != 'sqlite3' or a.data.get('tx') is not None):
            self.k.violation('idle-in-transaction', 'the daemon waits inside an open transaction')


class Daemon(Mixed):
    """C10: clients and a supervised daemon; time is simulated."""

    def __init__(self):
        super().__init__('C10', ALL_ZONES, clients=(1, 3), flushers=(0, 0), requests=(1, 4), faults=0.7, checkers=(IdleDaemon,))

    def generate(self, world, rng, seed):
        spec = super().generate(world, rng, seed)
        spec['interval'] = rng.choice([1, 1, 2, 5])
        spec['jitter'] = rng.choice([None, None, 0.5, 1.5, 2.0])
        spec['once'] = rng.random() < 0.1
        spec['only_daemon'] = rng.random() < 0.8
        for a in spec['actors']:
            for r in a.get('script', ()):
                r['think'] = rng.choice([0.0, 0.01, 0.3, 1.0, 2.0, 5.0])
        if rng.random() < 0.3:
            # transactions that go on for longer than a round
            pause(rng, spec['actors'], 0.5, (0.5, 1.5, 3.0, 7.0))
        late = [a for a in spec['actors'] if a.get('script')]
        if len(late) > 1 and rng.random() < 0.2:
            # one that began before the others and commits after them
            for a in late:
                for r in a['script']:
                    r['think'] = rng.choice([0.0, 0.01, 0.3])
            r = late[0]['script'][0]
            late[0]['script'] = [r]
            r['tx'] = 'atomic'
            r['ops'].append({'op': 'pause', 's': rng.choice([2, 3]) * spec['interval'] * (spec['jitter'] or 1)})
        elif rng.random() < 0.2:
            # a daemon that has been idle for long before the last change
            for a in spec['actors']:
                if a.get('script'):
                    a['script'][-1]['think'] = 120.0 if spec['interval'] < 5 else 200.0
        if 'faults' in spec:
            k = spec['faults']['kinds']
            k['sleep'] = rng.choice([['crash'], ['interrupt'], ['crash', 'interrupt'], ['clock_jump'], ['crash', 'clock_jump']])
            if rng.random() < 0.3:
                k['sql'] = k['sql'] + ['clock_jump']
            if rng.random() < 0.3:
                k['sql'] = k['sql'] + ['interrupt']
        return spec

    def fault_filter(self, run):
        if run.spec.get('only_daemon'):
            return lambda a, op: a.role == 'daemon' and not a.data.get('supervisor')
        return lambda a, op: not a.data.get('supervisor') and not (op.kind == 'sleep' and a.role == 'client')

    def start(self, run):
        for c in self.checkers:
            run.tracker.checkers.append(c(run))
        for a in run.spec['actors']:
            run.add_client(a['name'], a['script'])
        if not run.spec['once']:
            run.kernel.spawn('daemon', self.daemon(run), role='daemon', background=True)

    def command(self, run, **kw):
        from django.core.management import call_command
        call_command('denorm_daemon', foreground=True, interval=run.spec['interval'],
                     pidfile=os.path.join(run.world.scratch, run.world.name + '.no-such-pid'), **kw)

    def daemon(self, run):
        def main(actor):
            import time
            from django.db import Error
            k = run.kernel
            while True:
                actor.data['supervisor'] = False
                actor.data['jitter'] = run.spec.get('jitter')
                try:
                    self.command(run)
                    k.violation('daemon-left', 'the daemon ended by itself')
                    return
                except K.SimAbort:
                    raise
                except (K.SimCrash, KeyboardInterrupt, SystemExit) as e:
                    if k.aborting:
                        raise K.SimAbort()
                    k.probe('daemon_killed' if isinstance(e, K.SimCrash) else 'daemon_interrupted')
                except Error as e:
                    if actor.dead or k.aborting:
                        raise
                    k.log(actor, 'daemon-error', type(e).__name__)
                    k.probe('daemon_failed')
                    run.error(actor, e, 'daemon')
                except Exception as e:
                    if actor.dead or k.aborting:
                        raise
                    run.unexpected(actor, e)
                    return
                actor.data['comp'] = {}
                actor.data['tx'] = None
                actor.data['jitter'] = None
                actor.data['supervisor'] = True
                k.restart(actor)
                time.sleep(1.0)
        return main

    def finish(self, run):
        k = run.kernel
        if run.spec['once']:
            run.settle(fn=lambda: self.command(run, run_once=True))
        else:
            k.faults_on = False
            k.max_steps = k.nsteps + 8000
            bound = 35 + 3 * run.spec['interval'] * (run.spec.get('jitter') or 1.0)
            try:
                k.run(until=lambda: False, max_time=k.now + bound)
            except K.StepLimit:
                k.violation('no-termination', 'the daemon does not settle: more than 8000 operations while nobody writes')
        for blocked, holders, now, roles in k.idle_blocks:
            if 'daemon' in roles and not k.violations:
                k.violation('blocked-by-idle-daemon', '%s had to wait for the daemon, which was doing nothing' % ', '.join(blocked))
        run.check_settled()
        k.probe('daemon_rounds_checked')


def junk(f, n):
    """A wrong value for a denormalized field."""
    if f.kind in schema.READS:
        return schema.READS[f.kind](zones.VALUES[f.kind][n % len(zones.VALUES[f.kind])])
    if f.kind == 'bool':
        return n % 2 == 0
    return ['', 'junk', '?', 'x', 'old', 'zz'][n]


class Rebuild(Scenario):
    """C11: wrong values everywhere, interrupted rebuilds, then a complete one."""
    prop = 'C11'
    zones = ['forum', 'forum', 'agg', 'skip', 'skip3', 'pks', 'chain', 'm2m', 'misc', 'abstract', 'cols', 'codes', 'types']

    def generate(self, world, rng, seed):
        zone = rng.choice(self.zones)
        infos = world.schema.zone_models(zone)
        spec = {'prop': self.prop, 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS)}
        cols = [(i.name, f.name) for i in infos for f in i.derived if f.denorm_kind in ('func', 'agg')]
        links = [(i.name, m.name) for i in infos for m in i.m2ms if m.derived]
        plain = {i.name: i for i in infos if i.pk.auto and not any(f.unique for f in i.writable) and any(f.denorm_kind and f.kind != 'fk' for f in i.derived)}
        only = None
        if rng.random() < 0.4:
            m, f = rng.choice(cols + links)
            only = [m, rng.choice([None, f])]
            cols = [c for c in cols if c[0] == m and only[1] in (None, c[1])]
            links = [c for c in links if c[0] == m and only[1] in (None, c[1])]
        steps = []
        for n in range(rng.choice([0, 1, 3, 6, 10])):
            r = rng.random()
            if cols and (r < 0.7 or not links):
                m, f = rng.choice(cols)
                steps.append(['col', m, rng.randrange(6), f, rng.randrange(6)])
            elif links:
                m, f = rng.choice(links)
                steps.append(['link', m, f, rng.randrange(6), rng.randrange(6), rng.random() < 0.5])
        many = [c for c in cols if c[0] in plain]
        if many and zone != 'forum' and rng.random() < 0.04:
            m, f = rng.choice(many)
            steps.append(['many', m, rng.choice([60, 110]), workload.Gen(world, zone, rng).vals(plain[m], every=True), f, rng.randrange(6)])
            spec['crowd'], spec['max_steps'] = True, 60000
        steps.append(['unmark', rng.choice([1, 1, 2, 3])])
        for n in range(rng.choice([0, 0, 2, 5])):
            steps.append(['mark', rng.choice(infos).name, rng.randrange(8)])
        spec['steps'] = steps
        actors = [{'name': 'r0', 'role': 'rebuild', 'times': 1, 'only': only, 'how': rng.randrange(4)}]
        mode = rng.choice(['plain', 'faults', 'faults', 'clients', 'clients+faults'])
        if mode.startswith('clients'):
            g = workload.Gen(world, zone, rng)
            for i in range(rng.choice([1, 2])):
                actors.append({'name': 'c%d' % i, 'role': 'client', 'script': g.script(rng.randint(1, 3))})
            spec['strategy'] = {'horizon': 250}
        if mode.endswith('faults'):
            spec['faults'] = fault_config(rng, rate=(0.005, 0.01, 0.03))
        if rng.random() < 0.2:
            actors.append({'name': 'r1', 'role': 'rebuild', 'times': 1, 'only': only, 'how': rng.randrange(4)})
            spec['strategy'] = {'horizon': 250}
        rng.shuffle(actors)
        spec['actors'] = actors
        return spec

    def nontrivial(self, spec, res):
        return res['probes'].get('values_corrupted', 0) > 0 or res['nfaults'] > 0

    def corrupt(self, run, actor, state):
        from django.db import connection
        w, qn, k = run.world, run.world.qn, run.kernel
        c = workload.Client(run, actor)
        c.deleted = False
        dirty = qn(w.dirty_table)
        for s in run.spec['steps']:
            try:
                if s[0] == 'col':
                    info = c.info(s[1])
                    f = [x for x in info.fields if x.name == s[3]][0]
                    pk = run.reg.get(s[1], s[2])
                    if f.kind == 'fk':
                        v = run.reg.get(f.target, s[4]) if s[4] else None
                        if f.to and v is not None:
                            v = run.reg.codes[f.target][v]
                    elif f.kind == 'int':
                        v = [0, 1, 7, 50, 3, 2][s[4]]
                    else:
                        v = junk(f, s[4])
                    c.raw('UPDATE %s SET %s = %%s WHERE %s = %%s' % (qn(info.table), qn(f.column), qn(info.pk.column)), [v, c.dbpk(s[1], pk)])
                    k.probe('values_corrupted')
                elif s[0] == 'many':
                    info = c.info(s[1])
                    f = [x for x in info.fields if x.name == s[4]][0]
                    kw = c.resolve(info, s[3])
                    info.model._base_manager.bulk_create([info.model(**dict(c.resolve(info, {}, new=True), **kw)) for _ in range(s[2])])
                    if f.kind != 'fk':
                        c.raw('UPDATE %s SET %s = %%s' % (qn(info.table), qn(f.column)), [
                            [0, 1, 7, 50, 3, 2][s[5]] if f.kind == 'int' else junk(f, s[5])])
                    k.probe('many_rows_corrupted')
                elif s[0] == 'link':
                    info = c.info(s[1])
                    mm = [x for x in info.m2ms if x.name == s[2]][0]
                    t = [x for x in w.schema.zone_tables(run.zone) if x.name == '%s.%s' % (s[1], s[2])][0]
                    a, b = run.reg.get(s[1], s[3]), run.reg.get(mm.target, s[4])
                    c.raw('DELETE FROM %s WHERE %s = %%s AND %s = %%s' % ((qn(t.table),) + tuple(map(qn, t.columns))), [a, b])
                    if s[5]:
                        c.raw('INSERT INTO %s (%s, %s) VALUES (%%s, %%s)' % ((qn(t.table),) + tuple(map(qn, t.columns))), [a, b])
                    k.probe('values_corrupted')
                elif s[0] == 'unmark':
                    c.raw('DELETE FROM %s WHERE id %% %%s = 0' % dirty if w.vendor == 'sqlite3' else 'DELETE FROM %s WHERE MOD(id, %%s) = 0' % dirty, [s[1]])
                elif s[0] == 'mark':
                    pk = run.reg.get(s[1], s[2])
                    c.raw('INSERT INTO %s (content_type_id, object_id) VALUES (%%s, %%s)' % dirty, [w.cts[s[1]], str(pk)])
            except workload.Skip:
                pass

    def rebuild(self, only, how):
        from denorm import denorms
        from django.core.management import call_command
        if only is None:
            label = ['simapp'] if how >= 2 else []      # all of an application
            if how % 2:
                return lambda: call_command('denorm_rebuild', *label, verbosity=how)
            return lambda: denorms.rebuildall(verbose=how >= 2, model_name=label[0] if label else None)
        model = [only[0], 'simapp.' + only[0]][how % 2]
        if only[1] is None:
            if how < 2:
                return lambda: call_command('denorm_rebuild', model)
            return lambda: denorms.rebuildall(model_name=model)
        return lambda: denorms.rebuildall(model_name=model, field_name=only[1])

    def start(self, run):
        k = run.kernel
        k.spawn('setup', run.guarded(lambda a, s: self.corrupt(run, a, s)), faults_ok=False)
        k.run()
        run.tracker.refresh()
        run.tracker.checkers.append(monitors.BaseConserved(run))
        run.rebuilt = []
        for a in run.spec['actors']:
            if a['role'] == 'client':
                run.add_client(a['name'], a['script'])
            else:
                self.add(run, a)

    def add(self, run, a):
        fn = self.rebuild(a['only'], a['how'])

        def main(actor, state):
            if not state.get('done'):
                state['done'] = True
                if run.flush(actor, fn):
                    run.rebuilt.append(a['name'])
        run.kernel.spawn(a['name'], run.guarded(main), role='rebuild')

    def finish(self, run):
        a = [x for x in run.spec['actors'] if x['role'] == 'rebuild']
        if not a:
            return
        clients = len(a) < len(run.spec['actors'])
        if len(run.rebuilt) == len(a) and not clients:
            run.check_settled()
            run.kernel.probe('rebuilds_checked_directly')
        elif run.rebuilt:
            run.settle()
            run.check_settled()
            run.kernel.probe('concurrent_rebuilds_checked')
        else:
            run.settle(fn=self.rebuild(a[0]['only'], a[0]['how']), max_steps=20000)
            run.check_settled()
            run.kernel.probe('repeated_rebuilds_checked')


SCENARIOS = [C03(), Middleware(), Daemon(), Rebuild()]
