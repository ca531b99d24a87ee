"""The scenarios: per property, how runs are generated and what decides them."""
from . import monitors, workload, zones
from .runner import Scenario, fmt

ALL_ZONES = ['forum', 'forum', 'forum', 'agg', 'skip', 'skip2', 'skip3', 'cached', 'pks', 'chain', 'm2m', 'm2m', 'misc', 'abstract', 'cols', 'codes', 'types']
FUNC_ZONES = ['forum', 'forum', 'forum', 'skip', 'skip2', 'skip3', 'pks', 'chain', 'chain', 'm2m', 'm2m', 'misc', 'abstract', 'cols', 'codes', 'types']
NEAR = [('forum', ['Att', 'Item', 'Group']), ('forum', ['Att', 'Item', 'Group', 'Person']), ('forum', ['Item', 'Person', 'Group']),
        ('m2m', ['ML', 'MR', 'MP']), ('m2m', ['MQ', 'MP']), ('chain', ['D1', 'D2', 'D3']), ('skip', ['SSrc', 'SSkip']), ('pks', ['PT', 'PC'])]
VARIANTS = 5


def fault_config(rng, rate=(0.01, 0.03, 0.08), kinds=None, maxf=(1, 1, 2, 3, 6), extra=()):
    """Which faults this run gets: a random selection (swarm) at a random rate."""
    sql = ['stmt_error', 'deadlock', 'conn_lost', 'conn_lost_after', 'crash', 'crash_after', 'stall']
    com = ['stmt_error', 'conn_lost', 'conn_lost_after', 'crash', 'crash_after', 'conn_lost_after', 'crash_after', 'stall']
    con = ['connect_fail', 'crash']
    if kinds is not None:
        sql = [x for x in sql if x in kinds]
        com = [x for x in com if x in kinds]
        con = [x for x in con if x in kinds]
    sql += extra
    if rng.random() < 0.5 and len(sql) > 1:
        sql = rng.sample(sql, rng.randrange(1, len(sql)))
    if rng.random() < 0.5 and len(com) > 1:
        com = rng.sample(com, rng.randrange(1, len(com)))
    return {'rate': rng.choice(rate), 'max': rng.choice(maxf), 'kinds': {'sql': sql, 'commit': com, 'connect': con, 'rollback': com}}


def pause(rng, actors, p, lengths):
    for a in actors:
        for r in a.get('script', ()):
            if r['tx'] != 'auto' and rng.random() < p:
                r['ops'].insert(rng.randint(1, len(r['ops'])), {'op': 'pause', 's': rng.choice(lengths)})


def rebuild(model):
    from denorm import denorms
    return lambda: denorms.rebuildall(model_name=model)


class Mixed(Scenario):
    """Clients and flushing processes; what is checked depends on the property."""

    def __init__(self, prop, zones, clients=(1, 3), flushers=(0, 2), requests=(1, 4), faults=0.5, checkers=(), serial=0.0,
                 gen=None, final=True, kinds=None, fault_kw=None, strict=False, flush_ops=0.0, times=(1, 3), slow=0.0, near=0.0, inner=0.0, crowd=0.0, rebuild=0.0):
        self.prop = prop
        self.zones = zones
        self.clients = clients
        self.flushers = flushers
        self.requests = requests
        self.faults = faults
        self.checkers = checkers
        self.serial = serial
        self.gen = gen or {}
        self.final = final
        self.kinds = kinds
        self.fault_kw = fault_kw or {}
        self.strict = strict
        self.flush_ops = flush_ops
        self.times = times
        self.slow = slow
        self.near = near
        self.inner = inner
        self.crowd = crowd
        self.rebuild = rebuild

    def generate(self, world, rng, seed):
        zone = rng.choice(self.zones)
        spec = {'prop': self.prop, 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS)}
        serial = rng.random() < self.serial
        gen = dict(self.gen)
        near = rng.random() < self.near
        if near:
            # few rows of few models that refer to each other
            zone, gen['models'] = rng.choice(NEAR)
            spec['zone'] = zone
            gen['refs'] = 3
        g = workload.Gen(world, zone, rng, no_bulk=world.bulk_unsafe, **gen)
        n = rng.randint(*self.clients)
        actors = []
        for i in range(n):
            script = g.script(rng.randint(*self.requests) + (3 if near else 0))
            if self.inner and (n == 1 or self.flushers[1]):
                # flushes in the middle of a transaction
                for r in script:
                    if r['tx'] != 'auto' and rng.random() < self.inner:
                        r['ops'].insert(rng.randrange(len(r['ops']) + 1), {'op': 'flush'})
            if self.flush_ops:
                out = []
                for r in script:
                    out.append(r)
                    if rng.random() < self.flush_ops:
                        out.append({'tx': 'auto', 'ops': [{'op': 'flush'}]})
                script = out
            if i == 0 and self.crowd and rng.random() < self.crowd:
                at = rng.randrange(len(script) + 1)
                script[at:at] = g.crowd(flush=bool(self.flush_ops))
                spec['crowd'], spec['max_steps'] = True, 60000
            actors.append({'name': 'c%d' % i, 'role': 'client', 'script': script})
        for i in range(rng.randint(*self.flushers)):
            actors.append({'name': 'f%d' % i, 'role': 'flusher', 'times': rng.randint(*self.times) + (3 if near else 0),
                           'gap': rng.choice([0.005, 0.02, 0.05] if near else [0, 0, 0, 0.005, 0.02])})
        if rng.random() < self.rebuild:
            names = gen.get('models') or [i.name for i in world.schema.zone_models(zone) if any(f.derived for f in i.derived + i.m2ms)]
            actors.append({'name': 'r0', 'role': 'rebuild', 'times': rng.choice([1, 2]), 'gap': rng.choice([0, 0.005, 0.02]),
                           'model': rng.choice(names + [None])})
        if len(actors) > 1:
            pause(rng, actors, 0.08, (0.01, 0.1, 1.0))
        rng.shuffle(actors)
        spec['actors'] = actors
        if not serial:
            spec['strategy'] = {'horizon': 40 + 60 * n}
        if rng.random() < self.faults:
            spec['faults'] = fault_config(rng, kinds=self.kinds, **self.fault_kw)
        elif self.strict:
            spec['strict'] = n == 1
        if rng.random() < 0.3:
            spec['restart_delay'] = rng.choice([0.005, 0.05, 1.0])
        if rng.random() < 0.3:
            spec['flush'] = rng.choice(['module', 'verbose', 'command'])
        if near or rng.random() < self.slow:
            # functions that take their time: others change what they have read before their values are stored
            fs = sorted('%s.%s' % (i.name, f.name) for i in world.schema.zone_models(zone) for f in i.derived + i.m2ms
                        if (f.denorm_kind in ('func', 'cached') if hasattr(f, 'denorm_kind') else f.derived))
            if near:
                ms = [x for x in gen['models'] if any(f.startswith(x + '.') for f in fs)]
                m = rng.choice(ms[:1] * 2 + ms) + '.'
                spec['slow'] = {f: rng.choice([0.02, 0.1]) for f in fs if f.startswith(m)}
            else:
                spec['slow'] = {f: rng.choice([0.005, 0.02, 0.1, 0.5]) for f in rng.sample(fs, min(len(fs), rng.choice([1, 2, 4])))}
        return spec

    def start(self, run):
        for c in self.checkers:
            run.tracker.checkers.append(c(run))
        for a in run.spec['actors']:
            if a['role'] == 'client':
                run.add_client(a['name'], a['script'])
            elif a['role'] == 'rebuild':
                run.add_flusher(a['name'], a['times'], a['gap'], fn=rebuild(a['model']))
            else:
                run.add_flusher(a['name'], a['times'], a['gap'])

    def finish(self, run):
        if self.final:
            run.settle()
            run.check_settled()


class C01(Mixed):
    """One client's history; every completed flush is checked."""

    def __init__(self):
        super().__init__('C01', ALL_ZONES, clients=(1, 1), flushers=(0, 0), requests=(2, 10), faults=0.0, serial=1.0,
                         strict=True, flush_ops=0.15, crowd=0.03)

    def generate(self, world, rng, seed):
        if world.bulk_unsafe:
            self.zones = ['chain', 'pks', 'm2m', 'skip', 'misc', 'chain', 'abstract', 'types']
        return super().generate(world, rng, seed)

    def nontrivial(self, spec, res):
        return res['probes'].get('commits', 0) > 0

    def after_request(self, run, actor, req, res, commits):
        if req['ops'][0]['op'] == 'flush' and res == 'ok':
            run.check_settled()


class C02(Mixed):
    """Writers fail in every way; nothing rolled back shows, nothing committed is forgotten."""

    def __init__(self):
        super().__init__('C02', ALL_ZONES, clients=(1, 3), flushers=(0, 0), requests=(1, 4), faults=0.85,
                         fault_kw={'rate': (0.03, 0.08, 0.2), 'extra': ['mark_error'] * 3}, inner=0.15)

    def prepare(self, world):
        world.enable_mark_faults()
        super().prepare(world)

    def generate(self, world, rng, seed):
        spec = super().generate(world, rng, seed)
        # savepoints that are all rolled back inside a transaction that commits
        for a in spec['actors']:
            for r in a.get('script', ()):
                if r['tx'] == 'atomic' and rng.random() < 0.3:
                    r['ops'] = [{'op': 'sp', 'rb': True, 'ops': r['ops']}]
                    r['void'] = True
        return spec

    def after_request(self, run, actor, req, res, commits):
        void = req['tx'] == 'rollback' or (req.get('void') and res == 'ok')
        if void and commits:
            run.kernel.violation('trace-of-rollback', '%s rolled back all its work, yet something of it was committed' % actor.name)
        if void or res == 'error':
            run.kernel.probe('rollbacks_checked')
            self.compare(run, actor, 'rollback')

    def compare(self, run, actor, what):
        try:
            d = run.tracker.unchanged()
        except Exception as e:
            if 'locked' in str(e):
                return
            raise
        if d is not None:
            run.kernel.violation('trace-of-rollback', 'after a %s of %s the committed state differs: rows %r, pending %r' % (
                what, actor.name, d[0][:4], d[1][:4]))

    def finish(self, run):
        self.compare(run, run.kernel.actors[0], 'run')
        super().finish(run)


SCENARIOS = {}


def register():
    for s in (C01(), C02(),
              Mixed('C04', FUNC_ZONES, clients=(1, 4), flushers=(1, 3), requests=(1, 3), faults=0.4,
                    kinds=['stall', 'deadlock', 'stmt_error'], slow=0.35, near=0.3, inner=0.1, crowd=0.01),
              Mixed('C05', FUNC_ZONES, clients=(1, 3), flushers=(1, 3), requests=(1, 4), faults=0.5, checkers=(monitors.BaseConserved,),
                    final=False, slow=0.5, near=0.5, rebuild=0.3),
              Mixed('C06', ['agg', 'agg', 'agg', 'forum', 'misc', 'abstract', 'cols', 'skip3', 'codes'], clients=(1, 4), flushers=(0, 1), requests=(1, 4), faults=0.5,
                    checkers=(monitors.AggExact,), final=False),
              Mixed('C07', ['forum', 'forum', 'cached', 'skip2', 'pks', 'm2m', 'misc', 'cols', 'cols', 'codes', 'types'], clients=(1, 3), flushers=(0, 1), requests=(1, 4), faults=0.4,
                    checkers=(monitors.Keys,), final=False)):
        SCENARIOS[s.prop] = s
    from . import scen_cache, scen_daemon, scen_flush, scen_install, scen_save, scen_work
    for m in (scen_flush, scen_cache, scen_install, scen_work, scen_save, scen_daemon):
        for s in m.SCENARIOS:
            SCENARIOS[s.prop] = s


register()
