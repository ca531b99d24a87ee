"""C08: readers and writers share a cache that may lose anything."""
from . import monitors
from .scenarios import Mixed

CACHED = {'CacheA': 'cdata', 'CacheT': 'names', 'CacheX': 'plain', 'CacheY': 'plain'}


class CacheReads(monitors.Keys):
    """Every value read outside a transaction must be that of a state committed when the key was read, or of a later one."""

    def __init__(self, run):
        super().__init__(run)
        self.states = [run.tracker.snap]
        self.tables = {run.world.schema.infos[m].table: m for m in CACHED}
        run.readers.append(self)

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        from . import zones
        if not rows:
            return
        b, n = zones.key_views(self.w, self.zone, before), zones.key_views(self.w, self.zone, after)
        for row, (key, view, link) in n.items():
            old = b.get(row)
            if old is not None and old[1] != view and old[2] == link and old[0] == key:
                self.unseen(a, row, w)
        self.states.append(self.run.tracker.snap)

    def on_saved(self, a, row, before):
        pass

    def on_select(self, a, table):
        m = self.tables.get(table)
        if m is not None:
            a.data.setdefault('selected', {})[m] = len(self.states) - 1

    def value(self, s, info, obj):
        if info.name == 'CacheA':
            b = s['CacheB'].get(obj.b_id)
            return None if b is None else '%s:%s' % (b['data'], b['more'])
        if info.name != 'CacheT':
            return s['CacheB'][obj.b_id]['data'] if obj.b_id in s['CacheB'] else ''
        return ','.join(sorted(u['name'] for u in s['CacheU'].values() if u['t_id'] == obj.pk)) or 'none'

    def loaded(self, client, info, obj):
        from django.db import connection
        if connection.in_atomic_block or info.name not in CACHED or self.off:
            return
        a = client.actor
        have = getattr(obj, CACHED[info.name])
        since = a.data['selected'][info.name]
        allowed = [self.value(s, info, obj) for s in self.states[since:]]
        self.k.probe('cached_values_checked')
        if have not in allowed:
            earlier = any(self.value(s, info, obj) == have for s in self.states[:since])
            self.k.violation('stale-cached-value' if earlier else 'wrong-cached-value', '%s read %s %s: the value is %r, should be %s' % (
                a.name, info.name, obj.pk, have, ' or '.join(sorted(set(map(repr, allowed))))))


class Cached(Mixed):
    def __init__(self):
        super().__init__('C08', ['cached'], clients=(1, 3), flushers=(0, 0), requests=(1, 4), faults=0.6, checkers=(CacheReads,), final=False)

    def generate(self, world, rng, seed):
        spec = super().generate(world, rng, seed)
        hot = rng.choice([1, 2, 6])
        narrow = rng.random() < 0.6         # few different values: the same ones come back
        hows = rng.choice([['get', 'get', 'get', 'list', 'refresh'], ['refresh'], ['refresh', 'get']])

        def read():
            return {'op': 'read', 'm': rng.choice(sorted(CACHED)), 'r': rng.randrange(hot), 'slot': rng.randrange(2),
                    'how': rng.choice(hows)}
        for a in spec['actors']:
            for r in a['script']:
                self.own_link(r['ops'])
                if narrow:
                    self.narrow(r['ops'])
                for n in range(rng.choice([0, 0, 1, 2])):
                    r['ops'].insert(rng.randrange(len(r['ops']) + 1), read())
        if rng.random() < 0.35:
            # back and forth between two values of one row, read all the time
            hot = 1
            m = rng.choice(['CacheB', 'CacheU'])
            k = 'data' if m == 'CacheB' else 'name'
            spec['actors'] = [{'name': 'c%d' % i, 'role': 'client', 'script': [
                {'tx': rng.choice(['auto', 'auto', 'atomic', 'rollback']), 'ops': [
                    {'op': rng.choice(['save', 'qupdate', 'raw_update']), 'm': m, 'r': 0, 'rs': [0, 1], 'v': {k: rng.choice('ab')}}]}
                for _ in range(rng.randint(3, 8))]} for i in range(rng.choice([1, 2]))]
            if rng.random() < 0.4:
                # the row itself is saved every now and then, as it is
                own = rng.choice(['CacheA', 'CacheX', 'CacheY']) if m == 'CacheB' else 'CacheT'
                for a in spec['actors']:
                    for i in range(rng.choice([1, 2, 3])):
                        a['script'].insert(rng.randrange(len(a['script']) + 1), {'tx': 'auto', 'ops': [{'op': 'save', 'm': own, 'r': 0, 'v': {}}]})
            for a in spec['actors']:
                for r in a['script']:
                    r['ops'] = [{x: y for x, y in o.items() if x != ('r' if o['op'] == 'qupdate' else 'rs')} for o in r['ops']]
        for i in range(rng.choice([1, 1, 2, 3])):
            spec['actors'].append({'name': 'r%d' % i, 'role': 'client', 'script': [
                {'tx': 'auto', 'ops': [read() for _ in range(rng.choice([1, 2, 3]))]} for _ in range(rng.randint(1, 4) if hot > 1 else rng.randint(3, 6))]})
        rng.shuffle(spec['actors'])
        spec['strategy'] = {'horizon': 200}
        if 'faults' in spec:
            kinds = ['cache_evict', 'cache_flush', 'cache_drop', 'crash']
            spec['faults']['kinds']['cache'] = rng.sample(kinds, rng.randint(1, 4))
            if rng.random() < 0.5:
                spec['faults']['kinds'] = {'cache': spec['faults']['kinds']['cache']}
                spec['faults']['rate'] = rng.choice([0.05, 0.2, 0.5])
        return spec

    def narrow(self, ops):
        for o in ops:
            if o['op'] == 'sp':
                self.narrow(o['ops'])
            for v in [o.get('v') or {}] + o.get('rows', []):
                for k, x in v.items():
                    if k in ('data', 'name') and x is not None:
                        v[k] = 'ab'[len(x) % 2]
                    elif k == 'more':
                        v[k] = x % 2

    def own_link(self, ops):
        """Documented: moving the row itself by other means than a full save does not change its key."""
        for o in ops:
            if o['op'] == 'sp':
                self.own_link(o['ops'])
            if o.get('m') in CACHED and o['op'] in ('qupdate', 'raw_update', 'save_uf'):
                o['v'].pop('b_id', None)


SCENARIOS = [Cached()]
