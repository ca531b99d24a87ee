"""C13 and C14: how much a flush does."""
from . import monitors, workload, zones
from .monitors import ID
from .runner import Scenario
from .scenarios import FUNC_ZONES, VARIANTS, Mixed

# For every denormalized model: the tables it depends on and the columns it does not care about there.
IGNORED = {
    'SSkip': {'SSrc': {'hits', 'stamp'}, 'SSkip': {'touched'}},
    'SDepA': {'SSrc2': {'hits'}, 'SDepA': set()},
    'SDepB': {'SSrc2': {'extra'}, 'SDepB': set()},
    'SField': {'SField': {'seen', 'touched'}},
    'SLoopA': {'SLoopB': {'stamp'}, 'SLoopA': {'stamp'}},
    'SLoopB': {'SLoopA': {'stamp', 'kids'}, 'SLoopB': {'stamp'}},
    'XA': {'XA': {'a'}, 'XC': {'b', 'c'}},
    'XB': {'XB': {'b'}, 'XC': {'a', 'c'}},
    'XD': {'XD': {'c'}},
    'XE': {'XE': set(), 'XC': {'c', 'pa_id', 'pb_id'}},
    'KSrc': {'KMany': {'note'}, 'KSrc': {'stamp'}, 'KMany.srcs': set()},
    'KMany': {'KSrc': {'hits', 'names', 'stamp'}, 'KMany': set(), 'KMany.srcs': set()},
    'KGen': {'KTag': {'weight', 'seen'}, 'KGen': set()},
}
SKIPPED = {
    'SSrc': ['hits'], 'SSrc2': ['hits', 'extra'], 'SField': ['seen'], 'KSrc': ['hits'], 'KMany': ['note'], 'KTag': ['weight'],
    'XA': ['a'], 'XB': ['b'], 'XC': ['a', 'b'], 'XD': ['c', 'a'],
    'SSkip': [], 'SLoopA': [], 'SLoopB': [],
}


def columns(world, zone, before, after):
    """Changed columns: a set of (table, column); a row that came or went counts as column '*'."""
    out = set()
    for t in world.schema.zone_tables(zone):
        b, n = before[t.name], after[t.name]
        if b == n:
            continue
        if t.m2m:
            out.add((t.name, '*'))
            continue
        for pk in b.keys() | n.keys():
            x, y = b.get(pk), n.get(pk)
            if x is None or y is None:
                out.add((t.name, '*'))
            elif x != y:
                out.update((t.name, c) for c in x if x[c] != y[c])
    return out


class Skips(monitors.Checker):
    def __init__(self, run):
        super().__init__(run)
        self.reset()

    def reset(self):
        self.changes = set()
        self.computed = set()

    def on_compute(self, a, row, name):
        if a.data.get('flushing'):
            self.computed.add((row[0], name))

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        # a row deleted and inserted again came and went, whatever the states before and after show
        again = {(m, '*') for m in a.data.get('again') or ()}
        if not rows and not again:
            return
        c = columns(self.w, self.zone, before, after) | again
        self.changes |= c
        if 'KKey' not in after or a.data.get('own_key') or again:
            return
        b, n = zones.key_views(self.w, self.zone, before), zones.key_views(self.w, self.zone, after)
        for row, (key, view, link) in n.items():
            old = b.get(row)
            if old is None:
                continue
            if old[1:] == (view, link):
                self.k.probe('keys_left_alone')
                if old[0] != key:
                    self.k.violation('key-changed', 'the key of %s %s changed although only skipped fields changed: %s' % (
                        row[0], row[1], sorted(c)))

    def judge(self):
        for model, name in sorted(self.computed):
            reasons = [(t, c) for t, c in self.changes if t in IGNORED[model] and c not in IGNORED[model][t]]
            if not reasons:
                self.k.violation('recalculated', 'a flush recalculated %s.%s although nothing changed but %s' % (
                    model, name, ', '.join('%s.%s' % x for x in sorted(self.changes)) or 'nothing'))
                return
        self.k.probe('flushes_judged')
        if self.changes and not self.computed:
            self.k.probe('flushes_without_work')


def flat(ops):
    for o in ops:
        yield o
        yield from flat(o.get('ops') or ())


class SkipLists(Mixed):
    """C13: one change at a time, a flush after each."""

    def __init__(self):
        super().__init__('C13', ['skip', 'skip2', 'skip3'], clients=(1, 1), flushers=(0, 0), faults=0.0)

    def generate(self, world, rng, seed):
        zone = rng.choice(self.zones)
        spec = {'prop': 'C13', 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS), 'strict': True}
        g = workload.Gen(world, zone, rng)
        script = []
        focus = rng.choice([0.3, 0.7, 0.9])
        for _ in range(rng.randint(3, 12)):
            while True:
                op = g.op()
                if op['op'] in ('save', 'save_uf', 'qupdate', 'raw_update', 'stale') and rng.random() < focus:
                    s = SKIPPED.get(op['m'])
                    if s is None:
                        continue
                    info = world.schema.infos[op['m']]
                    cols = rng.sample(s, rng.randint(0 if op['op'] in ('save', 'stale') else 1, len(s))) if s else []
                    if not cols and op['op'] not in ('save', 'stale'):
                        continue
                    op['v'] = {f.attname: g.val(info, f) for f in info.writable if f.attname in cols}
                break
            if op['op'] == 'stale':
                op['op'] = 'save'
            script.append({'tx': rng.choice(['auto', 'auto', 'atomic', 'rollback']), 'ops': [op]})
            script.append({'tx': 'auto', 'ops': [{'op': 'flush'}]})
        spec['actors'] = [{'name': 'c0', 'role': 'client', 'script': script}]
        return spec

    def nontrivial(self, spec, res):
        return res['probes'].get('commits', 0) > 0

    def start(self, run):
        c = Skips(run)
        run.tracker.checkers.append(c)
        run.skips = c
        script = run.spec['actors'][0]['script']
        for r in script:
            r['own'] = any(o.get('m') == 'KKey' for o in r['ops'])
            r['again'] = sorted({o['m'] for o in flat(r['ops']) if o['op'] == 'reinsert'})
        run.add_client('c0', script)

    def before_request(self, run, actor, req):
        actor.data['own_key'] = req.get('own')
        actor.data['again'] = req.get('again')

    def after_request(self, run, actor, req, res, commits):
        if req['ops'][0]['op'] == 'flush':
            if res == 'ok':
                run.skips.judge()
                run.check_settled()
            run.skips.reset()


class Work(monitors.Checker):
    """What a flush recalculated, how often, and why."""

    def __init__(self, run):
        super().__init__(run)
        self.reset()

    def reset(self):
        self.count = {}     # row -> recalculations per function
        self.changed = []   # per commit: changed rows
        self.states = []
        self.commits = 0
        self.marked = {}    # row -> how often it became pending
        for r in {(m, ID(o)) for m, o in self.run.tracker.marks.values() if o is not None}:
            self.marked[r] = 1

    def on_compute(self, a, row, name):
        if a.data.get('flushing'):
            c = self.count.setdefault(row, {})
            c[name] = c.get(name, 0) + 1

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        if a.data.get('flushing'):
            self.commits += 1
            if rows:
                self.changed.append((rows, before, after))
            for r in {(amarks[i][0], ID(amarks[i][1])) for i in amarks if i not in bmarks and amarks[i][1] is not None}:
                self.marked[r] = self.marked.get(r, 0) + 1

    def judge(self, initial):
        k = self.k
        affected = set(initial)
        for rows, before, after in self.changed:
            affected |= set(rows)
            for s in (before, after):
                one = neighbours(self.w, self.zone, s, rows)
                affected |= one | neighbours(self.w, self.zone, s, one)     # there may be a row in between
        for row in sorted(self.count):
            n = max(self.count[row].values())
            if row not in affected:
                k.violation('unaffected', 'a flush recalculated %s %s, which was neither pending nor affected by anything the flush changed' % row)
                return
            k.probe('rows_judged')
            m = self.marked.get(row, 0)
            if n > 1:
                k.probe('rows_judged_again')
            if n > 2 * m and not self.run.spec.get('flush_tx'):     # inside one transaction nobody sees the markers in between
                k.violation('too-much-work', 'recalculated %s %s %d times though it became pending %d times' % (row[0], row[1], n, m))
                return


def neighbours(world, zone, s, rows):
    """Rows linked to any of these by a foreign key, a many-to-many relation or a generic relation, either way."""
    out = set()
    for info in world.schema.zone_models(zone):
        m = info.name
        fks = [f for f in info.fields if f.target and f.target != 'ContentType']
        generic = [f.column for f in info.fields if f.name == 'object_id']
        by = {}      # rows by the column a foreign key refers to
        for f in fks:
            if f.to:
                column = [x.column for x in world.schema.infos[f.target].fields if x.attname == f.to][0]
                by[f.name] = {r[column]: pk for pk, r in s[f.target].items()}
        for pk, r in s[m].items():
            me = (m, ID(pk))
            for f in fks:
                if r[f.column] is not None:
                    other = (f.target, ID(by[f.name].get(r[f.column]) if f.to else r[f.column]))
                    if me in rows:
                        out.add(other)
                    if other in rows:
                        out.add(me)
            if generic:
                for t in world.schema.infos:        # not every engine looks at the type
                    other = (t, ID(r[generic[0]]))
                    if me in rows:
                        out.add(other)
                    if other in rows:
                        out.add(me)
        for mm in info.m2ms:
            if mm.auto:
                for a, b in s['%s.%s' % (m, mm.name)]:
                    x, y = (m, ID(a)), (mm.target, ID(b))
                    if x in rows:
                        out.add(y)
                    if y in rows:
                        out.add(x)
    return out


class BoundedWork(Scenario):
    """C14: an arbitrary set of pending work, flushed by one process or by several."""
    prop = 'C14'

    def prepare(self, world):
        from django.contrib.contenttypes.models import ContentType
        ct = ContentType.objects.create(app_label='gone', model='thing')
        world.gone_ct = ct.id
        super().prepare(world)
        ContentType.objects.clear_cache()

    def generate(self, world, rng, seed):
        zone = rng.choice(FUNC_ZONES + ['skip', 'skip2'])
        spec = {'prop': 'C14', 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS), 'max_steps': 30000}
        g = workload.Gen(world, zone, rng)
        script = g.script(rng.choice([0, 1, 1, 2, 4]))
        for r in script:
            r.pop('think', None)
        names = [i.name for i in world.schema.zone_models(zone)]
        marks = []
        for _ in range(rng.choice([0, 2, 5, 12])):
            kind = rng.choice(['row', 'row', 'row', 'twice', 'many', 'null', 'gone-row', 'gone-type', 'gone-null'])
            marks.append([kind, rng.choice(names), rng.randrange(8)])
        spec['actors'] = [{'name': 'c0', 'role': 'client', 'script': script}]
        spec['steps'] = marks
        n = rng.choice([1, 1, 1, 2, 3])
        for i in range(n):
            spec['actors'].append({'name': 'f%d' % i, 'role': 'flusher', 'times': 1, 'gap': rng.choice([0, 0, 0.01]) if n > 1 else 0})
        spec['flush_tx'] = n == 1 and rng.random() < 0.2
        if n > 1:
            spec['strategy'] = {'horizon': 200}
        return spec

    def nontrivial(self, spec, res):
        return res['probes'].get('rows_judged', 0) > 0

    def start(self, run):
        for a in run.spec['actors']:
            if a['role'] == 'client':
                run.add_client(a['name'], a['script'])

    def mark(self, run):
        """Queue work nobody would queue like that."""
        w = run.world
        sql = 'INSERT INTO %s (content_type_id, object_id) VALUES (%%s, %%s)' % w.qn(w.dirty_table)
        for kind, model, i in run.spec['steps']:
            ct = w.cts[model]
            info = w.schema.infos[model]
            if kind in ('row', 'twice', 'many'):
                try:
                    pk = run.reg.get(model, i)
                except workload.Skip:
                    continue
                for _ in range({'row': 1, 'twice': 2, 'many': 6}[kind]):
                    w.q(sql, [ct, str(pk)])
            elif kind == 'null':
                w.q(sql, [ct, None])
            elif kind == 'gone-row':
                pk = {'int': '99%d' % i, 'fk': '99%d' % i, 'str': 'gone%d' % i, 'uuid': '%032d' % (i + 77)}[info.pk.kind]
                w.q(sql, [ct, pk])
            elif kind == 'gone-type':
                w.q(sql, [w.gone_ct, str(i)])
            else:
                w.q(sql, [w.gone_ct, None])

    def finish(self, run):
        k = run.kernel
        from . import kernel as K
        self.mark(run)
        run.tracker.refresh()
        for i in run.tracker.marks:
            run.tracker.first.setdefault(i, k.nsteps)
        c = Work(run)
        initial = set(c.marked)
        run.tracker.checkers.append(c)
        fl = [a for a in run.spec['actors'] if a['role'] == 'flusher']
        run.strict = len(fl) <= 1
        for a in fl:
            self.flusher(run, a, run.spec.get('flush_tx'))
        k.max_steps = k.nsteps + 20000
        try:
            k.run()
        except K.StepLimit:
            return k.violation('no-termination', '%d flushing process(es) did not end within 20000 operations though nobody changed anything' % len(fl))
        if k.violations:
            return
        if any(e[2] == 'flush' for e in run.errors):
            k.probe('flush_errors_seen')
        else:
            c.judge(initial)
            run.check_settled()
        if k.violations:
            return
        # whatever went before: the next flush settles everything and the one after that does nothing
        if run.settle('settle') is None or k.violations:
            return
        run.check_settled()
        c.reset()
        n = run.settle('again')
        if k.violations:
            return
        if n:
            k.violation('not-settled', 'a second flush right after a completed one recalculated %d values' % n)
        elif c.commits and c.changed:
            k.violation('not-settled', 'a second flush right after a completed one changed %d rows' % len(c.changed))
        else:
            k.probe('second_flushes_idle')

    def flusher(self, run, a, tx):
        fn = None
        if tx:
            def fn():
                from django.db import transaction
                import denorm
                with transaction.atomic():
                    denorm.flush()
        run.add_flusher(a['name'], 1, a['gap'], fn=fn)


SCENARIOS = [SkipLists(), BoundedWork()]
