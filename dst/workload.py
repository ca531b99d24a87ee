"""Client workloads: generation (from a seed, as plain JSON) and execution (inside an actor)."""
from . import schema, zones


class Skip(Exception):
    """The operation has nothing to work on (its row is gone)."""


class Undo(Exception):
    """Deliberate rollback by the client."""


# ------------------------------------------------------------------------------------------------- generation
WRITE_OPS = {
    'create': 10, 'save': 16, 'save_uf': 6, 'stale': 8, 'qupdate': 8, 'bulk_create': 3, 'raw_update': 7, 'raw_insert': 3, 'nudge': 6,
    'raw_delete': 2, 'delete': 6, 'qdelete': 3, 'm2m': 10, 'link_raw': 3, 'touch': 3, 'fixture': 2,
    'reinsert': 3, 'overwrite': 3, 'deferred': 3,
}


class Gen(object):
    """Generates operations for one zone."""

    def __init__(self, world, zone, rng, ops=None, models=None, refs=12, columns=None, no_bulk=False):
        self.w = world
        self.zone = zone
        self.rng = rng
        self.infos = [i for i in world.schema.zone_models(zone) if models is None or i.name in models]
        self.ops = dict(WRITE_OPS if ops is None else ops)
        if zone == 'types':
            self.ops['nudge'] = 40
        self.refs = refs
        self.no_bulk = no_bulk          # with bulk-unsafe triggers: no bulk or raw writes to denormalized models' rows
        self.m2ms = [mm for i in self.infos for mm in i.m2ms if mm.auto and not mm.derived]
        if not self.m2ms:
            self.ops.pop('m2m', None)
            self.ops.pop('link_raw', None)
        self.slots = 0
        # swarm: some runs use only a few kinds of operations, some concentrate on few rows
        if rng.random() < 0.4 and ops is None:
            keep = rng.sample(sorted(self.ops), max(3, len(self.ops) // 2))
            self.ops = {k: v for k, v in self.ops.items() if k in keep}
            if not any(k in self.ops for k in ('save', 'create', 'qupdate', 'raw_update')):
                self.ops['save'] = 10
        # others mostly write to few models, or delete a lot
        self.focus = rng.sample(self.infos, min(len(self.infos), rng.choice([1, 1, 2]))) if rng.random() < 0.35 else None
        if rng.random() < 0.2:
            for k in ('delete', 'qdelete', 'raw_delete'):
                if k in self.ops:
                    self.ops[k] *= 4
        self.names = sorted(self.ops)
        self.weights = [self.ops[n] for n in self.names]
        self.stale = rng.sample(self.infos, min(2, len(self.infos)))
        self.hot = rng.choice([2, 3, 5, refs])

    def ref(self):
        return self.rng.randrange(self.hot) if self.rng.random() < 0.8 else self.rng.randrange(self.refs)

    def has_func(self, info):
        return any(f.denorm_kind == 'func' for f in info.derived) or any(m.derived for m in info.m2ms)

    def val(self, info, f):
        if f.kind == 'fk':
            if f.target == 'ContentType':
                return None
            if f.null and self.rng.random() < 0.2:
                return None
            return {'ref': [f.target, self.ref()]}
        if f.kind == 'uuid':
            return None
        return zones.value(self.rng, f, self.w, None)

    def vals(self, info, n=None, every=False):
        fs = info.writable
        if not every:
            k = n if n is not None else self.rng.choice([1, 1, 1, 2, 2, 3])
            fs = self.rng.sample(fs, min(len(fs), k))
        out = {}
        generic = any(f.target == 'ContentType' for f in info.writable)
        for f in fs:
            if generic and (f.target == 'ContentType' or f.name == 'object_id'):
                out['*target'] = [self.rng.choice(schema.GENERIC[info.name]), self.ref()]
                continue
            out[f.attname] = self.val(info, f)
        return out

    def op(self, depth=0):
        rng = self.rng
        while True:
            kind = rng.choices(self.names, self.weights)[0]
            if kind in ('m2m', 'link_raw'):
                mm = rng.choice(self.m2ms)
                if kind == 'm2m':
                    rev = rng.random() < 0.4
                    return {'op': 'm2m', 'm': mm.model, 'f': mm.name, 'rev': rev, 'who': self.ref(),
                            'act': rng.choice(['add', 'add', 'add', 'remove', 'remove', 'set', 'clear']),
                            'objs': [self.ref() for _ in range(rng.choice([1, 1, 2, 3]))]}
                return {'op': 'link_raw', 'm': mm.model, 'f': mm.name, 'act': rng.choice(['insert', 'delete', 'update', 'move']),
                        'a': self.ref(), 'b': self.ref(), 'c': self.ref()}
            info = rng.choice(self.focus if self.focus and rng.random() < 0.8 else self.infos)
            bulk = kind in ('qupdate', 'bulk_create', 'raw_update', 'raw_insert', 'raw_delete', 'link_raw')
            if bulk and self.no_bulk and self.has_func(info):
                continue
            m = info.name
            px = {'px': True} if info.proxy is not None and rng.random() < 0.25 else {}
            keys = [f for f in info.derived if f.denorm_kind in ('key', 'cached')]
            if kind == 'create':
                o = dict({'op': 'create', 'm': m, 'v': self.vals(info, every=True)}, **px)
                if info.pk.kind in ('str', 'uuid'):
                    o['pk'] = rng.randrange(10)
                elif rng.random() < 0.15:
                    o['pk'] = rng.randrange(1000, 30000)
                return o
            if kind == 'reinsert':
                return {'op': 'reinsert', 'm': m, 'r': self.ref(), 'v': self.vals(info)}
            if kind == 'deferred':
                fs = [f.name for f in info.fields if not f.pk and not (f.derived and self.no_bulk)]
                if not fs:
                    continue
                return dict({'op': 'deferred', 'm': m, 'r': self.ref(), 'v': self.vals(info),
                             'without': rng.sample(fs, rng.randint(1, min(4, len(fs))))}, **px)
            if kind == 'overwrite':
                return {'op': 'overwrite', 'm': m, 'r': self.ref(), 'v': self.vals(info, every=True)}
            if kind == 'bulk_create':
                if info.pk.kind in ('str', 'uuid'):
                    continue
                return {'op': 'bulk_create', 'm': m, 'rows': [self.vals(info, every=True) for _ in range(rng.choice([1, 2, 3]))]}
            if kind == 'save':
                return dict({'op': 'save', 'm': m, 'r': self.ref(), 'v': self.vals(info)}, **px)
            if kind == 'save_uf':
                return {'op': 'save_uf', 'm': m, 'r': self.ref(), 'v': self.vals(info),
                        'all': rng.random() < 0.5 or (self.no_bulk and self.has_func(info))}
            if kind == 'stale':
                info = rng.choice(self.stale)
                return {'op': 'stale', 'm': info.name, 'r': self.ref(), 'v': self.vals(info), 'slot': rng.randrange(2),
                        'fetch': rng.random() < 0.4}
            if kind == 'touch':
                return dict({'op': 'save', 'm': m, 'r': self.ref(), 'v': {}}, **px)
            if kind == 'qupdate':
                if keys and self.rng.random() < 0.5:
                    continue
                return {'op': 'qupdate', 'm': m, 'rs': [self.ref() for _ in range(rng.choice([1, 1, 2, 4]))], 'v': self.vals(info), **px}
            if kind == 'fixture':
                if keys or (self.no_bulk and self.has_func(info)) or any(f.denorm_kind == 'agg' for f in info.derived):
                    continue
                return dict({'op': 'fixture', 'm': m, 'r': self.ref(), 'v': self.vals(info)}, **px)
            if kind == 'raw_update':
                return {'op': 'raw_update', 'm': m, 'r': self.ref(), 'v': self.vals(info)}
            if kind == 'nudge':
                fs = [f for f in info.writable if f.kind not in ('fk', 'uuid') and not f.unique and f.name != 'object_id']
                if not fs:
                    continue
                how = ['save', 'save', 'save_uf'] + ([] if self.no_bulk and self.has_func(info) else ['qupdate', 'raw_update'])
                return {'op': 'nudge', 'how': rng.choice(how), 'm': m, 'r': self.ref(), 'f': rng.choice(fs).attname, 'n': rng.randrange(4)}
            if kind == 'raw_insert':
                if info.pk.kind in ('str', 'uuid') or keys:
                    continue
                return {'op': 'raw_insert', 'm': m, 'v': self.vals(info, every=True)}
            if kind == 'raw_delete':
                return {'op': 'raw_delete', 'm': m, 'r': self.ref()}
            if kind == 'delete':
                return dict({'op': 'delete', 'm': m, 'r': self.ref()}, **px)
            if kind == 'qdelete':
                return dict({'op': 'qdelete', 'm': m, 'rs': [self.ref() for _ in range(rng.choice([1, 2, 3]))]}, **px)
            return {'op': kind, 'm': m, 'r': self.ref()}

    def crowd(self, flush):
        """Requests that create many rows, each referring to the one before where the model allows it, and change an end of them later."""
        rng = self.rng
        infos = [i for i in self.infos if i.pk.auto and not any(f.unique for f in i.writable)]
        # the work of counts and sums over the rows of the same table multiplies with every level
        chains = [(i, f.attname) for i in infos for f in i.writable if f.target == i.name and not any(d.denorm_kind == 'agg' for d in i.derived)]
        if not infos or self.zone == 'forum':       # too many markers per row there
            return []
        if chains and rng.random() < 0.6:
            info, fk = rng.choice(chains)
        else:
            info, fk = rng.choice(infos), None
        make = {'op': 'crowd', 'm': info.name, 'n': rng.choice([15, 25, 40] if fk else [30, 30, 60] if self.zone in ('pks', 'cols', 'codes') else [30, 30, 60, 110]), 'v': self.vals(info, every=True), 'fk': fk,
                'bulk': fk is None and not (self.no_bulk and self.has_func(info)) and rng.random() < 0.7}
        fs = [f for f in info.writable if f.attname != fk and f.target != 'ContentType' and f.name != 'object_id']
        fs = [f for f in fs if f.kind == 'str'] or fs
        out = [{'tx': 'atomic', 'ops': [make]}]
        if flush:
            out.append({'tx': 'auto', 'ops': [{'op': 'flush'}]})
        if fs:
            out.append({'tx': 'auto', 'ops': [{'op': 'crowd_end', 'm': info.name, 'last': rng.random() < 0.3,
                                               'v': {f.attname: self.val(info, f) for f in fs}}]})
            if flush:
                out.append({'tx': 'auto', 'ops': [{'op': 'flush'}]})
        return out

    def request(self, rollback=0.12, atomic=0.45, maxops=4):
        rng = self.rng
        r = rng.random()
        n = rng.choice([1, 1, 2, 2, 3, maxops])
        if r < rollback:
            tx = 'rollback'
        elif r < rollback + atomic:
            tx = 'atomic'
        else:
            tx = 'auto'
        ops = [self.op() for _ in range(n)]
        if tx != 'auto' and rng.random() < 0.25:
            i = rng.randrange(len(ops) + 1)
            ops.insert(i, {'op': 'sp', 'rb': rng.random() < 0.5, 'ops': [self.op() for _ in range(rng.choice([1, 2]))]})
        req = {'tx': tx, 'ops': ops}
        if rng.random() < 0.3:
            req['think'] = rng.choice([0.0, 0.01, 0.2, 1.5])
        return req

    def script(self, n, **kw):
        return [self.request(**kw) for _ in range(n)]


# ------------------------------------------------------------------------------------------------- execution
class Registry(object):
    """Primary keys operations refer to by position: those of the starting state, then the created ones."""

    def __init__(self, world, zone, snap):
        self.w = world
        self.pks = {}
        self.uids = {}
        for info in world.schema.zone_models(zone):
            self.pks[info.name] = sorted(snap[info.name])
        self.initial = {m: set(p) for m, p in self.pks.items()}
        self.codes = {i.name: {pk: r[f.column] for pk, r in snap[i.name].items()} for i in world.schema.zone_models(zone) for f in i.codes}
        self.ncodes = 20

    def get(self, model, i):
        p = self.pks.get(model)
        if not p:
            raise Skip()
        return p[i % len(p)]

    def add(self, model, pk, obj=None):
        pk = self.w.norm(pk)
        if pk is not None and model in self.codes:
            self.codes[model][pk] = obj.code
        if pk is not None and pk not in self.pks[model]:
            self.pks[model].append(pk)


class Client(object):
    """Executes requests inside an actor."""

    def __init__(self, run, actor):
        self.run = run
        self.w = run.world
        self.actor = actor
        self.slots = {}
        self.ends = None
        self.close_after_error = True
        self.listener = None          # object with saved(client, info, obj, created) / before_save(...)

    # -- helpers
    def info(self, m):
        return self.w.schema.infos[m]

    def exists(self, model, pk):
        return self.info(model).model._base_manager.filter(pk=pk).exists()

    def resolve(self, info, vals, pk=None, new=False):
        """Turn generated values into real ones. Self references only ever point to smaller keys."""
        out = {}
        for k, v in vals.items():
            if k == '*target':
                try:
                    t = self.run.reg.get(v[0], v[1])
                except Skip:
                    continue
                out['content_type_id'] = self.w.cts[v[0]]
                out['object_id'] = t
                continue
            if isinstance(v, dict):
                f = [x for x in info.fields if x.attname == k][0]
                model, i = v['ref']
                try:
                    t = self.run.reg.get(model, i)
                except Skip:
                    t = None
                if t is not None and model == info.name:
                    # a new row may get any key that is not in the starting state
                    if not (t < pk if pk is not None else t in self.run.reg.initial[model]):
                        t = None
                if t is not None and self.deleted and not self.exists(model, t):
                    t = None
                if t is None and not f.null:
                    raise Skip()
                v = self.run.reg.codes[model].get(t) if f.to else t
            elif v is not None and k in info.reads:
                v = info.reads[k](v)
            out[k] = v
        if new:
            for f in info.codes:
                self.run.reg.ncodes += 1
                out[f.attname] = zones.code(f, self.run.reg.ncodes)
        return out

    def model(self, info, op):
        return info.proxy if op.get('px') else info.model

    def load(self, info, ref, fetch=False, model=None):
        pk = self.run.reg.get(info.name, ref)
        obj = (model or info.model)._base_manager.filter(pk=pk).first()
        if obj is None:
            raise Skip()
        if fetch:
            for f in info.fields:
                if f.kind == 'fk' and getattr(obj, f.attname) is not None:
                    try:
                        getattr(obj, f.name)
                    except Exception as e:
                        if type(e).__name__ != 'DoesNotExist':
                            raise
        return obj

    def save(self, info, obj, created=False, loaded=None, **kw):
        l = self.listener
        tok = l.before_save(self, info, obj) if l is not None else None
        full = not created and 'update_fields' not in kw and loaded is None
        row = (info.name, self.w.norm(obj.pk))
        before = self.run.tracker.snap[info.name].get(row[1])
        obj.save(**kw)
        if full:
            from django.db import connection
            if connection.in_atomic_block:
                self.actor.data.setdefault('saved', []).append(row)
            else:
                for c in self.run.tracker.checkers:
                    c.on_saved(self.actor, row, before)
        if l is not None:
            l.after_save(self, info, obj, tok, kw.get('update_fields', loaded))

    # -- requests
    def request(self, req):
        """Returns 'ok', 'undone', or 'error'. Only ordinary database errors are tolerated."""
        from django.db import transaction, connection
        from django.db import Error
        if req.get('think') is not None:
            import time
            time.sleep(req['think'])
        self.deleted = False
        self.actor.data.pop('saved', None)
        k = self.actor.kernel
        try:
            if req['tx'] == 'auto':
                for op in req['ops']:
                    self.op(op)
            else:
                with transaction.atomic():
                    for op in req['ops']:
                        self.op(op)
                    if req['tx'] == 'rollback':
                        raise Undo()
            k.probe('request_ok')
            return 'ok'
        except Undo:
            k.probe('request_undone')
            return 'undone'
        except Error as e:
            k.log(self.actor, 'request-error', type(e).__name__)
            k.probe('request_error')
            if self.close_after_error:      # what a web framework does at the end of a failed request
                connection.close_if_unusable_or_obsolete()
            self.run.error(self.actor, e, 'request')
            return 'error'

    def op(self, op):
        try:
            getattr(self, 'do_' + op['op'])(op)
            self.actor.kernel.probe('op_' + op['op'])
        except Skip:
            self.actor.kernel.probe('op_skipped')
        self.references()

    def references(self):
        """Clients leave no reference to a missing row behind, not even for the time until they commit.

        MySQL refuses such references at once, the others when the transaction ends. A client that notices one gives up."""
        from django.db import connection, IntegrityError
        if self.w.vendor == 'mysql' or not connection.in_atomic_block or connection.needs_rollback:
            return
        sql = self.w.schema.dangling_sql(self.run.zone, self.w.qn)
        quiet, connection._sim_quiet = connection._sim_quiet, True
        try:
            with connection.cursor() as c:
                c.execute(sql)
                bad = c.fetchone()
        finally:
            connection._sim_quiet = quiet
        if bad:
            self.actor.kernel.probe('dangling_reference')
            raise IntegrityError('a row refers to a missing one (simulated)')

    def do_sp(self, op):
        from django.db import transaction
        saved = list(self.actor.data.get('saved', ()))
        try:
            with transaction.atomic():
                for o in op['ops']:
                    self.op(o)
                if op['rb']:
                    self.actor.data['saved'] = saved
                    raise Undo()
        except Undo:
            if not op['rb']:
                raise

    def do_create(self, op):
        info = self.info(op['m'])
        kw = self.resolve(info, op['v'], new=True)
        if info.pk.kind == 'str':
            kw[info.pk.attname] = zones.CODES[op['pk']]
        elif info.pk.kind == 'uuid':
            kw[info.pk.attname] = zones.uid(op['pk'])
        elif 'pk' in op:
            kw[info.pk.attname] = op['pk']
        obj = self.model(info, op)(**kw)
        self.must_save(info, obj, 'pk' in op and not self.exists(info.name, obj.pk), created=True, force_insert=True)
        self.run.reg.add(info.name, obj.pk, obj)

    def do_bulk_create(self, op):
        info = self.info(op['m'])
        objs = [info.model(**self.resolve(info, v, new=True)) for v in op['rows']]
        info.model._base_manager.bulk_create(objs)
        for o in objs:
            self.run.reg.add(info.name, o.pk, o)

    def do_crowd(self, op):
        info = self.info(op['m'])
        kw = self.resolve(info, op['v'])
        if op['bulk']:
            info.model._base_manager.bulk_create([info.model(**dict(self.resolve(info, {}, new=True), **kw)) for _ in range(op['n'])])
            return
        prev = None
        for i in range(op['n']):
            if op['fk']:
                kw[op['fk']] = prev
            obj = info.model(**dict(self.resolve(info, {}, new=True), **kw))
            self.save(info, obj, created=True, force_insert=True)
            prev = obj.code if info.codes else obj.pk
            if i == 0:
                self.ends = [obj.pk, obj.pk]
            self.ends[1] = obj.pk
            if i < 3:
                self.run.reg.add(info.name, obj.pk, obj)

    def do_crowd_end(self, op):
        info = self.info(op['m'])
        if not self.ends:
            raise Skip()
        obj = info.model._base_manager.filter(pk=self.ends[op['last']]).first()
        if obj is None:
            raise Skip()
        self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
        self.save(info, obj)

    def assign(self, obj, vals):
        for k, v in vals.items():
            setattr(obj, k, v)

    def do_save(self, op):
        info = self.info(op['m'])
        obj = self.load(info, op['r'], model=self.model(info, op))
        self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
        self.save(info, obj)

    def must_save(self, info, obj, sure, **kw):
        """A save that nothing stands in the way of, if so."""
        from django.db import IntegrityError
        sure = sure and self.run.single and not any(f.unique for f in info.writable) and self.refers(info, obj)
        try:
            self.save(info, obj, **kw)
        except IntegrityError as e:
            if sure and not self.actor.kernel.fired:
                self.actor.kernel.violation('save-refused', 'saving %s %s, whose references all exist, failed with %s' % (
                    info.name, obj.pk, str(e).strip().split('\n')[0][:200]))
            raise
        if sure:
            self.actor.kernel.probe('saves_that_had_to_succeed')

    def refers(self, info, obj):
        for f in info.base:
            v = getattr(obj, f.attname)
            if f.kind == 'fk' and v is not None and f.target in self.w.schema.infos:
                field = info.model._meta.get_field(f.name).foreign_related_fields[0]
                if not self.info(f.target).model._base_manager.filter(**{field.attname: v}).exists():
                    return False
        return True

    def do_reinsert(self, op):
        """Delete a row and save an instance loaded before, which inserts it again."""
        info = self.info(op['m'])
        if not self.run.single:     # others might refer to the row before it is there again
            raise Skip()
        obj = self.load(info, op['r'])
        self.deleted = True
        info.model._base_manager.filter(pk=obj.pk).delete()
        self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
        self.must_save(info, obj, not self.exists(info.name, obj.pk))

    def do_overwrite(self, op):
        """Save an instance that was not loaded but made from scratch, over the row with its key."""
        info = self.info(op['m'])
        old = self.load(info, op['r'])
        obj = info.model(pk=old.pk, **self.resolve(info, op['v'], self.w.norm(old.pk)))
        for f in info.codes:
            setattr(obj, f.attname, getattr(old, f.attname))
        self.must_save(info, obj, True)

    def do_fixture(self, op):
        """The way fixtures are loaded: the instance as it is, denormalized values included."""
        info = self.info(op['m'])
        obj = self.load(info, op['r'], model=self.model(info, op))
        self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
        obj.save_base(raw=True)

    def do_save_uf(self, op):
        """Partial save: the changed columns, with or without the denormalized ones."""
        info = self.info(op['m'])
        obj = self.load(info, op['r'])
        vals = self.resolve(info, op['v'], self.w.norm(obj.pk))
        self.assign(obj, vals)
        names = [f.name for f in info.fields if f.attname in vals]
        if op['all']:
            names += [f.name for f in info.derived if f.denorm_kind == 'func']
        if not names:
            raise Skip()
        self.save(info, obj, update_fields=names)

    def do_deferred(self, op):
        """Save an instance that was loaded without some of its columns; those are not saved."""
        info = self.info(op['m'])
        if not self.run.single or op['m'] == 'Managed':     # Django cannot fetch missing columns of rows its default manager hides
            raise Skip()
        pk = self.run.reg.get(info.name, op['r'])
        obj = self.model(info, op)._base_manager.defer(*op['without']).filter(pk=pk).first()
        if obj is None:
            raise Skip()
        self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
        missing = obj.get_deferred_fields()
        self.save(info, obj, loaded=[f.name for f in info.fields if f.attname not in missing])

    def do_stale(self, op):
        """Save an instance loaded in an earlier request, then remember a newly loaded one."""
        info = self.info(op['m'])
        key = (op['m'], op['slot'])
        obj = self.slots.pop(key, None)
        if obj is not None:
            self.assign(obj, self.resolve(info, op['v'], self.w.norm(obj.pk)))
            self.actor.kernel.probe('stale_save')
            self.save(info, obj)
        self.slots[key] = self.load(info, op['r'], op['fetch'])

    def do_qupdate(self, op):
        info = self.info(op['m'])
        pks = []
        for r in op['rs']:
            try:
                pks.append(self.run.reg.get(info.name, r))
            except Skip:
                pass
        if not pks:
            raise Skip()
        vals = self.resolve(info, op['v'], min(pks))
        if not vals:
            raise Skip()
        self.model(info, op)._base_manager.filter(pk__in=pks).update(**vals)

    def cursor(self):
        from django.db import connection
        return connection.cursor()

    def raw(self, sql, params):
        with self.cursor() as c:
            c.execute(sql, params)

    def dbval(self, info, attname, v):
        f = [x for x in info.fields if x.attname == attname][0]
        return f, (self.dbpk(f.target, v) if f.kind == 'fk' else v)

    def dbpk(self, model, v):
        if v is None:
            return None
        info = self.w.schema.infos.get(model)
        if info is not None and info.pk.kind == 'uuid':
            import uuid
            from django.db import connection
            u = v if isinstance(v, uuid.UUID) else uuid.UUID(v)
            return u if connection.features.has_native_uuid_field else u.hex
        return v

    def do_raw_update(self, op):
        info = self.info(op['m'])
        pk = self.run.reg.get(info.name, op['r'])
        vals = self.resolve(info, op['v'], pk)
        if not vals:
            raise Skip()
        qn = self.w.qn
        sets, params = [], []
        for k, v in vals.items():
            f, v = self.dbval(info, k, v)
            sets.append('%s = %%s' % qn(f.column))
            params.append(v)
        params.append(self.dbpk(info.name, pk))
        self.raw('UPDATE %s SET %s WHERE %s = %%s' % (qn(info.table), ', '.join(sets), qn(info.pk.column)), params)

    def do_nudge(self, op):
        """Change one column to a value close to the one it has."""
        info = self.info(op['m'])
        obj = self.load(info, op['r'])
        f = [x for x in info.fields if x.attname == op['f']][0]
        v = {f.attname: zones.near(f, getattr(obj, f.attname), op['n'])}
        getattr(self, 'do_' + op['how'])({'op': op['how'], 'm': op['m'], 'r': op['r'], 'rs': [op['r']], 'v': v, 'all': True})

    def do_raw_insert(self, op):
        info = self.info(op['m'])
        vals = self.resolve(info, op['v'], new=True)
        qn = self.w.qn
        cols, params = [], []
        for f in info.fields:
            if f.auto:
                continue
            if f.attname in vals:
                _, v = self.dbval(info, f.attname, vals[f.attname])
            elif f.null:
                v = None
            elif f.kind in ('int',):
                v = 0
            elif f.kind == 'bool':
                v = True
            elif f.kind == 'str':
                v = ''
            else:
                raise Skip()
            cols.append(qn(f.column))
            params.append(v)
        self.raw('INSERT INTO %s (%s) VALUES (%s)' % (qn(info.table), ', '.join(cols), ', '.join(['%s'] * len(cols))), params)

    def do_raw_delete(self, op):
        info = self.info(op['m'])
        pk = self.run.reg.get(info.name, op['r'])
        qn = self.w.qn
        self.deleted = True
        self.raw('DELETE FROM %s WHERE %s = %%s' % (qn(info.table), qn(info.pk.column)), [self.dbpk(info.name, pk)])

    def do_delete(self, op):
        info = self.info(op['m'])
        obj = self.load(info, op['r'], model=self.model(info, op))
        self.deleted = True
        obj.delete()

    def do_qdelete(self, op):
        info = self.info(op['m'])
        pks = []
        for r in op['rs']:
            try:
                pks.append(self.run.reg.get(info.name, r))
            except Skip:
                pass
        if not pks:
            raise Skip()
        self.deleted = True
        self.model(info, op)._base_manager.filter(pk__in=pks).delete()

    def do_m2m(self, op):
        info = self.info(op['m'])
        mm = [x for x in info.m2ms if x.name == op['f']][0]
        if op['rev']:
            me, other, name = self.info(mm.target), info, mm.reverse
        else:
            me, other, name = info, self.info(mm.target), mm.name
        obj = self.load(me, op['who'])
        pks = []
        for r in op['objs']:
            try:
                pk = self.run.reg.get(other.name, r)
            except Skip:
                continue
            if self.deleted and not self.exists(other.name, pk):
                continue
            if other is me and pk == self.w.norm(obj.pk):       # its own function would see the old data
                continue
            if pk not in pks:
                pks.append(pk)
        mgr = getattr(obj, name)
        if op['act'] == 'clear':
            mgr.clear()
        elif not pks:
            raise Skip()
        elif op['act'] == 'set':
            mgr.set(pks)
        else:
            getattr(mgr, op['act'])(*pks)

    def do_link_raw(self, op):
        info = self.info(op['m'])
        mm = [x for x in info.m2ms if x.name == op['f']][0]
        t = [x for x in self.w.schema.zone_tables(self.run.zone) if x.name == '%s.%s' % (op['m'], op['f'])][0]
        a = self.run.reg.get(op['m'], op['a'])
        b = self.run.reg.get(mm.target, op['b'])
        other = op['m'] if op['act'] == 'move' else mm.target
        c = self.run.reg.get(other, op['c'])
        if self.deleted and not (self.exists(op['m'], a) and self.exists(mm.target, b) and self.exists(other, c)):
            raise Skip()
        if mm.target == op['m'] and (a == b or c in (a, b)):
            raise Skip()
        a = self.dbpk(op['m'], a)
        b = self.dbpk(mm.target, b)
        c = self.dbpk(other, c)
        qn = self.w.qn
        ca, cb = t.columns
        if op['act'] == 'insert':
            self.raw('INSERT INTO %s (%s, %s) VALUES (%%s, %%s)' % (qn(t.table), qn(ca), qn(cb)), [a, b])
        elif op['act'] == 'delete':
            self.raw('DELETE FROM %s WHERE %s = %%s AND %s = %%s' % (qn(t.table), qn(ca), qn(cb)), [a, b])
        else:
            self.raw('UPDATE %s SET %s = %%s WHERE %s = %%s AND %s = %%s' % (
                qn(t.table), qn(ca if op['act'] == 'move' else cb), qn(ca), qn(cb)), [c, a, b])

    def do_flush(self, op):
        from django.db import connection
        if connection.in_atomic_block:
            self.actor.kernel.probe('flush_in_transaction')
            self.run.flush_function()()
        else:
            self.run.flush(self.actor)

    def do_pause(self, op):
        """The client takes its time in the middle of a transaction."""
        import time
        time.sleep(op['s'])
        self.actor.kernel.probe('pauses_in_transactions')

    def do_rebuild(self, op):
        self.run.rebuild(self.actor, op.get('model'))

    def do_read(self, op):
        info = self.info(op['m'])
        key = ('read', op['m'], op.get('slot', 0))
        how = op.get('how', 'get')
        if how == 'list':
            objs = list(info.model._base_manager.all().order_by('pk'))
        elif how == 'refresh' and key in self.slots:
            objs = [self.slots[key]]
            try:
                objs[0].refresh_from_db()
            except info.model.DoesNotExist:
                del self.slots[key]
                raise Skip()
        else:
            objs = [self.load(info, op['r'])]
        self.slots[key] = objs[0] if objs else None
        if not objs:
            del self.slots[key]
        for obj in objs:
            for l in self.run.readers:
                l.loaded(self, info, obj)
