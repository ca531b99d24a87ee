"""C15: what a save leaves behind, before any flush."""
from . import zones
from .scenarios import ALL_ZONES, Mixed


def one_step(world, zone, s):
    """What the functions return for the data in s as it is: like the reference, but one step at a time."""
    out = zones.ZONES[zone].expected(world, s)
    if zone == 'forum':
        G, P, I = s['Group'], s['Person'], s['Item']
        names, kids = {}, {}
        for i, r in I.items():
            g, p = G.get(r['group_id']), P.get(r['owner_id'])
            out['Item', i, 'group_path'] = '-' if g is None else g['path']
            out['Item', i, 'owner_name'] = '-' if p is None else p['badge']
            names.setdefault(r['group_id'], []).append(r['owner_name'])
            kids[r['reply_to_id']] = kids.get(r['reply_to_id'], 0) + 1 + r['n_replies']
        for i in I:
            out['Item', i, 'n_replies'] = kids.get(i, 0)
        for g, r in G.items():
            up = G.get(r['parent_id'])
            out['Group', g, 'path'] = ('' if up is None else up['path'] + '/') + r['title']
            out['Group', g, 'owner_list'] = ','.join(sorted(names.get(g, ())))
    elif zone == 'chain':
        D1, D2, D3, D4 = s['D1'], s['D2'], s['D3'], s['D4']
        for k, r in D3.items():
            up = D2.get(r['up_id'])
            out['D3', k, 'trail'] = '%s.%s' % ('' if up is None else up['trail'], r['name'])
        for k, r in D4.items():
            up = D3.get(r['up_id'])
            out['D4', k, 'trail'] = '' if up is None else up['trail']
        for k in D1:
            out['D1', k, 'leafs'] = sum(r['leafs'] for r in D2.values() if r['up_id'] == k)
        for k in D2:
            out['D2', k, 'leafs'] = sum(r['leafs'] for r in D3.values() if r['up_id'] == k)
    elif zone == 'codes':
        path = {r['code']: r['path'] for r in s['QP'].values()}
        for k, r in s['QP'].items():
            out['QP', k, 'path'] = (path[r['up_id']] + '/' if r['up_id'] in path else '') + r['name']
    elif zone == 'abstract':
        for m in ('HOne', 'HTwo', 'HThree'):
            for k, r in s[m].items():
                out[m, k, 'path'] = (s[m][r['up_id']]['path'] + '/' if r['up_id'] in s[m] else '') + r['name']
    elif zone == 'misc':
        for k, r in s['ConcB'].items():
            o = s['ConcA'].get(r['other_id'])
            out['ConcB', k, 'other_line'] = '-' if o is None else o['tagline']
    return out


class Saves(object):
    """Compares every saved row, as the saving client sees it, with the instance and with the reference."""

    def __init__(self, run):
        self.run = run
        self.k = run.kernel
        self.w = run.world

    def before_save(self, client, info, obj):
        return len(self.run.tracker.commits), obj.pk is None

    def view(self, client):
        """Everything the saving client can see now, its own uncommitted changes included; None if it cannot look."""
        from django.db import connection, Error
        quiet, connection._sim_quiet = connection._sim_quiet, True
        try:
            def q(sql):
                with connection.cursor() as c:
                    c.execute(sql)
                    return c.fetchall()
            return self.w.snapshot(self.run.zone, q)
        except Error:
            return None
        finally:
            connection._sim_quiet = quiet

    def awaited(self, s, model, pk):
        """Whether some row refers to this one."""
        return any(r[f.column] == pk for i in self.w.schema.zone_models(self.run.zone) for f in i.fields if f.kind == 'fk' and f.target == model and not f.to
                   for r in s[i.name].values())

    def after_save(self, client, info, obj, tok, update_fields):
        n, new = tok
        k, norm = self.k, self.w.norm
        if any(c[1] != client.actor.name for c in self.run.tracker.commits[n:]):
            k.probe('saves_not_judged')
            return      # which of the others' changes the functions saw is not known
        s = self.view(client)
        pk = norm(obj.pk)
        row = None if s is None else s[info.name].get(pk)
        if row is None:
            k.probe('saves_not_judged')
            return
        known = True    # the values the functions worked with are the stored ones
        if update_fields is not None:
            known = all(row[f.column] == self.w.canon(f, getattr(obj, f.attname)) for f in info.base)
        exp = one_step(self.w, self.run.zone, s)
        label = '%s %s' % (info.name, pk)
        for f in info.derived:
            if update_fields is not None and f.name not in update_fields:
                continue
            have = row[f.column]
            if f.denorm_kind != 'cached':
                attr = self.w.canon(f, getattr(obj, f.attname))
                k.probe('attributes_compared')
                if attr != have:
                    k.violation('instance-differs', 'after saving %s its %s is %r in the instance but %r in the database' % (
                        label, f.column, attr, have))
                    return
            if f.denorm_kind == 'func' and known:
                if new and (f.name == 'tag_list' or self.awaited(s, info.name, pk)):
                    k.probe('awaited_rows')
                    continue    # a generic relation, or a key not checked until the commit, may be there before the row
                want = exp[info.name, pk, f.column]
                k.probe('values_compared')
                if have != want:
                    k.violation('outdated', 'after saving %s its %s is %r, should be %r' % (label, f.column, have, want))
                    return
            if f.kind == 'fk':
                field = info.model._meta.get_field(f.name)
                if field.is_cached(obj):
                    rel = field.get_cached_value(obj)
                    k.probe('related_compared')
                    if norm(getattr(rel, f.to or 'pk') if rel is not None else None) != have:
                        k.violation('instance-differs', 'after saving %s its %s is the object %s but %r in the database' % (
                            label, f.name, rel.pk if rel is not None else None, have))
                        return
        if update_fields is None:
            for mm in info.m2ms:
                if not mm.derived:
                    continue
                name = '%s.%s' % (info.name, mm.name)
                have = set(b for a, b in s[name] if a == pk)
                k.probe('links_compared')
                if have != exp[name, pk]:
                    k.violation('outdated', 'after saving %s its %s are %r, should be %r' % (
                        label, mm.name, sorted(have), sorted(exp[name, pk])))
                    return


OPS = {'create': 10, 'save': 16, 'save_uf': 8, 'stale': 40, 'qupdate': 10, 'raw_update': 10, 'bulk_create': 2, 'raw_insert': 3, 'delete': 4,
       'm2m': 8, 'touch': 8, 'reinsert': 6, 'overwrite': 6, 'deferred': 6}


class C15(Mixed):
    def __init__(self):
        super().__init__('C15', ALL_ZONES, clients=(1, 3), flushers=(0, 1), requests=(2, 6), faults=0.35, final=False, serial=0.3)

    def generate(self, world, rng, seed):
        self.gen = rng.choice([{}, {'ops': OPS}, {'ops': OPS}])
        return super().generate(world, rng, seed)

    def nontrivial(self, spec, res):
        return res['probes'].get('attributes_compared', 0) > 0

    def start(self, run):
        l = Saves(run)
        for a in run.spec['actors']:
            if a['role'] == 'client':
                run.add_client(a['name'], a['script'], listener=l)
            else:
                run.add_flusher(a['name'], a['times'], a['gap'])


SCENARIOS = [C15()]
