"""Per zone: how to populate it, and an independent reference for every denormalized value.

The references work on plain dictionaries read from the committed tables; they share no code with the models'
functions or with denorm.
"""
import datetime
import decimal
import uuid

from . import schema

WORDS = ['a', 'b', 'c', 'dd', 'e e', "o'x", 'uü', '50%', 'x', '', 'A', 'X', 'b ']
LONG = [c * n + t for c, n in (('x', 99), ('y', 255), ('z ', 600), ('ü', 3000)) for t in ('', 'a', 'b', 'A')]
# close to each other: they differ in the last place, beyond the precision of a float, or in the sign
VALUES = {
    'dec': ['0.00', '0.01', '1.50', '1.05', '100.00', '999999.99', '999999.98', '-1.50'],
    'float': ['0.0', '0.1', '0.25', '1e-09', '2e-09', '123456.789', '123456.78901', '-0.25', '1000000000000000.0'],
    'time': ['2020-01-01 00:00:00', '2020-01-01 00:00:00.000001', '2020-01-01 00:00:01', '2019-12-31 23:59:59.999999', '2020-01-02 00:00:00'],
    'date': ['2020-01-01', '2020-01-02', '1999-12-31', '2020-02-29'],
    'bin': ['', '00', '0000', '61', '41', 'ff', 'ff00ff', '61' * 300, '61' * 299 + '62'],
    'big': [0, 1, -1, 1 << 53, (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), (1 << 32), (1 << 32) + 1],
}
CODES = ['k0', 'k1', 'k2', 'k3', 'k4', 'k5', 'k6', 'k7', "k'8", 'k 9']


def uid(n):
    return uuid.UUID(int=0x1234567812345678 * (n + 1) % (1 << 128))


def code(f, n):
    """The n-th code: close to primary keys, but not the row's own."""
    return n ^ 1 if f.kind == 'int' else 'q%d' % (n ^ 1)


def value(rng, f, world, refs, model=None):
    """A random value for a writable field. Foreign keys come as row references."""
    if f.kind == 'str':
        if f.null and rng.random() < 0.3:
            return None
        return rng.choice(LONG if f.long and rng.random() < 0.7 else WORDS)
    if f.kind == 'bool':
        if f.null and rng.random() < 0.3:
            return None
        return rng.random() < 0.6
    if f.kind in VALUES or f.big:
        if f.null and rng.random() < 0.2:
            return None
        return rng.choice(VALUES['big' if f.big else f.kind])
    if f.kind == 'int':
        if f.null and rng.random() < 0.2:
            return None
        return rng.randrange(0, 10)
    raise ValueError(f.kind)


def near(f, v, n):
    """A value as close as possible to this one; strings in several ways."""
    if f.kind == 'str':
        if v is None or (v == '' and n):
            return 'aA b'[n] if v is None or not f.null else None
        if n == 0 or not v:
            new = v[:-1] + ('b' if v[-1:] != 'b' else 'a')
        elif n == 1:
            new = v[:-1] + v[-1].swapcase()
        elif n == 2:
            new = v[:-1] if v[-1] == ' ' else v + ' '
        else:
            new = v[:-1]
        return new if f.max_length is None or len(new) <= f.max_length else ''
    if f.null and v is not None and n == 3:
        return None
    if f.kind == 'bool':
        return v is False
    if v is None:
        return 0 if f.kind == 'int' else VALUES[f.kind][0]
    if f.kind == 'int':
        return v + 1 if not f.big or v < (1 << 63) - 1 else v - 1
    if f.kind == 'dec':
        v = v + decimal.Decimal('0.01') if v < 999999 else v - decimal.Decimal('0.01')
    elif f.kind == 'float':
        v = float('%.12g' % (v * (1 + 1e-9) + 1e-12))
    elif f.kind == 'time':
        v = v + datetime.timedelta(microseconds=1)
    elif f.kind == 'date':
        v = v + datetime.timedelta(days=1)
    elif f.kind == 'bin':
        v = bytes(v)
        v = v[:-1] + bytes([v[-1] ^ 0x20]) if v else b'\0'
    return schema.LOOKS[f.kind](v)


def recursive(rows, fk, fn):
    """Evaluate fn(pk, row, value of parent or None) along a self reference, without cycles."""
    memo = {}

    def ev(pk, depth=0):
        if depth > 500:
            raise RuntimeError('cycle in test data')
        if pk not in memo:
            r = rows[pk]
            p = r[fk]
            memo[pk] = fn(pk, r, ev(p, depth + 1) if p in rows else None)
        return memo[pk]
    for pk in rows:
        ev(pk)
    return memo


class Zone(object):
    sizes = {}

    @classmethod
    def populate(cls, world, rng, variant):
        made, codes = {}, {}
        for info in world.schema.zone_models(cls.name):
            n = cls.sizes.get(info.name, 3)
            if variant % 3 == 2:
                n = max(1, n - 1)
            deep = variant == 4 and any(f.kind == 'fk' and f.target == info.name for f in info.writable)
            if deep:
                n = max(n, 8)       # long chains of rows referring to each other
            made[info.name] = []
            for i in range(n):
                kw = {}
                for f in info.writable:
                    if f.kind == 'fk':
                        pool = made.get(f.target, [])
                        if f.target == 'ContentType':
                            continue
                        if deep and f.target == info.name and pool and rng.random() < 0.9:
                            kw[f.attname] = pool[-1]
                            continue
                        if not pool or (f.null and rng.random() < 0.2):
                            if f.null:
                                kw[f.attname] = None
                                continue
                        if f.unique:
                            free = [p for p in pool if p not in cls._used(info, f, made)]
                            if not free:
                                kw = None
                                break
                            kw[f.attname] = rng.choice(free)
                            made.setdefault('%s.%s' % (info.name, f.name), []).append(kw[f.attname])
                        else:
                            kw[f.attname] = rng.choice(pool)
                    else:
                        v = value(rng, f, world, made)
                        kw[f.attname] = v if v is None or f.kind not in schema.READS else schema.READS[f.kind](v)
                if kw is None:
                    continue
                if info.pk.kind == 'str':
                    kw[info.pk.attname] = CODES[i]
                elif info.pk.kind == 'uuid':
                    kw[info.pk.attname] = uid(i)
                cls.fix(world, info, kw, made, rng)
                for f in info.writable:
                    if f.to and kw[f.attname] is not None:
                        kw[f.attname] = codes[f.target, kw[f.attname]]
                for f in info.codes:
                    kw[f.attname] = code(f, i + 1)
                obj = info.model._base_manager.create(**kw)
                made[info.name].append(obj.pk)
                for f in info.codes:
                    codes[info.name, obj.pk] = kw[f.attname]
        for info in world.schema.zone_models(cls.name):
            for mm in info.m2ms:
                if mm.derived or not mm.auto:
                    continue
                for pk in made[info.name]:
                    pool = made[mm.target]
                    pick = [p for p in pool if rng.random() < 0.5 and not (mm.target == info.name and p == pk)]
                    if pick:
                        getattr(info.model._base_manager.get(pk=pk), mm.name).add(*pick)

    @staticmethod
    def _used(info, f, made):
        return made.get('%s.%s' % (info.name, f.name), [])

    @classmethod
    def fix(cls, world, info, kw, made, rng):
        if info.name in schema.GENERIC:
            t = rng.choice(schema.GENERIC[info.name])
            kw['content_type_id'] = world.cts[t]
            kw['object_id'] = rng.choice(made[t])


class Forum(Zone):
    name = 'forum'
    sizes = {'Person': 3, 'Group': 3, 'Item': 5, 'Att': 3, 'Ext': 2, 'Tag': 4}

    @staticmethod
    def expected(w, s):
        out = {}
        G, P, I, A, E, T = s['Group'], s['Person'], s['Item'], s['Att'], s['Ext'], s['Tag']
        bm = s['Person.bookmarks']
        badge = {p: '%s#%s' % (r['name'].upper(), r['level']) for p, r in P.items()}
        path = recursive(G, 'parent_id', lambda pk, r, up: (up + '/' if up is not None else '') + r['title'])
        oname = {i: badge[r['owner_id']] if r['owner_id'] in P else '-' for i, r in I.items()}
        kids = {}
        for i, r in I.items():
            kids.setdefault(r['reply_to_id'], []).append(i)

        def replies(i, d=0):
            return sum(1 + replies(k, d + 1) for k in kids.get(i, ()))
        for g, r in G.items():
            mine = [i for i, x in I.items() if x['group_id'] == g]
            out['Group', g, 'path'] = path[g]
            out['Group', g, 'owner_list'] = ','.join(sorted(oname[i] for i in mine))
            out['Group', g, 'tag_list'] = ','.join(sorted(t['name'] for t in T.values()
                                                          if t['content_type_id'] == w.cts['Group'] and t['object_id'] == g))
            out['Group', g, 'n_items'] = len(mine)
            out['Group', g, 'size_sum'] = sum(I[i]['size'] for i in mine)
            out['Group.owners', g] = set(I[i]['owner_id'] for i in mine if I[i]['owner_id'] in P)
        for p, r in P.items():
            out['Person', p, 'badge'] = badge[p]
            out['Person', p, 'bm_list'] = ','.join(sorted(I[i]['title'] for (q, i) in bm if q == p and i in I))
        for i, r in I.items():
            out['Item', i, 'group_path'] = path[r['group_id']] if r['group_id'] in G else '-'
            out['Item', i, 'owner_name'] = oname[i]
            out['Item', i, 'n_replies'] = replies(i)
            out['Item', i, 'fan_list'] = ','.join(sorted(P[p]['name'] for (p, j) in bm if j == i and p in P))
            out['Item', i, 'tag_list'] = ','.join(sorted(t['name'] for t in T.values()
                                                         if t['content_type_id'] == w.cts['Item'] and t['object_id'] == i))
        for a, r in A.items():
            i = I.get(r['item_id'])
            out['Att', a, 'group_id'] = i['group_id'] if i is not None and i['group_id'] in G else None
            out['Att', a, 'owner_id'] = i['owner_id'] if i is not None and i['owner_id'] in P else None
        for e, r in E.items():
            i = I.get(r['item_id'])
            out['Ext', e, 'label'] = '%s:%s' % (r['val'], '-' if i is None else i['title'])
        return out


class Aggs(Zone):
    name = 'agg'
    sizes = {'Agg': 3, 'AggItem': 5, 'AggT': 2, 'AggTI': 3, 'AggOne': 2}

    @staticmethod
    def expected(w, s):
        out = {}
        IT = s['AggItem'].values()
        for a in s['Agg']:
            mine = [r for r in IT if r['agg_id'] == a]
            out['Agg', a, 'n'] = len(mine)
            out['Agg', a, 'total'] = sum(r['qty'] or 0 for r in mine)
            out['Agg', a, 'n_alt'] = len([r for r in IT if r['alt_id'] == a])
            if w.vendor != 'sqlite3':
                same = (lambda t: t.lower().rstrip(' ')) if w.vendor == 'mysql' else (lambda t: t)    # the collation
                out['Agg', a, 'n_on'] = len([r for r in mine if r['active']])
                out['Agg', a, 'n_big'] = len([r for r in mine if r['qty'] is not None and r['qty'] > 5 and same(r['text']) != 'x'])
                out['Agg', a, 't_on'] = sum(r['qty'] or 0 for r in mine if r['active'])
                out['Agg', a, 't_off'] = sum(r['qty'] or 0 for r in mine if not r['active'])
                out['Agg', a, 'n_off'] = len([r for r in mine if not r['active']])
                out['Agg', a, 'n_two'] = len([r for r in mine if r['active'] and r['qty'] is not None and r['qty'] < 8
                                              and not (same(r['text']) == 'x' and r['qty'] > 3)])
                out['Agg', a, 'n_in'] = len([r for r in IT if r['alt_id'] == a and r['qty'] in (1, 2, 3, 4)])
                out['Agg', a, 'n_void'] = len([r for r in mine if r['qty'] is None])
                out['Agg', a, 'n_five'] = len([r for r in mine if r['text'].startswith('5')])
        for t, r in s['AggT'].items():
            out['AggT', t, 'n'] = len([x for x in s['AggTI'].values() if x['t_id'] == t])
            out['AggT', t, 'label'] = '<%s>' % r['name']
        for t, r in s.get('AggTree', {}).items():
            kids = [x['w'] for x in s['AggTree'].values() if x['up_id'] == t]
            out['AggTree', t, 'n'] = len(kids)
            out['AggTree', t, 'total'] = sum(kids)
            out['AggTree', t, 'twice'] = r['w'] * 2
        return out


class Skip(Zone):
    name = 'skip'
    sizes = {'SSrc': 2, 'SSkip': 3, 'SSrc2': 2, 'SDepA': 2, 'SDepB': 2, 'SField': 2, 'SLoopA': 2, 'SLoopB': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['SSkip'].items():
            x = s['SSrc'].get(r['src_id'])
            out['SSkip', k, 'val'] = '%s|%s' % (r['own'], '-' if x is None else x['text'])
        for k, r in s['SDepA'].items():
            x = s['SSrc2'].get(r['src_id'])
            out['SDepA', k, 'val'] = '-' if x is None else '%s/%s' % (x['text'], x['extra'])
        for k, r in s['SDepB'].items():
            x = s['SSrc2'].get(r['src_id'])
            out['SDepB', k, 'val'] = '-' if x is None else '%s/%s' % (x['text'], x['hits'])
        for k, r in s['SField'].items():
            out['SField', k, 'label'] = '[%s]' % r['name']
        for k, r in s['SLoopA'].items():
            out['SLoopA', k, 'kids'] = ','.join(sorted(b['name'] for b in s['SLoopB'].values() if b['a_id'] == k))
        for k, r in s['SLoopB'].items():
            x = s['SLoopA'].get(r['a_id'])
            out['SLoopB', k, 'a_name'] = '-' if x is None else x['name']
        return out


class Skip2(Zone):
    name = 'skip2'
    sizes = {'KSrc': 3, 'KMany': 3, 'KKey': 3, 'KGen': 2, 'KTag': 4}

    @staticmethod
    def expected(w, s):
        out = {}
        links = s['KMany.srcs']
        for k in s['KSrc']:
            out['KSrc', k, 'names'] = ','.join(sorted(s['KMany'][m]['name'] for m, x in links if x == k and m in s['KMany']))
        for k in s['KMany']:
            out['KMany', k, 'texts'] = ','.join(sorted(s['KSrc'][x]['text'] for m, x in links if m == k and x in s['KSrc']))
        for k in s['KGen']:
            out['KGen', k, 'tag_list'] = ','.join(sorted(t['name'] for t in s['KTag'].values()
                                                         if t['content_type_id'] == w.cts['KGen'] and t['object_id'] == k))
        return out


class Skip3(Zone):
    name = 'skip3'
    sizes = {'XA': 2, 'XB': 2, 'XC': 4, 'XD': 2, 'XE': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['XA'].items():
            mine = sorted(x['a'] for x in s['XC'].values() if x['pa_id'] == k)
            out['XA', k, 'val'] = '%s|%s' % (r['b'], mine)
            out['XA', k, 'n'] = len(mine)
            out['XA', k, 'total'] = sum(mine)
        for k, r in s['XB'].items():
            out['XB', k, 'val'] = '%s|%s' % (r['a'], sorted(x['b'] for x in s['XC'].values() if x['pb_id'] == k))
        for k, r in s['XD'].items():
            out['XD', k, 'v1'] = 'b%s' % r['b']
            out['XD', k, 'v2'] = 'a%s' % r['a']
        for k, r in s['XE'].items():
            x = s['XC'].get(r['xc_id'])
            out['XE', k, 'v1'] = '-' if x is None else 'b%s' % x['b']
            out['XE', k, 'v2'] = '-' if x is None else 'a%s' % x['a']
        return out


class Cached(Zone):
    name = 'cached'
    sizes = {'CacheB': 2, 'CacheA': 3, 'CacheT': 2, 'CacheU': 3, 'CacheX': 2, 'CacheY': 2}

    @staticmethod
    def expected(w, s):
        return {}

    @staticmethod
    def cached_values(s):
        out = {}
        for k, r in s['CacheA'].items():
            b = s['CacheB'].get(r['b_id'])
            out['CacheA', k, 'cdata'] = None if b is None else '%s:%s' % (b['data'], b['more'])
        for k, r in s['CacheT'].items():
            out['CacheT', k, 'names'] = ','.join(sorted(u['name'] for u in s['CacheU'].values() if u['t_id'] == k)) or 'none'
        for m in ('CacheX', 'CacheY'):
            for k, r in s[m].items():
                out[m, k, 'plain'] = s['CacheB'][r['b_id']]['data'] if r['b_id'] in s['CacheB'] else ''
        return out


class Pks(Zone):
    name = 'pks'
    sizes = {'PT': 3, 'PC': 4, 'PU': 2, 'PK': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['PT'].items():
            out['PT', k, 'kids'] = ','.join(sorted(c['name'] for c in s['PC'].values() if c['parent_id'] == k))
        for k, r in s['PC'].items():
            p = s['PT'].get(r['parent_id'])
            out['PC', k, 'up'] = '-' if p is None else '%s=%s' % (p['code'], p['label'])
        for k, r in s['PU'].items():
            out['PU', k, 'link_list'] = ','.join(sorted(s['PT'][t]['label'] for (u, t) in s['PU.links'] if u == k and t in s['PT']))
        for k, r in s['PK'].items():
            u = s['PU'].get(r['u_id'])
            out['PK', k, 'u_name'] = '-' if u is None else u['name']
        return out


class Chain(Zone):
    name = 'chain'
    sizes = {'D1': 2, 'D2': 3, 'D3': 3, 'D4': 4}

    @staticmethod
    def expected(w, s):
        out = {}
        D1, D2, D3, D4 = s['D1'], s['D2'], s['D3'], s['D4']
        t2 = {k: '%s.%s' % (D1[r['up_id']]['name'] if r['up_id'] in D1 else '', r['name']) for k, r in D2.items()}
        t3 = {k: '%s.%s' % (t2[r['up_id']] if r['up_id'] in D2 else '', r['name']) for k, r in D3.items()}
        t4 = {k: t3[r['up_id']] if r['up_id'] in D3 else '' for k, r in D4.items()}
        l3 = {k: sum(r['w'] for r in D4.values() if r['up_id'] == k) for k in D3}
        l2 = {k: sum(l3[j] for j, r in D3.items() if r['up_id'] == k) for k in D2}
        l1 = {k: sum(l2[j] for j, r in D2.items() if r['up_id'] == k) for k in D1}
        for n, t in (('D2', t2), ('D3', t3), ('D4', t4)):
            for k, v in t.items():
                out[n, k, 'trail'] = v
        for n, t in (('D1', l1), ('D2', l2), ('D3', l3)):
            for k, v in t.items():
                out[n, k, 'leafs'] = v
        return out


class M2M(Zone):
    name = 'm2m'
    sizes = {'MP': 3, 'ML': 2, 'MR': 4, 'MQ': 2, 'MT': 2, 'MThru': 3, 'MS': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        th = s['MThru'].values()
        for k, r in s['MP'].items():
            out['MP', k, 't_names'] = ','.join(sorted(s['MT'][x['t_id']]['name'] for x in th if x['p_id'] == k and x['t_id'] in s['MT']))
        for k, r in s['MT'].items():
            out['MT', k, 'p_names'] = ','.join(sorted(s['MP'][x['p_id']]['name'] for x in th if x['t_id'] == k and x['p_id'] in s['MP']))
        for k, x in s['ML'].items():
            out['ML.members', k] = set(r['mp_id'] for r in s['MR'].values()
                                       if r['ml_id'] == k and r['mp_id'] in s['MP'] and (x['odd'] or r['mp_id'] % 2 == 0))
        for k, x in s['MQ'].items():
            p = s['MP'].get(x['mp_id'])
            out['MQ.pals', k] = set() if p is None or p['name'] == x['name'] else {x['mp_id']}
        S = s['MS']
        for k in S:
            out['MS', k, 'idols'] = ','.join(sorted(S[b]['name'] for a, b in s['MS.follows'] if a == k and b in S))
            out['MS', k, 'fans'] = ','.join(sorted(S[a]['name'] for a, b in s['MS.follows'] if b == k and a in S))
        return out


class Misc(Zone):
    name = 'misc'
    sizes = {'LongTable': 2, 'LongChild': 3, 'Managed': 3, 'ManagedChild': 3, 'ConcA': 2, 'ConcB': 2, 'KeyA': 2, 'KeyB': 2,
             'AbsA': 2, 'AbsB': 2, 'AbsAKid': 2, 'AbsBKid': 2}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['LongTable'].items():
            mine = [c for c in s['LongChild'].values() if c['parent_id'] == k]
            out['LongTable', k, 'kids'] = ','.join(sorted(c['name'] for c in mine))
            out['LongTable', k, 'n'] = len(mine)
        for k, r in s['LongChild'].items():
            p = s['LongTable'].get(r['parent_id'])
            out['LongChild', k, 'up'] = '-' if p is None else p['name']
        for k, r in s['Managed'].items():
            out['Managed', k, 'shout'] = r['name'].upper() + '!'
            out['Managed', k, 'n'] = len([c for c in s['ManagedChild'].values() if c['parent_id'] == k])
        for k, r in s['ManagedChild'].items():
            p = s['Managed'].get(r['parent_id'])
            out['ManagedChild', k, 'up'] = '-' if p is None else p['name']
        for k, r in s['ConcA'].items():
            out['ConcA', k, 'tagline'] = '%s~%s' % (r['name'], r['val'])
        for k, r in s['ConcB'].items():
            out['ConcB', k, 'tagline'] = '%s~%s' % (r['name'], r['val'])
            p = s['ConcA'].get(r['other_id'])
            out['ConcB', k, 'other_line'] = '-' if p is None else '%s~%s' % (p['name'], p['val'])
        for m in ('AbsA', 'AbsB'):
            for k in s[m]:
                mine = [c['w'] or 0 for c in s[m + 'Kid'].values() if c['up_id'] == k]
                out[m, k, 'n'] = len(mine)
                out[m, k, 'total'] = sum(mine)
        return out


class Abstract(Zone):
    name = 'abstract'
    sizes = {'HSrc': 3, 'HOne': 3, 'HTwo': 3, 'HThree': 3, 'HKid': 3, 'HTag': 4}

    @staticmethod
    def expected(w, s):
        out = {}
        for m in ('HOne', 'HTwo', 'HThree'):
            path = recursive(s[m], 'up_id', lambda pk, r, up: (up + '/' if up is not None else '') + r['name'])
            for k, r in s[m].items():
                out[m, k, 'src_name'] = s['HSrc'][r['src_id']]['name'] if r['src_id'] in s['HSrc'] else '-'
                out[m, k, 'same_id'] = r['src_id'] if r['src_id'] in s['HSrc'] else None
                out[m, k, 'path'] = path[k]
                out[m, k, 'tag_list'] = ','.join(sorted(t['name'] for t in s['HTag'].values() if t['content_type_id'] == w.cts[m] and t['object_id'] == k))
        for m, f in (('HOne', 'one_id'), ('HThree', 'three_id')):
            for k, r in s[m].items():
                mine = [c['w'] for c in s['HKid'].values() if c[f] == k]
                out[m, k, 'n'] = len(mine)
                if m == 'HOne':
                    out[m, k, 'total'] = sum(mine)
                else:
                    out[m, k, 'two_name'] = s['HTwo'][r['two_id']]['name'] if r['two_id'] in s['HTwo'] else '-'
        return out


class Codes(Zone):
    name = 'codes'
    sizes = {'QP': 4, 'QC': 4, 'QK': 2, 'QL': 3, 'QM': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        by = {r['code']: r for r in s['QP'].values()}
        path = recursive(by, 'up_id', lambda code, r, up: (up + '/' if up is not None else '') + r['name'])
        for k, r in s['QP'].items():
            mine = [c for c in s['QC'].values() if c['parent_id'] == r['code']]
            out['QP', k, 'path'] = path[r['code']]
            out['QP', k, 'kid_list'] = ','.join(sorted(c['name'] for c in mine))
            out['QP', k, 'n'] = len(mine)
            out['QP', k, 'total'] = sum(c['qty'] or 0 for c in mine)
        for k, r in s['QC'].items():
            out['QC', k, 'parent_name'] = by[r['parent_id']]['name'] if r['parent_id'] in by else '-'
        for k, r in s['QM'].items():
            c = s['QC'].get(r['c_id'])
            out['QM', k, 'root_id'] = out['QM', k, 'root_code_id'] = None if c is None else c['parent_id']
        return out


class Types(Zone):
    name = 'types'
    sizes = {'TSrc': 3, 'TDep': 4, 'TAll': 2, 'TKey': 2}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['TDep'].items():
            t = s['TSrc'].get(r['src_id'])
            out['TDep', k, 'digest'] = None if t is None else '|'.join([
                '%d%s' % (len(t['text']), t['text'][-2:]), str(t['dec']), str(t['num']), str(t['at']), str(t['day']), t['bin'][:4] + t['bin'][-4:],
                str(t['flag']), str(t['big'])])
            out['TDep', k, 'price'] = None if t is None or t['dec'] is None else '%.2f' % (decimal.Decimal(t['dec']) + decimal.Decimal(r['own']))
            out['TDep', k, 'latest'] = None if t is None else t['at']
            out['TDep', k, 'yes'] = int(t is not None and t['flag'] == 1)
            out['TDep', k, 'ratio'] = None if t is None else t['num']
            out['TDep', k, 'big'] = None if t is None else t['big']
            out['TDep', k, 'body'] = None if t is None else t['text']
        for k, r in s['TAll'].items():
            mine = [t for t in s['TSrc'].values() if t['all_id'] == k]
            out['TAll', k, 'total'] = '%.2f' % sum(decimal.Decimal(t['dec'] or 0) for t in mine)
            out['TAll', k, 'last'] = max([t['day'] for t in mine if t['day']] or [None])
            out['TAll', k, 'n'] = len(mine)
        return out


class Cols(Zone):
    name = 'cols'
    sizes = {'NP': 2, 'NC': 3, 'NK': 3, 'NY': 2, 'NH': 2, 'NX': 2, 'NG': 2, 'NF': 2, 'NTag': 3}

    @staticmethod
    def expected(w, s):
        out = {}
        for k, r in s['NP'].items():
            mine = [c for c in s['NC'].values() if c['nc_up'] == k]
            out['NP', k, 'np_list'] = ','.join(sorted(c['nc_name'] for c in mine))
            out['NP', k, 'np_n'] = len(mine)
            out['NP', k, 'np_total'] = sum(c['nc_qty'] or 0 for c in mine)
        for k, r in s['NC'].items():
            out['NC', k, 'nc_both'] = '&'.join('-' if p is None else p['np_name'] for p in (s['NP'].get(r['nc_up']), s['NP'].get(r['nc_alt'])))
        for k, r in s['NX'].items():
            out['NX', k, 'nx_names'] = ','.join(sorted(s['NH'][h]['nh_name'] for x, h in s['NX.hubs'] if x == k and h in s['NH']))
        for k, r in s['NF'].items():
            out['NF', k, 'nf_tags'] = ','.join(sorted(t['nt_name'] for t in s['NTag'].values()
                                                      if t['nt_type'] == w.cts['NF'] and t['nt_obj'] == k))
        return out


ZONES = {z.name: z for z in (Forum, Aggs, Skip, Skip2, Skip3, Cached, Pks, Chain, M2M, Misc, Abstract, Codes, Cols, Types)}


def diff(world, zone, s, kinds=None):
    """Differences between the stored denormalized values of a committed snapshot and the reference."""
    out = []
    exp = ZONES[zone].expected(world, s)
    for key, want in exp.items():
        if len(key) == 2:
            if kinds is not None and 'func' not in kinds:
                continue
            have = set(b for (a, b) in s[key[0]] if a == key[1])
        else:
            if kinds is not None and kind_of(world, key) not in kinds:
                continue
            have = s[key[0]][key[1]][key[2]]
        if have != want:
            out.append((key, have, want))
    return out


_kinds = {}


def kind_of(world, key):
    k = (key[0], key[2])
    v = _kinds.get(k)
    if v is None:
        for f in world.schema.infos[key[0]].fields:
            if f.column == key[2]:
                v = _kinds[k] = f.denorm_kind
    return v


def base_view(world, zone, s):
    """Only what the clients own: ordinary columns, rows and links."""
    out = {}
    for t in world.schema.zone_tables(zone):
        if t.m2m:
            if not t.derived:
                out[t.name] = s[t.name]
        else:
            cols = [c for c in t.base_columns]
            stamps = [f.column for f in world.schema.infos[t.name].fields if f.stamp]
            cols = [c for c in cols if c not in stamps]
            out[t.name] = {pk: tuple(r[c] for c in cols) for pk, r in s[t.name].items()}
    return out


def key_views(world, zone, s):
    """For every row with a cache key: (its key, everything the key is declared to depend on, own foreign key)."""
    out = {}

    def rel(rows):
        return tuple(sorted(rows, key=repr))

    def row(t, pk):
        r = s[t].get(pk)
        return None if r is None else (pk,) + tuple(r.values())
    if 'Group' in s:
        items = {}
        for i, r in s['Item'].items():
            items.setdefault(r['group_id'], []).append(row('Item', i))
        for g, r in s['Group'].items():
            out['Group', g] = (r['gkey'], rel(items.get(g, ())))
        marks = {}
        for p, i in s['Person.bookmarks']:
            marks.setdefault(p, []).append(row('Item', i))
        for p, r in s['Person'].items():
            out['Person', p] = (r['pkey'], rel(marks.get(p, ())))
        for a, r in s['Att'].items():
            out['Att', a] = (r['akey'], row('Item', r['item_id']), r['item_id'])
    if 'CacheA' in s:
        for a, r in s['CacheA'].items():
            out['CacheA', a] = (r['cdata'], row('CacheB', r['b_id']), r['b_id'])
        for m in ('CacheX', 'CacheY'):
            for k, r in s[m].items():
                out[m, k] = (r['plain'], row('CacheB', r['b_id']), r['b_id'])
        for t, r in s['CacheT'].items():
            out['CacheT', t] = (r['names'], rel(row('CacheU', u) for u, x in s['CacheU'].items() if x['t_id'] == t))
    if 'KKey' in s:
        for k, r in s['KKey'].items():
            x = s['KSrc'].get(r['src_id'])
            out['KKey', k] = (r['kkey'], None if x is None else (x['text'], x['names']), r['src_id'])
    if 'PT' in s:
        for t, r in s['PT'].items():
            out['PT', t] = (r['tkey'], rel(row('PC', c) for c, x in s['PC'].items() if x['parent_id'] == t))
    if 'MT' in s:
        for t, r in s['MT'].items():
            out['MT', t] = (r['mkey'], rel((x['p_id'], row('MP', x['p_id'])) for x in s['MThru'].values() if x['t_id'] == t))
    if 'TKey' in s:
        for k, r in s['TKey'].items():
            out['TKey', k] = (r['tkey'], row('TSrc', r['src_id']), r['src_id'])
    if 'KeyA' in s:
        for m in ('KeyA', 'KeyB'):
            for k, r in s[m].items():
                out[m, k] = (r['bkey'], row('ConcA', r['other_id']), r['other_id'])
    if 'QK' in s:
        by = {r['code']: row('QP', k) for k, r in s['QP'].items()}
        for k, r in s['QK'].items():
            out['QK', k] = (r['qkey'], by.get(r['parent_id']), r['parent_id'])
        for k, r in s['QL'].items():
            out['QL', k] = (r['lkey'], rel(row('QM', m) for m, x in s['QM'].items() if x['parent_id'] == r['code']))
    if 'NK' in s:
        for k, r in s['NK'].items():
            out['NK', k] = (r['nk_key'], row('NP', r['nk_up']), r['nk_up'])
        for k, r in s['NX'].items():
            out['NX', k] = (r['nx_key'], rel(row('NH', h) for x, h in s['NX.hubs'] if x == k))
        for k, r in s['NY'].items():
            out['NY', k] = (r['ny_key'], rel(row('NH', h) for h, y in s['NH.ys'] if y == k))
        for k, r in s['NG'].items():
            out['NG', k] = (r['ng_key'], rel(row('NTag', t) for t, x in s['NTag'].items() if x['nt_type'] == world.cts['NG'] and x['nt_obj'] == k))
    return {k: v if len(v) == 3 else v + (None,) for k, v in out.items()}
