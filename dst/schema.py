"""What the simulator knows about the tables of the simulated application."""
import datetime
import decimal

from django.db import models as dj

ZONE_MODELS = {
    'forum': ['Person', 'Group', 'Item', 'Att', 'Ext', 'Tag'],
    'agg': ['Agg', 'AggItem', 'AggOne', 'AggT', 'AggTI', 'AggTree'],
    'skip': ['SSrc', 'SSkip', 'SSrc2', 'SDepA', 'SDepB', 'SField', 'SLoopA', 'SLoopB'],
    'skip2': ['KSrc', 'KMany', 'KKey', 'KGen', 'KTag'],
    'skip3': ['XA', 'XB', 'XC', 'XD', 'XE'],
    'cached': ['CacheB', 'CacheA', 'CacheT', 'CacheU', 'CacheX', 'CacheY'],
    'pks': ['PT', 'PC', 'PU', 'PK'],
    'chain': ['D1', 'D2', 'D3', 'D4'],
    'm2m': ['MP', 'ML', 'MR', 'MQ', 'MT', 'MThru', 'MS'],
    'misc': ['LongTable', 'LongChild', 'Managed', 'ManagedChild', 'ConcA', 'ConcB', 'KeyA', 'KeyB', 'AbsA', 'AbsB', 'AbsAKid', 'AbsBKid'],
    'abstract': ['HSrc', 'HOne', 'HTwo', 'HThree', 'HKid', 'HTag'],
    'codes': ['QP', 'QC', 'QK', 'QL', 'QM'],
    'types': ['TAll', 'TSrc', 'TDep', 'TKey'],
    'cols': ['NP', 'NC', 'NK', 'NY', 'NH', 'NX', 'NG', 'NF', 'NTag'],
}


# Values that are not plain numbers or strings travel as strings, in scripts and snapshots alike: how they look, and how they are read.
LOOKS = {
    'dec': lambda v: '%.2f' % v,
    'float': lambda v: repr(float(v)),
    'time': lambda v: str(v if getattr(v, 'tzinfo', None) is None else v.astimezone(datetime.timezone.utc).replace(tzinfo=None)),
    'date': str,
    'bin': lambda v: bytes(v).hex(),
}
READS = {
    'dec': decimal.Decimal,
    'float': float,
    'time': lambda v: datetime.datetime.strptime(v, '%Y-%m-%d %H:%M:%S.%f' if '.' in v else '%Y-%m-%d %H:%M:%S'),
    'date': lambda v: datetime.datetime.strptime(v, '%Y-%m-%d').date(),
    'bin': bytes.fromhex,
}
KINDS = [(dj.DecimalField, 'dec'), (dj.FloatField, 'float'), (dj.DateTimeField, 'time'), (dj.DateField, 'date'), (dj.BinaryField, 'bin'),
         (dj.BigIntegerField, 'int')]


class Table(object):
    """A model's table, or the table behind an automatically created many-to-many relation."""

    def __init__(self, name, table):
        self.name = name
        self.table = table
        self.m2m = False
        self._sql = {}

    def select_sql(self, qn, everything=False):
        s = self._sql.get(everything)
        if s is None:
            cols = self.all_columns if everything else self.columns
            s = 'SELECT %s FROM %s' % (', '.join(qn(c) for c in cols), qn(self.table))
            if everything:
                s += ' ORDER BY %s' % qn(self.pk_column)
            self._sql[everything] = s
        return s


# what the rows of a model may be attached to
GENERIC = {'Tag': ['Group', 'Item'], 'KTag': ['KGen', 'KSrc'], 'NTag': ['NG', 'NF'], 'HTag': ['HOne', 'HTwo', 'HThree']}
CACHED = ('CacheA.cdata', 'CacheT.names', 'CacheBase.plain')


def denorm_kind(model, f):
    """How a field is denormalized, from the way the simulated application declares it."""
    from denorm import CountField, CacheKeyField
    from denorm.fields import SumField
    from .simhooks import FUNCTIONS
    for c in model.__mro__:
        n = '%s.%s' % (c.__name__, f.name)
        if n in CACHED:
            return 'cached'
        if n in FUNCTIONS:
            return 'func'
    if isinstance(f, (CountField, SumField)):
        return 'agg'
    if isinstance(f, CacheKeyField):
        return 'key'
    return None


class FieldInfo(object):
    def __init__(self, f, kind):
        from .simapp.models import StampField
        self.name = f.name
        self.attname = f.attname
        self.column = f.column
        self.pk = f.primary_key
        self.auto = isinstance(f, dj.AutoField)
        self.denorm_kind = kind         # func, agg, key, cached or None
        self.derived = kind is not None
        self.stamp = isinstance(f, StampField)
        self.null = f.null
        self.target = f.remote_field.model.__name__ if f.remote_field else None
        self.to = None      # the field a foreign key refers to, if it is not the primary key
        if f.remote_field and not f.foreign_related_fields[0].primary_key:
            self.to = f.foreign_related_fields[0].attname
        self.unique = f.unique
        self.code = f.unique and f.name == 'code' and not f.primary_key     # given to a row when it is created, for good
        self.max_length = getattr(f, 'max_length', None)
        if self.target:
            self.kind = 'fk'
        elif isinstance(f, (dj.BooleanField, dj.NullBooleanField)):
            self.kind = 'bool'
        elif isinstance(f, dj.UUIDField):
            self.kind = 'uuid'
        elif isinstance(f, (dj.CharField, dj.TextField)):
            self.kind = 'str'
        else:
            self.kind = ([k for c, k in KINDS if isinstance(f, c)] or ['int'])[0]
        self.long = isinstance(f, dj.TextField)
        self.big = isinstance(f, dj.BigIntegerField)


class M2MInfo(object):
    def __init__(self, model, f):
        self.name = f.name
        self.model = model.__name__
        self.target = f.remote_field.model.__name__
        self.auto = f.remote_field.through._meta.auto_created
        self.derived = denorm_kind(model, f) is not None
        self.reverse = f.remote_field.get_accessor_name()


class ModelInfo(object):
    def __init__(self, m):
        self.model = m
        self.name = m.__name__
        self.fields = [FieldInfo(f, denorm_kind(m, f)) for f in m._meta.local_concrete_fields]
        self.pk = [f for f in self.fields if f.pk][0]
        self.base = [f for f in self.fields if not f.derived]
        self.writable = [f for f in self.base if not f.pk and not f.stamp and not f.code]
        self.codes = [f for f in self.base if f.code]
        self.reads = {f.attname: READS[f.kind] for f in self.fields if f.kind in READS}
        self.derived = [f for f in self.fields if f.derived]
        self.m2ms = [M2MInfo(m, f) for f in m._meta.local_many_to_many]
        self.table = m._meta.db_table
        self.proxy = None


class Schema(object):
    def __init__(self, models):
        self.infos = {n: ModelInfo(m) for n, m in models.items() if not m._meta.proxy}
        for m in models.values():
            if m._meta.proxy:
                self.infos[m._meta.concrete_model.__name__].proxy = m
        self._zone_tables = {}
        for zone, names in ZONE_MODELS.items():
            ts = []
            names = [n for n in names if n in self.infos]
            for n in names:
                info = self.infos[n]
                t = Table(n, info.table)
                t.columns = [f.column for f in info.fields]
                t.all_columns = t.columns
                t.pk_column = info.pk.column
                t.pk_index = t.pk_index_all = t.columns.index(info.pk.column)
                t.auto_pk = info.pk.column if info.pk.auto else None
                t.looks = {i: LOOKS[f.kind] for i, f in enumerate(info.fields) if f.kind in LOOKS}
                t.base_columns = [f.column for f in info.base]
                t.derived_columns = [f.column for f in info.derived]
                ts.append(t)
            for n in names:
                info = self.infos[n]
                for mm in info.m2ms:
                    if not mm.auto:
                        continue
                    f = info.model._meta.get_field(mm.name)
                    t = Table('%s.%s' % (n, mm.name), f.m2m_db_table())
                    t.m2m = True
                    t.derived = mm.derived
                    t.columns = [f.m2m_column_name(), f.m2m_reverse_name()]
                    t.all_columns = ['id'] + t.columns
                    t.pk_column = 'id'
                    t.pk_index_all = 0
                    t.auto_pk = 'id'
                    ts.append(t)
            self._zone_tables[zone] = ts

    def zone_tables(self, zone):
        if zone in self._zone_tables:
            return self._zone_tables[zone]
        ts = []
        for z in zone.split('+'):
            ts += self._zone_tables[z]
        self._zone_tables[zone] = ts
        return ts

    def dangling_sql(self, zone, qn):
        """A query whose result is empty when every reference in the zone names an existing row."""
        key = 'dangling', zone
        if key not in self._zone_tables:
            refs = []
            for info in self.zone_models(zone):
                metas = [info.model._meta] + [info.model._meta.get_field(mm.name).remote_field.through._meta for mm in info.m2ms if mm.auto]
                for meta in metas:
                    for f in meta.local_concrete_fields:
                        if f.remote_field:
                            to = f.remote_field.model._meta.concrete_model._meta
                            refs.append('SELECT 1 FROM %s a WHERE a.%s IS NOT NULL AND NOT EXISTS (SELECT 1 FROM %s b WHERE b.%s = a.%s)' % (
                                qn(meta.db_table), qn(f.column), qn(to.db_table), qn(f.foreign_related_fields[0].column), qn(f.column)))
            self._zone_tables[key] = ' UNION ALL '.join(refs)
        return self._zone_tables[key]

    def zone_models(self, zone):
        out = []
        for z in zone.split('+'):
            out += [self.infos[n] for n in ZONE_MODELS[z] if n in self.infos]
        return out
