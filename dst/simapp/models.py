"""The schema of the simulated application: every kind of denormalization, in independent zones.

The denormalization functions are deterministic functions of the data they can see and tolerate vanished relations
(another client may have removed them), like any function used in production has to. Each call is reported to the
simulator, which knows thereby when a row is being recalculated and by whom.
"""
from django.conf import settings
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import models

import denorm
from denorm import depend_on_related, denormalized, CountField, CacheKeyField
from denorm.fields import SumField, cached

from dst import simhooks
from dst.simhooks import computed

SERVER = settings.DST_VENDOR != 'sqlite3'
S = models.SET_NULL
C = models.CASCADE


def pk_of(obj):
    return obj.pk if obj is not None else None


def get(model, pk):
    """The row a foreign key points to, or None if it is NULL or gone."""
    if pk is None:
        return None
    return model._base_manager.filter(pk=pk).first()


class StampField(models.IntegerField):
    """Gets a new value on every save, like an auto_now timestamp."""

    def pre_save(self, instance, add):
        v = simhooks.next_stamp()
        setattr(instance, self.attname, v)
        return v


# ---------------------------------------------------------------------------------------------- zone forum
class Group(models.Model):
    title = models.CharField(max_length=40, default='')
    rank = models.IntegerField(default=0)
    parent = models.ForeignKey('self', null=True, blank=True, on_delete=S)
    n_items = CountField('item_set')
    size_sum = SumField('item_set', field='size')
    gkey = CacheKeyField()
    gkey.depend_on_related('Item')
    tags = GenericRelation('Tag')

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('self', type='forward')
    @computed
    def path(self):
        p = get(Group, self.parent_id)
        return ((p.path + '/') if p is not None else '') + self.title

    @denormalized(models.TextField, default='')
    @depend_on_related('Item')
    @computed
    def owner_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(i.owner_name for i in Item.objects.filter(group_id=self.pk)))

    @denormalized(models.ManyToManyField, 'Person', related_name='owner_groups')
    @depend_on_related('Item')
    @computed
    def owners(self):
        if self.pk is None:
            return []
        ids = set(Item.objects.filter(group_id=self.pk, owner__isnull=False).values_list('owner_id', flat=True))
        return list(Person.objects.filter(pk__in=sorted(ids)).order_by('pk'))

    @denormalized(models.TextField, default='')
    @depend_on_related('Tag')
    @computed
    def tag_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.tags.values_list('name', flat=True)))


class Person(models.Model):
    name = models.CharField(max_length=40, default='')
    level = models.IntegerField(default=0)
    bookmarks = models.ManyToManyField('Item', blank=True, related_name='fans')
    pkey = CacheKeyField()
    pkey.depend_on_related('Item', type='forward_m2m', foreign_key='bookmarks')

    @denormalized(models.CharField, max_length=60, default='')
    @computed
    def badge(self):
        return '%s#%s' % (self.name.upper(), self.level)

    @denormalized(models.TextField, default='')
    @depend_on_related('Item', type='forward_m2m', foreign_key='bookmarks')
    @computed
    def bm_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.bookmarks.values_list('title', flat=True)))


class Item(models.Model):
    group = models.ForeignKey(Group, null=True, blank=True, on_delete=C)
    owner = models.ForeignKey(Person, null=True, blank=True, on_delete=S, related_name='owned')
    reply_to = models.ForeignKey('self', null=True, blank=True, on_delete=S, related_name='replies')
    title = models.CharField(max_length=40, default='')
    note = models.CharField(max_length=40, null=True)
    size = models.IntegerField(default=0)
    tags = GenericRelation('Tag')

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(Group)
    @computed
    def group_path(self):
        g = get(Group, self.group_id)
        return '-' if g is None else g.path

    @denormalized(models.CharField, max_length=80, default='')
    @depend_on_related(Person, foreign_key='owner')
    @computed
    def owner_name(self):
        p = get(Person, self.owner_id)
        return '-' if p is None else p.badge

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('self', type='backward')
    @computed
    def n_replies(self):
        if self.pk is None:
            return 0
        return sum(1 + n for n in Item.objects.filter(reply_to_id=self.pk).values_list('n_replies', flat=True))

    @denormalized(models.TextField, default='')
    @depend_on_related('Person', type='backward_m2m', foreign_key='bookmarks')
    @computed
    def fan_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.fans.values_list('name', flat=True)))

    @denormalized(models.TextField, default='')
    @depend_on_related('Tag')
    @computed
    def tag_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.tags.values_list('name', flat=True)))


class Att(models.Model):
    item = models.ForeignKey(Item, null=True, blank=True, on_delete=C)
    name = models.CharField(max_length=40, default='')
    akey = CacheKeyField()
    akey.depend_on_related(Item)

    @denormalized(models.ForeignKey, Group, null=True, on_delete=S)
    @depend_on_related(Item)
    @computed
    def group(self):
        i = get(Item, self.item_id)
        return get(Group, i.group_id) if i is not None else None

    @denormalized(models.ForeignKey, Person, null=True, on_delete=S, related_name='+')
    @depend_on_related(Item)
    @computed
    def owner(self):
        i = get(Item, self.item_id)
        return pk_of(get(Person, i.owner_id)) if i is not None else None


class Ext(models.Model):
    item = models.OneToOneField(Item, on_delete=C)
    val = models.IntegerField(default=0)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(Item)
    @computed
    def label(self):
        i = get(Item, self.item_id)
        return '%s:%s' % (self.val, '-' if i is None else i.title)


class Tag(models.Model):
    name = models.CharField(max_length=40, default='')
    content_type = models.ForeignKey(ContentType, on_delete=C)
    object_id = models.PositiveIntegerField()
    target = GenericForeignKey()


# ---------------------------------------------------------------------------------------------- zone agg
class Agg(models.Model):
    name = models.CharField(max_length=40, default='')
    n = CountField('aggitem_set')
    total = SumField('aggitem_set', field='qty')
    n_alt = CountField('alts')
    if SERVER:
        n_on = CountField('aggitem_set', filter={'active__exact': True})
        n_big = CountField('aggitem_set', filter={'qty__gt': 5}, exclude={'text__exact': 'x'})
        t_on = SumField('aggitem_set', field='qty', filter={'active__exact': True})
        t_off = SumField('aggitem_set', field='qty', exclude={'active__exact': True})
        n_off = CountField('aggitem_set', exclude={'active__exact': True})
        n_two = CountField('aggitem_set', filter={'active__exact': True, 'qty__lt': 8}, exclude={'text__exact': 'x', 'qty__gt': 3})
        n_in = CountField('alts', filter={'qty__in': [1, 2, 3, 4]})
        n_void = CountField('aggitem_set', filter={'qty__isnull': True})
        n_five = CountField('aggitem_set', filter={'text__startswith': '5'})


class AggItem(models.Model):
    agg = models.ForeignKey(Agg, null=True, blank=True, on_delete=C)
    alt = models.ForeignKey(Agg, null=True, blank=True, on_delete=S, related_name='alts')
    qty = models.IntegerField(default=0, null=True)
    active = models.BooleanField(default=True)
    text = models.CharField(max_length=20, default='')


class AggT(models.Model):
    """Counter on a model with a text primary key, next to an ordinary denormalized field."""
    code = models.CharField(max_length=20, primary_key=True)
    name = models.CharField(max_length=40, default='')
    n = CountField('aggti_set')

    @denormalized(models.CharField, max_length=80, default='')
    @computed
    def label(self):
        return '<%s>' % self.name


class AggTI(models.Model):
    t = models.ForeignKey(AggT, null=True, blank=True, on_delete=C)
    w = models.IntegerField(default=0)


class AggOne(models.Model):
    """One-to-one child counted by its parent."""
    agg = models.OneToOneField(Agg, on_delete=C, null=True, related_name='one')
    w = models.IntegerField(default=0)


if settings.DST_VENDOR != 'mysql':      # where triggers may not change the table they belong to
    class AggTree(models.Model):
        """Counts rows of its own table, next to an ordinary denormalized field."""
        up = models.ForeignKey('self', null=True, blank=True, on_delete=C, related_name='kids')
        w = models.IntegerField(default=0)

        @denormalized(models.IntegerField, default=0)
        @computed
        def twice(self):
            return self.w * 2

        n = CountField('kids')
        total = SumField('kids', field='w')


# ---------------------------------------------------------------------------------------------- zone skip
class SSrc(models.Model):
    text = models.CharField(max_length=40, default='')
    hits = models.IntegerField(default=0)
    stamp = StampField(default=0)


class SSkip(models.Model):
    """Ignores hits and stamp of its source, and its own stamp."""
    src = models.ForeignKey(SSrc, null=True, on_delete=C)
    own = models.CharField(max_length=40, default='')
    touched = StampField(default=0)
    denorm_always_skip = ('touched',)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(SSrc, skip=('hits', 'stamp'))
    @computed
    def val(self):
        s = get(SSrc, self.src_id)
        return '%s|%s' % (self.own, '-' if s is None else s.text)


class SSrc2(models.Model):
    """Two dependents with different skip lists."""
    text = models.CharField(max_length=40, default='')
    hits = models.IntegerField(default=0)
    extra = models.IntegerField(default=0)


class SDepA(models.Model):
    src = models.ForeignKey(SSrc2, null=True, on_delete=C)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(SSrc2, skip=('hits',))
    @computed
    def val(self):
        s = get(SSrc2, self.src_id)
        return '-' if s is None else '%s/%s' % (s.text, s.extra)


class SDepB(models.Model):
    src = models.ForeignKey(SSrc2, null=True, on_delete=C)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(SSrc2, skip=('extra',))
    @computed
    def val(self):
        s = get(SSrc2, self.src_id)
        return '-' if s is None else '%s/%s' % (s.text, s.hits)


class SField(models.Model):
    """Field-level skip together with a model-level always-skip list."""
    name = models.CharField(max_length=40, default='')
    seen = models.IntegerField(default=0)
    touched = StampField(default=0)
    denorm_always_skip = ('touched',)

    @denormalized(models.CharField, max_length=90, default='', skip=('seen',))
    @computed
    def label(self):
        return '[%s]' % self.name


class SLoopA(models.Model):
    """Depends on SLoopB, which depends on SLoopA; both change a stamp on every save."""
    name = models.CharField(max_length=40, default='')
    stamp = StampField(default=0)
    denorm_always_skip = ('stamp',)

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('SLoopB', skip=('stamp',))
    @computed
    def kids(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(b.name for b in SLoopB.objects.filter(a_id=self.pk)))


class SLoopB(models.Model):
    a = models.ForeignKey(SLoopA, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')
    stamp = StampField(default=0)
    denorm_always_skip = ('stamp',)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(SLoopA, skip=('stamp', 'kids'))
    @computed
    def a_name(self):
        a = get(SLoopA, self.a_id)
        return '-' if a is None else a.name


# ---------------------------------------------------------------------------------------------- zone skip2
class KSrc(models.Model):
    """Everybody skips its stamp; some skip more."""
    text = models.CharField(max_length=40, default='')
    hits = models.IntegerField(default=0)
    stamp = StampField(default=0)
    denorm_always_skip = ('stamp',)

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('KMany', skip=('note',))
    @computed
    def names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(KMany.objects.filter(srcs__pk=self.pk).values_list('name', flat=True)))


class KMany(models.Model):
    name = models.CharField(max_length=40, default='')
    note = models.CharField(max_length=40, default='')
    srcs = models.ManyToManyField(KSrc)

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(KSrc, skip=('hits', 'names'))
    @computed
    def texts(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(KSrc.objects.filter(kmany__pk=self.pk).values_list('text', flat=True)))


class KKey(models.Model):
    src = models.ForeignKey(KSrc, null=True, on_delete=C)
    kkey = CacheKeyField()
    kkey.depend_on_related(KSrc, skip=('hits',))


class KTag(models.Model):
    name = models.CharField(max_length=40, default='')
    weight = models.IntegerField(default=0)
    seen = StampField(default=0)
    content_type = models.ForeignKey(ContentType, on_delete=C)
    object_id = models.PositiveIntegerField()
    target = GenericForeignKey()
    denorm_always_skip = ('seen',)


class KGen(models.Model):
    name = models.CharField(max_length=40, default='')
    tags = GenericRelation(KTag)

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(KTag, skip=('weight',))
    @computed
    def tag_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(t.name for t in self.tags.all()))


# ---------------------------------------------------------------------------------------------- zone skip3
class XA(models.Model):
    """The same column names on both sides, skipped on one side each."""
    a = models.IntegerField(default=0)
    b = models.IntegerField(default=0)
    n = CountField('xc_set', skip=('a', 'b'))
    total = SumField('xc_set', field='a', skip=('b',))

    @denormalized(models.CharField, max_length=1000, default='', skip=('a',))
    @depend_on_related('XC', skip=('b',))
    @computed
    def val(self):
        if self.pk is None:
            return '%s|[]' % self.b
        return '%s|%s' % (self.b, sorted(XC.objects.filter(pa_id=self.pk).values_list('a', flat=True)))


class XB(models.Model):
    a = models.IntegerField(default=0)
    b = models.IntegerField(default=0)

    @denormalized(models.CharField, max_length=1000, default='', skip=('b',))
    @depend_on_related('XC', skip=('a',))
    @computed
    def val(self):
        if self.pk is None:
            return '%s|[]' % self.a
        return '%s|%s' % (self.a, sorted(XC.objects.filter(pb_id=self.pk).values_list('b', flat=True)))


class XC(models.Model):
    pa = models.ForeignKey(XA, null=True, on_delete=C)
    pb = models.ForeignKey(XB, null=True, on_delete=C)
    a = models.IntegerField(default=0)
    b = models.IntegerField(default=0)
    c = StampField(default=0)
    denorm_always_skip = ('c',)


class XD(models.Model):
    """Two fields that skip what the other one needs, and what neither needs."""
    a = models.IntegerField(default=0)
    b = models.IntegerField(default=0)
    c = models.IntegerField(default=0)

    @denormalized(models.CharField, max_length=90, default='', skip=('a', 'c'))
    @computed
    def v1(self):
        return 'b%s' % self.b

    @denormalized(models.CharField, max_length=90, default='', skip=('c', 'b'))
    @computed
    def v2(self):
        return 'a%s' % self.a


class XE(models.Model):
    """Two fields that depend on the same model and skip what the other one needs."""
    xc = models.ForeignKey(XC, null=True, on_delete=C)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(XC, skip=('a', 'pa_id', 'pb_id'))
    @computed
    def v1(self):
        x = get(XC, self.xc_id)
        return '-' if x is None else 'b%s' % x.b

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(XC, skip=('b', 'pb_id', 'pa_id'))
    @computed
    def v2(self):
        x = get(XC, self.xc_id)
        return '-' if x is None else 'a%s' % x.a


# ---------------------------------------------------------------------------------------------- zone cached
class CacheB(models.Model):
    data = models.CharField(max_length=40, default='')
    more = models.IntegerField(default=0)


class CacheA(models.Model):
    b = models.ForeignKey(CacheB, on_delete=C)
    own = models.IntegerField(default=0)

    @cached(simhooks.CACHE)
    @depend_on_related(CacheB)
    @computed
    def cdata(self):
        b = get(CacheB, self.b_id)
        return None if b is None else '%s:%s' % (b.data, b.more)


class CacheT(models.Model):
    name = models.CharField(max_length=40, default='')

    @cached(simhooks.CACHE)
    @depend_on_related('CacheU')
    @computed
    def names(self):
        if self.pk is None:
            return 'none'
        return ','.join(sorted(CacheU.objects.filter(t_id=self.pk).values_list('name', flat=True))) or 'none'


class CacheU(models.Model):
    t = models.ForeignKey(CacheT, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')


class CacheBase(models.Model):
    """Abstract model with a cached value that may be empty, made concrete twice."""
    b = models.ForeignKey(CacheB, on_delete=C)

    class Meta:
        abstract = True

    @cached(simhooks.CACHE)
    @depend_on_related(CacheB)
    @computed
    def plain(self):
        b = get(CacheB, self.b_id)
        return '' if b is None else b.data


class CacheX(CacheBase):
    pass


class CacheY(CacheBase):
    pass


# ---------------------------------------------------------------------------------------------- zone pks
class PT(models.Model):
    code = models.CharField(max_length=40, primary_key=True)
    label = models.CharField(max_length=40, default='')
    tkey = CacheKeyField()
    tkey.depend_on_related('PC')

    @denormalized(models.TextField, default='')
    @depend_on_related('PC')
    @computed
    def kids(self):
        return ','.join(sorted(PC.objects.filter(parent_id=self.pk).values_list('name', flat=True)))


class PC(models.Model):
    parent = models.ForeignKey(PT, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(PT)
    @computed
    def up(self):
        p = get(PT, self.parent_id)
        return '-' if p is None else '%s=%s' % (p.code, p.label)


class PU(models.Model):
    uid = models.UUIDField(primary_key=True)
    name = models.CharField(max_length=40, default='')
    links = models.ManyToManyField(PT, related_name='us')

    @denormalized(models.TextField, default='')
    @depend_on_related(PT)
    @computed
    def link_list(self):
        return ','.join(sorted(self.links.values_list('label', flat=True)))


class PK(models.Model):
    u = models.ForeignKey(PU, null=True, on_delete=C)
    n = models.IntegerField(default=0)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(PU)
    @computed
    def u_name(self):
        u = get(PU, self.u_id)
        return '-' if u is None else u.name


# ---------------------------------------------------------------------------------------------- zone chain
class D1(models.Model):
    name = models.CharField(max_length=40, default='')

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('D2')
    @computed
    def leafs(self):
        return 0 if self.pk is None else sum(D2.objects.filter(up_id=self.pk).values_list('leafs', flat=True))


class D2(models.Model):
    up = models.ForeignKey(D1, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(D1)
    @computed
    def trail(self):
        u = get(D1, self.up_id)
        return '%s.%s' % ('' if u is None else u.name, self.name)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('D3')
    @computed
    def leafs(self):
        return 0 if self.pk is None else sum(D3.objects.filter(up_id=self.pk).values_list('leafs', flat=True))


class D3(models.Model):
    up = models.ForeignKey(D2, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(D2)
    @computed
    def trail(self):
        u = get(D2, self.up_id)
        return '%s.%s' % ('' if u is None else u.trail, self.name)

    @denormalized(models.IntegerField, default=0)
    @depend_on_related('D4')
    @computed
    def leafs(self):
        return 0 if self.pk is None else sum(D4.objects.filter(up_id=self.pk).values_list('w', flat=True))


class D4(models.Model):
    up = models.ForeignKey(D3, null=True, on_delete=C)
    w = models.IntegerField(default=1)

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(D3)
    @computed
    def trail(self):
        u = get(D3, self.up_id)
        return '' if u is None else u.trail


# ---------------------------------------------------------------------------------------------- zone m2m
class MP(models.Model):
    name = models.CharField(max_length=40, default='')

    @denormalized(models.TextField, default='')
    @depend_on_related('MT', type='backward_m2m')
    @computed
    def t_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(MT.objects.filter(links__p_id=self.pk).values_list('name', flat=True)))


class ML(models.Model):
    """Its only denormalized field is a many-to-many one, which depends on the row itself as well."""
    name = models.CharField(max_length=40, default='')
    odd = models.BooleanField(default=True)

    @denormalized(models.ManyToManyField, MP, related_name='mls')
    @depend_on_related('MR')
    @computed
    def members(self):
        if self.pk is None:
            return []
        ids = set(MR.objects.filter(ml_id=self.pk, mp__isnull=False).values_list('mp_id', flat=True))
        return list(MP.objects.filter(pk__in=sorted(i for i in ids if self.odd or i % 2 == 0)).order_by('pk'))


class MR(models.Model):
    ml = models.ForeignKey(ML, null=True, on_delete=C)
    mp = models.ForeignKey(MP, null=True, on_delete=C)


class MQ(models.Model):
    """Its many-to-many field depends on what the row refers to, so there are links from the beginning."""
    name = models.CharField(max_length=40, default='')
    mp = models.ForeignKey(MP, null=True, on_delete=C, related_name='+')

    @denormalized(models.ManyToManyField, MP, related_name='mqs')
    @depend_on_related(MP, foreign_key='mp')
    @computed
    def pals(self):
        p = get(MP, self.mp_id)
        return [] if p is None or p.name == self.name else [p]


class MT(models.Model):
    """Many-to-many with an explicit through table."""
    name = models.CharField(max_length=40, default='')
    ps = models.ManyToManyField(MP, through='MThru', related_name='ts')
    mkey = CacheKeyField()
    mkey.depend_on_related(MP, type='forward_m2m')

    @denormalized(models.TextField, default='')
    @depend_on_related(MP, type='forward_m2m')
    @computed
    def p_names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(MP.objects.filter(links__t_id=self.pk).values_list('name', flat=True)))


class MThru(models.Model):
    t = models.ForeignKey(MT, on_delete=C, related_name='links')
    p = models.ForeignKey(MP, on_delete=C, related_name='links')
    note = models.CharField(max_length=10, default='')


class MS(models.Model):
    """Many-to-many with itself, in both directions."""
    name = models.CharField(max_length=40, default='')
    follows = models.ManyToManyField('self', symmetrical=False, blank=True, related_name='followers')

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='forward_m2m', foreign_key='follows')
    @computed
    def idols(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.follows.values_list('name', flat=True)))

    @denormalized(models.TextField, default='')
    @depend_on_related('self', type='backward_m2m', foreign_key='follows')
    @computed
    def fans(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.followers.values_list('name', flat=True)))


# ---------------------------------------------------------------------------------------------- zone types
class TAll(models.Model):
    name = models.CharField(max_length=40, default='')
    n = CountField('tsrc_set')

    @denormalized(models.DecimalField, max_digits=12, decimal_places=2, default=0)
    @depend_on_related('TSrc', type='backward')
    @computed
    def total(self):
        if self.pk is None:
            return 0
        return sum(d or 0 for d in TSrc.objects.filter(all_id=self.pk).values_list('dec', flat=True))

    @denormalized(models.DateField, null=True)
    @depend_on_related('TSrc', type='backward')
    @computed
    def last(self):
        if self.pk is None:
            return None
        return max([d for d in TSrc.objects.filter(all_id=self.pk).values_list('day', flat=True) if d] or [None])


class TSrc(models.Model):
    """A column of every type."""
    all = models.ForeignKey(TAll, null=True, on_delete=S)
    text = models.TextField(default='')
    dec = models.DecimalField(max_digits=8, decimal_places=2, null=True)
    num = models.FloatField(null=True)
    at = models.DateTimeField(null=True)
    day = models.DateField(null=True)
    bin = models.BinaryField(default=b'')
    flag = models.NullBooleanField()
    big = models.BigIntegerField(default=0)


class TDep(models.Model):
    """Denormalized fields of many types, nullable ones with a default among them."""
    src = models.ForeignKey(TSrc, null=True, on_delete=C)
    own = models.DecimalField(max_digits=8, decimal_places=2, default=0)

    @denormalized(models.CharField, max_length=255, null=True, default='?')
    @depend_on_related(TSrc)
    @computed
    def digest(self):
        t = get(TSrc, self.src_id)
        if t is None:
            return None
        h = bytes(t.bin).hex()
        return '|'.join(['%d%s' % (len(t.text), t.text[-2:]), str(None if t.dec is None else '%.2f' % t.dec), str(t.num), str(t.at), str(t.day),
                         h[:4] + h[-4:], str(None if t.flag is None else int(t.flag)), str(t.big)])

    @denormalized(models.DecimalField, max_digits=12, decimal_places=2, null=True, default=5)
    @depend_on_related(TSrc)
    @computed
    def price(self):
        t = get(TSrc, self.src_id)
        return None if t is None or t.dec is None else t.dec + self.own

    @denormalized(models.DateTimeField, null=True)
    @depend_on_related(TSrc)
    @computed
    def latest(self):
        t = get(TSrc, self.src_id)
        return None if t is None else t.at

    @denormalized(models.BooleanField, default=True)
    @depend_on_related(TSrc)
    @computed
    def yes(self):
        t = get(TSrc, self.src_id)
        return t is not None and t.flag is True

    @denormalized(models.FloatField, null=True, default=1.5)
    @depend_on_related(TSrc)
    @computed
    def ratio(self):
        t = get(TSrc, self.src_id)
        return None if t is None else t.num

    @denormalized(models.BigIntegerField, null=True)
    @depend_on_related(TSrc)
    @computed
    def big(self):
        t = get(TSrc, self.src_id)
        return None if t is None else t.big

    @denormalized(models.TextField, null=True)
    @depend_on_related(TSrc)
    @computed
    def body(self):
        t = get(TSrc, self.src_id)
        return None if t is None else t.text


class TKey(models.Model):
    src = models.ForeignKey(TSrc, null=True, on_delete=S)
    tkey = CacheKeyField()
    tkey.depend_on_related(TSrc)


# ---------------------------------------------------------------------------------------------- zone misc
class LongTable(models.Model):
    """Trigger names derived from this table do not fit the databases' limits."""
    name = models.CharField(max_length=40, default='')
    n = CountField('longchild_set')

    class Meta:
        db_table = 'simapp_a_table_name_that_is_rather_long_for_triggers'

    @denormalized(models.TextField, default='')
    @depend_on_related('LongChild')
    @computed
    def kids(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(LongChild.objects.filter(parent_id=self.pk).values_list('name', flat=True)))


class LongChild(models.Model):
    parent = models.ForeignKey(LongTable, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')

    class Meta:
        db_table = 'simapp_a_table_name_that_is_rather_long_for_triggers_too'

    @denormalized(models.CharField, max_length=60, default='')
    @depend_on_related(LongTable)
    @computed
    def up(self):
        p = get(LongTable, self.parent_id)
        return '-' if p is None else p.name


class LiveManager(models.Manager):
    def get_queryset(self):
        return super().get_queryset().filter(hidden=False)


class Managed(models.Model):
    """The default manager hides rows."""
    name = models.CharField(max_length=40, default='')
    hidden = models.BooleanField(default=False)
    objects = LiveManager()
    everything = models.Manager()
    n = CountField('managedchild_set')

    @denormalized(models.CharField, max_length=60, default='')
    @computed
    def shout(self):
        return self.name.upper() + '!'


class ManagedChild(models.Model):
    parent = models.ForeignKey(Managed, null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')

    @denormalized(models.CharField, max_length=60, default='')
    @depend_on_related(Managed)
    @computed
    def up(self):
        p = get(Managed, self.parent_id)
        return '-' if p is None else p.name


class Base(models.Model):
    """Abstract base with every kind of denormalized field."""
    name = models.CharField(max_length=40, default='')
    val = models.IntegerField(default=0)

    class Meta:
        abstract = True

    @denormalized(models.CharField, max_length=80, default='')
    @computed
    def tagline(self):
        return '%s~%s' % (self.name, self.val)


class ConcA(Base):
    pass


class ConcB(Base):
    other = models.ForeignKey(ConcA, null=True, on_delete=C)

    @denormalized(models.CharField, max_length=80, default='')
    @depend_on_related(ConcA)
    @computed
    def other_line(self):
        o = get(ConcA, self.other_id)
        return '-' if o is None else o.tagline


class ConcAProxy(ConcA):
    class Meta:
        proxy = True


class AbsCount(models.Model):
    """Abstract base with a counter, a sum and a cache key; each subclass has children of its own."""
    name = models.CharField(max_length=40, default='')
    n = CountField('kids')
    total = SumField('kids', field='w')

    class Meta:
        abstract = True


class AbsKey(models.Model):
    other = models.ForeignKey(ConcA, null=True, on_delete=C, related_name='+')
    name = models.CharField(max_length=40, default='')
    bkey = CacheKeyField()
    bkey.depend_on_related(ConcA, foreign_key='other')

    class Meta:
        abstract = True


class AbsA(AbsCount):
    pass


class AbsB(AbsCount):
    pass


class AbsAKid(models.Model):
    up = models.ForeignKey(AbsA, null=True, on_delete=C, related_name='kids')
    w = models.IntegerField(default=0, null=True)


class AbsBKid(models.Model):
    up = models.ForeignKey(AbsB, null=True, on_delete=C, related_name='kids')
    w = models.IntegerField(default=0, null=True)


class KeyA(AbsKey):
    pass


class KeyB(AbsKey):
    pass


# ---------------------------------------------------------------------------------------------- zone abstract
class HSrc(models.Model):
    name = models.CharField(max_length=40, default='')


class HTag(models.Model):
    name = models.CharField(max_length=40, default='')
    content_type = models.ForeignKey(ContentType, on_delete=C)
    object_id = models.PositiveIntegerField()
    target = GenericForeignKey()


class HBase(models.Model):
    """Abstract model with dependencies of every direction, made concrete three times."""
    src = models.ForeignKey(HSrc, null=True, on_delete=C)
    up = models.ForeignKey('self', null=True, on_delete=C)
    name = models.CharField(max_length=40, default='')
    tags = GenericRelation(HTag)

    class Meta:
        abstract = True

    @denormalized(models.CharField, max_length=80, default='')
    @depend_on_related(HSrc, foreign_key='src')
    @computed
    def src_name(self):
        s = get(HSrc, self.src_id)
        return '-' if s is None else s.name

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('self')
    @computed
    def path(self):
        p = get(type(self), self.up_id)
        return ((p.path + '/') if p is not None else '') + self.name

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related(HTag)
    @computed
    def tag_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(self.tags.values_list('name', flat=True)))

    @denormalized(models.ForeignKey, HSrc, null=True, on_delete=S, related_name='+')
    @depend_on_related(HSrc, foreign_key='src')
    @computed
    def same(self):
        # an instance of a proxy, or of the model itself
        return get(HSrcProxy if self.name < 'b' else HSrc, self.src_id)


class HOne(HBase):
    n = CountField('kids')
    total = SumField('kids', field='w')


class HTwo(HBase):
    pass


class HMid(HBase):
    class Meta(HBase.Meta):
        abstract = True

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(HTwo, foreign_key='two')
    @computed
    def two_name(self):
        t = get(HTwo, self.two_id)
        return '-' if t is None else t.name

    two = models.ForeignKey(HTwo, null=True, on_delete=C)


class HThree(HMid):
    n = CountField('kids')


class HKid(models.Model):
    one = models.ForeignKey(HOne, null=True, on_delete=C, related_name='kids')
    three = models.ForeignKey(HThree, null=True, on_delete=C, related_name='kids')
    w = models.IntegerField(default=0)


# ---------------------------------------------------------------------------------------------- zone cols
# Here every column has another name than its field.
class NP(models.Model):
    id = models.AutoField(primary_key=True, db_column='np_no')
    name = models.CharField(max_length=40, default='', db_column='np_name')
    n = CountField('kids', db_column='np_n')
    total = SumField('kids', field='qty', db_column='np_total')

    @denormalized(models.CharField, max_length=1000, default='', db_column='np_list')
    @depend_on_related('NC', foreign_key='parent')
    @computed
    def kid_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(NC.objects.filter(parent_id=self.pk).values_list('name', flat=True)))


class NC(models.Model):
    id = models.AutoField(primary_key=True, db_column='nc_no')
    parent = models.ForeignKey(NP, null=True, on_delete=C, related_name='kids', db_column='nc_up')
    other = models.ForeignKey(NP, null=True, on_delete=S, related_name='wards', db_column='nc_alt')
    name = models.CharField(max_length=40, default='', db_column='nc_name')
    qty = models.IntegerField(default=0, null=True, db_column='nc_qty')

    @denormalized(models.CharField, max_length=90, default='', db_column='nc_both')
    @depend_on_related(NP, foreign_key='other')
    @depend_on_related(NP, foreign_key='parent')
    @computed
    def both(self):
        return '&'.join('-' if p is None else p.name for p in (get(NP, self.parent_id), get(NP, self.other_id)))


class NK(models.Model):
    """A key from the other side of a foreign key."""
    id = models.AutoField(primary_key=True, db_column='nk_no')
    parent = models.ForeignKey(NP, null=True, on_delete=C, db_column='nk_up')
    key = CacheKeyField(db_column='nk_key')
    key.depend_on_related(NP)


class NY(models.Model):
    id = models.AutoField(primary_key=True, db_column='ny_no')
    name = models.CharField(max_length=40, default='', db_column='ny_name')
    key = CacheKeyField(db_column='ny_key')
    key.depend_on_related('NH')


class NH(models.Model):
    id = models.AutoField(primary_key=True, db_column='nh_no')
    name = models.CharField(max_length=40, default='', db_column='nh_name')
    ys = models.ManyToManyField(NY)


class NX(models.Model):
    id = models.AutoField(primary_key=True, db_column='nx_no')
    name = models.CharField(max_length=40, default='', db_column='nx_name')
    hubs = models.ManyToManyField(NH)
    key = CacheKeyField(db_column='nx_key')
    key.depend_on_related(NH)

    @denormalized(models.CharField, max_length=1000, default='', db_column='nx_names')
    @depend_on_related(NH)
    @computed
    def names(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(NH.objects.filter(nx__pk=self.pk).values_list('name', flat=True)))


class NTag(models.Model):
    id = models.AutoField(primary_key=True, db_column='nt_no')
    name = models.CharField(max_length=40, default='', db_column='nt_name')
    content_type = models.ForeignKey(ContentType, on_delete=C, db_column='nt_type')
    object_id = models.PositiveIntegerField(db_column='nt_obj')
    target = GenericForeignKey()


class NG(models.Model):
    """A key from generic relations."""
    id = models.AutoField(primary_key=True, db_column='ng_no')
    name = models.CharField(max_length=40, default='', db_column='ng_name')
    tags = GenericRelation(NTag)
    key = CacheKeyField(db_column='ng_key')
    key.depend_on_related(NTag)


class NF(models.Model):
    id = models.AutoField(primary_key=True, db_column='nf_no')
    name = models.CharField(max_length=40, default='', db_column='nf_name')
    tags = GenericRelation(NTag)

    @denormalized(models.CharField, max_length=1000, default='', db_column='nf_tags')
    @depend_on_related(NTag)
    @computed
    def tag_list(self):
        if self.pk is None:
            return ''
        return ','.join(sorted(t.name for t in self.tags.all()))


# ---------------------------------------------------------------------------------------------- zone codes
class QP(models.Model):
    """Referred to by a number that is not the primary key."""
    code = models.IntegerField(unique=True)
    name = models.CharField(max_length=40, default='')
    up = models.ForeignKey('self', null=True, on_delete=S, to_field='code')
    n = CountField('kids')
    total = SumField('kids', field='qty')

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('self', type='forward')
    @computed
    def path(self):
        p = QP._base_manager.filter(code=self.up_id).first() if self.up_id is not None else None
        return ((p.path + '/') if p is not None else '') + self.name

    @denormalized(models.CharField, max_length=1000, default='')
    @depend_on_related('QC', foreign_key='parent')
    @computed
    def kid_list(self):
        return ','.join(sorted(QC.objects.filter(parent_id=self.code).values_list('name', flat=True)))


class QC(models.Model):
    parent = models.ForeignKey(QP, null=True, on_delete=C, related_name='kids', to_field='code')
    name = models.CharField(max_length=40, default='')
    qty = models.IntegerField(default=0, null=True)

    @denormalized(models.CharField, max_length=90, default='')
    @depend_on_related(QP)
    @computed
    def parent_name(self):
        p = QP._base_manager.filter(code=self.parent_id).first() if self.parent_id is not None else None
        return '-' if p is None else p.name


class QK(models.Model):
    parent = models.ForeignKey(QP, null=True, on_delete=C, to_field='code')
    qkey = CacheKeyField()
    qkey.depend_on_related(QP)


class QL(models.Model):
    code = models.CharField(max_length=20, unique=True)
    name = models.CharField(max_length=40, default='')
    lkey = CacheKeyField()
    lkey.depend_on_related('QM')


class QM(models.Model):
    parent = models.ForeignKey(QL, null=True, on_delete=C, to_field='code')
    c = models.ForeignKey(QC, null=True, on_delete=S)
    name = models.CharField(max_length=40, default='')

    @denormalized(models.ForeignKey, QP, null=True, on_delete=S, to_field='code', related_name='+')
    @depend_on_related(QC)
    @computed
    def root(self):
        c = get(QC, self.c_id)
        return c.parent if c is not None else None

    @denormalized(models.ForeignKey, QP, null=True, on_delete=S, to_field='code', related_name='+')
    @depend_on_related(QC)
    @computed
    def root_code(self):
        c = get(QC, self.c_id)
        return c.parent_id if c is not None else None


def proxy(model):
    return type(model.__name__ + 'Proxy', (model,), {'__module__': __name__, 'Meta': type('Meta', (), {'proxy': True})})


for _m in (Group, Person, Item, ML, MQ, MT, Agg, KSrc, D2, NP, HThree):
    proxy(_m)
HSrcProxy = proxy(HSrc)
