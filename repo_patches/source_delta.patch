From 9bc2f53d182a11d5f8c38c87749f357fa5f43718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:15 +0000
Subject: [PATCH 01/34] fix: ignore NULL values in sum fields

The triggers of a sum field added and subtracted the related value as is.
A NULL value made the sum NULL, so the write failed with an integrity error.
NULL now counts as zero, as in SQL's SUM.
---
 denorm/denorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f102a0f..5f2c23f 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -469,12 +469,12 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
-- 
2.43.0


From 35f1cb14c583cba43ada2095693e957d1cf44e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:15 +0000
Subject: [PATCH 02/34] fix: save rows the default manager cannot see

Saving a row with a count or sum field looked up the stored value through
the default manager and took the first result. When that manager hides the
row, or the row was deleted meanwhile, the save died with an IndexError.
The lookup now uses the base manager and tolerates a missing row.
---
 denorm/fields.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index b8acb2a..842b34a 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -168,11 +168,12 @@ class AggregateField(models.PositiveIntegerField):
             value = 0
         else:
             # if we're updating, get the most recent value from the DB
-            value = self.denorm.model.objects.filter(
+            # (the row may be hidden from the default manager or already be deleted)
+            value = self.denorm.model._base_manager.filter(
                 pk=model_instance.pk,
             ).values_list(
                 self.attname, flat=True,
-            )[0]
+            ).first() or 0
 
         setattr(model_instance, self.attname, value)
         return value
-- 
2.43.0


From 73cc75b85822eb691e856331c6d757eead3c8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:15 +0000
Subject: [PATCH 03/34] fix: do not overwrite concurrent changes of counts and
 sums

Saving a row read its count or sum and wrote the same value back. A change
committed by another client between the two was undone for good. The save
now leaves the stored value alone.
---
 denorm/fields.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 842b34a..de06fbc 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -176,7 +176,8 @@ class AggregateField(models.PositiveIntegerField):
             ).first() or 0
 
         setattr(model_instance, self.attname, value)
-        return value
+        # leave the stored value to the triggers: it may change between the lookup above and the update
+        return value if add else models.F(self.attname)
 
     def deconstruct(self):
         name, path, args, kwargs = super(AggregateField, self).deconstruct()
-- 
2.43.0


From 746045a46b316a7ad3c104b052e881f383421a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:29 +0000
Subject: [PATCH 04/34] fix: track aggregates and cache keys of every subclass
 of an abstract model

Count, sum and cache key fields declared on an abstract model shared their
bookkeeping between all concrete subclasses. Only the last subclass was
tracked, and saving another one stored a value looked up in the wrong table.
Each subclass now gets its own copy.
---
 denorm/fields.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index de06fbc..48d1b81 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import copy
 from django.db import models, connection
 from . import denorms
 from django.conf import settings
@@ -142,6 +143,8 @@ class AggregateField(models.PositiveIntegerField):
         super(AggregateField, self).__init__(**kwargs)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # a field inherited from an abstract model is only copied shallowly
+        self.denorm = copy.copy(self.denorm)
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
@@ -273,6 +276,8 @@ class CacheKeyField(models.BigIntegerField):
         self.dependencies.append(CacheKeyDependOnRelated(*args, **kwargs))
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # a field inherited from an abstract model is only copied shallowly
+        self.dependencies = [copy.copy(depend) for depend in self.dependencies]
         for depend in self.dependencies:
             depend.fieldname = name
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
-- 
2.43.0


From 36d93852c7ee57f9e04da04f90da134bcba7b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:29 +0000
Subject: [PATCH 05/34] fix: track denormalized many-to-many fields

The list of all denormalizations left out many-to-many fields. No triggers
were installed for their dependencies and a rebuild ignored them, so they
went stale unless another field of the same model had the same dependency.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 5f2c23f..210ea5e 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -70,7 +70,7 @@ def get_alldenorms():
     alldenorms = []
     for model in gmodels.get_models(include_auto_created=True):
         if not model._meta.proxy:
-            for field in model._meta.fields:
+            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                 if hasattr(field, 'denorm'):
                     if not field.denorm.model._meta.swapped:
                         alldenorms.append(field.denorm)
-- 
2.43.0


From 28176b9d5c9a95c550d6c802b37d5ff59e3d9bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:57 +0000
Subject: [PATCH 06/34] fix: combine a model's always-skip list with an
 explicit skip list

denorm_always_skip was ignored as soon as a field or dependency declared
its own skip list, so models whose rows change on every save could keep
each other dirty forever. Both lists now apply.
---
 denorm/db/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9d1c7e4..cf180b8 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -100,7 +100,7 @@ class Trigger(object):
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
@@ -108,7 +108,7 @@ class Trigger(object):
             self.db_table = self.model._meta.db_table
             # FIXME: need to check get_parent_list and add triggers to those
             # The below will only check the fields on *this* model, not parents
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = []
             try:
                 from django.db.models.fields.related import ForeignObjectRel
-- 
2.43.0


From b94fe93002d685d108855a940feeb0e116a1dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:57 +0000
Subject: [PATCH 07/34] fix: keep different skip lists on the same table apart

All update triggers of a table were merged into the first one, and only
that one's skip list was used. Depending on the order of declaration a
change was missed, or a skipped field caused recalculations after all.
Triggers that watch different fields are now created separately.
---
 denorm/db/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index cf180b8..f70f033 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -72,6 +72,7 @@ class Trigger(object):
         self.event = event
         self.content_type = content_type
         self.content_type_field = None
+        self.name_suffix = ""
         self.actions = []
         self.append(actions)
         self.using = using
@@ -139,7 +140,7 @@ class Trigger(object):
             self.event,
             "on",
             self.db_table
-        ])
+        ]) + self.name_suffix
 
     def sql(self):
         raise NotImplementedError
@@ -163,6 +164,14 @@ class TriggerSet(object):
 
         for trigger in triggers:
             name = trigger.name()
+            # Triggers that skip different fields must not be merged: the
+            # changes to watch for are different.
+            variant = 1
+            while (trigger.event == "update" and name in self.triggers
+                    and self.triggers[name].fields != trigger.fields):
+                variant += 1
+                trigger.name_suffix = "_v%s" % variant
+                name = trigger.name()
             if name in self.triggers:
                 self.triggers[name].append(trigger.actions)
             else:
-- 
2.43.0


From e713ffdd4ad57189937da30232002af3a35889a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:57 +0000
Subject: [PATCH 08/34] fix: install and drop triggers atomically on the named
 database

The transaction was always opened on the default database. On any other
database an interrupted install or drop left half of the triggers behind.
---
 denorm/db/postgresql/triggers.py | 4 ++--
 denorm/db/sqlite3/triggers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9159809..82326a6 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -142,7 +142,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -159,7 +159,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 576e110..4e7a620 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -117,7 +117,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -132,7 +132,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
-- 
2.43.0


From b3e2670e5a972865f63cf4181ed002855bca4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:57 +0000
Subject: [PATCH 09/34] fix: drop only triggers with the library's prefix

The search pattern used LIKE with an unescaped underscore, which matches
any character. A user trigger called denormalize_x was dropped too.
---
 denorm/db/postgresql/triggers.py | 4 +++-
 denorm/db/sqlite3/triggers.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 82326a6..03d477b 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -138,7 +138,9 @@ class TriggerSet(base.TriggerSet):
         cursor = self.cursor()
         cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_trigger.tgname LIKE 'denorm_%%';")
         for table_name, trigger_name in cursor.fetchall():
-            cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
+            # LIKE treats the underscore as a wildcard
+            if trigger_name.startswith('denorm_'):
+                cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
 
     def drop(self):
         try:
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 4e7a620..015d31b 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -113,7 +113,9 @@ class TriggerSet(base.TriggerSet):
 
         cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND name LIKE 'denorm_%%';")
         for trigger_name, table_name in cursor.fetchall():
-            cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
+            # LIKE treats the underscore as a wildcard and ignores case
+            if trigger_name.startswith('denorm_'):
+                cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
 
     def drop(self):
         try:
-- 
2.43.0


From ec2cf0d6ff17b525f63dd7e2e21b54ee8527e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:57 +0000
Subject: [PATCH 10/34] fix: give long trigger names on MySQL a stable suffix

Trigger names over the limit got a random suffix. Installing twice created
the same trigger under two names, which counted every related row twice.
The suffix is now derived from the full name, as on PostgreSQL.
---
 denorm/db/mysql/triggers.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7ad85b7..17a8661 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -1,5 +1,4 @@
-import random
-import string
+from django.db.backends.utils import truncate_name
 from denorm.db import base
 
 
@@ -51,12 +50,7 @@ class Trigger(base.Trigger):
     def sql(self):
         qn = self.connection.ops.quote_name
 
-        name = self.name()
-        if len(name) > 50:
-            name = name[:45] + ''.join(
-                random.choice(string.ascii_uppercase + string.digits)
-                for x in range(5)
-            )
+        name = truncate_name(self.name(), 50)
         params = []
         action_list = []
         actions_added = set()
-- 
2.43.0


From c76ddc157b2d8eb483edbabef70d57090c54d235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:54 +0000
Subject: [PATCH 11/34] fix: never overwrite or revive rows changed during a
 flush

A flush loaded a row, saved all of its columns and removed its markers in
separate transactions. A change committed by another client in between was
silently undone, and a row deleted in between came back. Each row is now
locked, saved and unmarked in one transaction.
---
 denorm/denorms.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 210ea5e..213c43e 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -2,7 +2,7 @@
 import abc
 
 from django.contrib import contenttypes
-from django.db import connections, connection
+from django.db import connections, connection, transaction
 from django.apps import apps as gmodels
 from django.db.models import sql, ManyToManyField
 from django.db.models.aggregates import Sum
@@ -626,10 +626,22 @@ def flush(verbose=False):
             if verbose:
                 i += 1
                 print("flushing %s of %s all dirty instances" % (i, size))
-            if dirty_instance.content_object:
-                dirty_instance.content_object.save()
-
-            DirtyInstance.objects.filter(
-                content_type_id=dirty_instance.content_type_id,
-                object_id=dirty_instance.object_id
-            ).delete()
+            using = dirty_instance._state.db
+            with transaction.atomic(using=using):
+                # Removing a marker first makes concurrent flushes of this object wait for
+                # each other, and keeps other writers out on databases without row locks.
+                DirtyInstance.objects.filter(pk=dirty_instance.pk).delete()
+
+                # Save what is stored now, and keep it from being changed or deleted meanwhile.
+                model = contenttypes.models.ContentType.objects.db_manager(using).get_for_id(
+                    dirty_instance.content_type_id).model_class()
+                content_object = model and model._base_manager.using(using).select_for_update().filter(
+                    pk=dirty_instance.object_id).first()
+                if content_object is not None:
+                    content_object.save()
+
+                # Select the remaining markers by primary key, as not to wait for others' markers.
+                DirtyInstance.objects.filter(pk__in=list(DirtyInstance.objects.filter(
+                    content_type_id=dirty_instance.content_type_id,
+                    object_id=dirty_instance.object_id
+                ).values_list('pk', flat=True))).delete()
-- 
2.43.0


From 0b1d7b0cadfaff22f891463a8b1f50b5ca5c162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:54 +0000
Subject: [PATCH 12/34] fix: rebuild rows the default manager cannot see

A rebuild went through the default manager of each model and skipped the
rows hidden by it.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 213c43e..4d71a19 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -558,7 +558,7 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
-        for instance in model.objects.all():
+        for instance in model._base_manager.all():
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 412dc598c32f9d88ca7fe9867d8261507b1db419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 13/34] fix: include counts and sums in a rebuild

A rebuild only saves each row again, which leaves counts and sums as they
are. Wrong values, for example from before the triggers were installed,
stayed wrong. They are now calculated from scratch, and the calculation of
sums works on Python 3.
---
 denorm/denorms.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 4d71a19..fa013cf 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -4,7 +4,7 @@ import abc
 from django.contrib import contenttypes
 from django.db import connections, connection, transaction
 from django.apps import apps as gmodels
-from django.db.models import sql, ManyToManyField
+from django.db.models import sql, F, ManyToManyField
 from django.db.models.aggregates import Sum
 from django.db.models.manager import Manager
 from django.db.models.query_utils import Q
@@ -464,7 +464,7 @@ class SumDenorm(AggregateDenorm):
         # correctness of the incremental updates we create a function that
         # calculates it from scratch.
         self.sum_field = field
-        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(Sum(self.sum_field)).values()[0] or 0)
+        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(sum=Sum(self.sum_field))['sum'] or 0)
 
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -533,6 +533,19 @@ class CountDenorm(AggregateDenorm):
         return self.get_decrement_value(using)
 
 
+def rebuild_aggregates(instance, denorms):
+    """
+    Calculates counts and sums of a single instance from scratch, as saving it does not.
+    """
+    rows = type(instance)._base_manager.filter(pk=instance.pk)
+    for denorm in denorms:
+        if isinstance(denorm, AggregateDenorm):
+            with transaction.atomic():
+                # lock the row first, so that the triggers have to wait
+                rows.update(**{denorm.fieldname: F(denorm.fieldname)})
+                rows.update(**{denorm.fieldname: denorm.func(instance)})
+
+
 def rebuildall(verbose=False, model_name=None, field_name=None):
     """
     Updates all models containing denormalized fields.
@@ -559,6 +572,7 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
         for instance in model._base_manager.all():
+                rebuild_aggregates(instance, denorms)
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 83f2744bda10af001bd4d73b8762f9bc21f159fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 14/34] fix: return the response when the connection is closed

The middleware only caught DatabaseError. A connection lost during the
request shows up as an InterfaceError, which is not a subclass of it, so
the response was replaced by an internal error.
---
 denorm/middleware.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/middleware.py b/denorm/middleware.py
index 5e84358..ec56507 100644
--- a/denorm/middleware.py
+++ b/denorm/middleware.py
@@ -4,7 +4,7 @@ import logging
 from denorm import flush
 
 import django
-from django.db import DatabaseError
+from django.db import Error
 
 logger = logging.getLogger(__name__)
 
@@ -21,7 +21,7 @@ class DenormMiddleware(object):
     def process_response(self, request, response):
         try:
             flush()
-        except DatabaseError as e:
+        except Error as e:
             logger.error(e)
         return response
 
-- 
2.43.0


From 5ff739fc20a28e2a23c3fd4adb54d6606b2d3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 15/34] fix: write the daemon's pid file on Python 3

The daemon used the file() builtin, which only exists on Python 2. Starting
it in the background failed after the fork and left no pid file.
---
 denorm/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/daemon.py b/denorm/daemon.py
index a058937..0bda534 100644
--- a/denorm/daemon.py
+++ b/denorm/daemon.py
@@ -151,7 +151,8 @@ def daemonize(noClose=False, pidfile=None):
             # Original child. Exit.
             if pidfile:
                 print(pid)
-                file(pidfile, "w").write(str(pid))
+                with open(pidfile, "w") as f:
+                    f.write(str(pid))
             os._exit(0)
 
         # This is the second child. Set the umask.
-- 
2.43.0


From d8e9d31a49cfc870efb14b8957a948bb75f35c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 16/34] fix: start the daemon despite a broken pid file

An empty or garbled pid file, as left by a crash or a full disk, made every
later start of the daemon fail. A zero or negative number was taken for a
running daemon. Such a file is now treated like a missing one.
---
 denorm/management/commands/denorm_daemon.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 24b4d47..e872409 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -57,9 +57,13 @@ class Command(BaseCommand):
     def pid_exists(self, pidfile):
         try:
             pid = int(open(pidfile, 'r').read())
+            if pid <= 0:  # would address process groups
+                return False
             os.kill(pid, 0)
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
+        except (ValueError, OverflowError):  # empty or garbage, e.g. left by a crash while writing it
+            return False
         except OSError as err:
             return err.errno == os.errno.EPERM
         except IOError as err:
-- 
2.43.0


From f08ba37e11d3c733913a068cf8d61e7b09324136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 17/34] fix: do not keep a transaction open while the daemon
 waits

The daemon flushed in one transaction and committed it only after the wait.
Its changes stayed invisible, and the rows locked, for a whole interval. On
SQLite it could not flush at all, because Django refuses nested atomic
blocks there with autocommit off. It now runs in autocommit mode, like the
flush command; the flush itself opens the transactions it needs.
---
 denorm/management/commands/denorm_daemon.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index e872409..b56488e 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -5,21 +5,11 @@ from time import sleep
 from optparse import make_option
 
 from django.core.management.base import BaseCommand
-from django.db import transaction
 
 from denorm import denorms
 
 PID_FILE = "/tmp/django-denorm-daemon-pid"
 
-def commit_manually(fn):  # replacement of transaction.commit_manually decorator removed in Django 1.6
-    def _commit_manually(*args, **kwargs):
-        transaction.set_autocommit(False)
-        res = fn(*args, **kwargs)
-        transaction.commit()
-        transaction.set_autocommit(True)
-        return res
-    return _commit_manually
-
 
 class Command(BaseCommand):
     def add_arguments(self, parser):
@@ -72,7 +62,6 @@ class Command(BaseCommand):
             else:
                 raise
 
-    @commit_manually
     def handle(self, **options):
         foreground = options['foreground']
         interval = options['interval']
@@ -90,9 +79,7 @@ class Command(BaseCommand):
             try:
                 denorms.flush()
                 sleep(interval)
-                transaction.commit()
             except KeyboardInterrupt:
-                transaction.commit()
                 sys.exit()
             if run_once:
                 break
-- 
2.43.0


From c1823b7216cc9d14de6fcbd4314786e912026fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 18/34] fix: flush when the daemon is told to run once

With the run-once option the loop was never entered, so nothing was
flushed.
---
 denorm/management/commands/denorm_daemon.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index b56488e..385c553 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -75,11 +75,11 @@ class Command(BaseCommand):
             from denorm import daemon
             daemon.daemonize(noClose=True, pidfile=pidfile)
 
-        while not run_once:
+        while True:
             try:
                 denorms.flush()
+                if run_once:
+                    break
                 sleep(interval)
             except KeyboardInterrupt:
                 sys.exit()
-            if run_once:
-                break
-- 
2.43.0


From 83b101a52e8a17ee5c62e4d51cb8be47ef90787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:43 +0000
Subject: [PATCH 19/34] fix: do not cache values under a key that is not stored
 yet

Saving a row with a cached field computed the value and put it into the
cache under the new key before writing the key. Data changed by another
client in between was hidden behind the new key for as long as the cache
kept the entry. The cache is now only filled by those who read the key.
---
 denorm/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 48d1b81..2006c60 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -327,6 +327,12 @@ class CachedField(CacheKeyField):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
         setattr(cls, self.name, CacheWrapper(self))
 
+    def pre_save(self, model_instance, add):
+        # The new key is not stored yet, so the data may still change without
+        # changing the key. Leave it to the readers of the key to fill the cache.
+        model_instance.__dict__[self.name] = self.func(model_instance)
+        return self.denorm.func(model_instance)
+
 
 def cached(cache, *args, **kwargs):
     def deco(func):
-- 
2.43.0


From fe663cd3889cdf8e07624afcd9a6a11dd73e5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:39 +0000
Subject: [PATCH 20/34] fix: accept a model name in the rebuild command

The command's handler takes the name of the model or app to rebuild, but the
name could not be given on the command line.
---
 denorm/management/commands/denorm_rebuild.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/management/commands/denorm_rebuild.py b/denorm/management/commands/denorm_rebuild.py
index d401631..f286833 100644
--- a/denorm/management/commands/denorm_rebuild.py
+++ b/denorm/management/commands/denorm_rebuild.py
@@ -5,6 +5,12 @@ from denorm import denorms
 class Command(BaseCommand):
     help = "Recalculates the value of every single denormalized model field in the whole project."
 
+    def add_arguments(self, parser):
+        parser.add_argument(
+            'model_name', nargs='?', default=None,
+            help='Only rebuild this model or app ("app", "Model" or "app.Model").',
+        )
+
     def handle(self, model_name=None, *args, **kwargs):
         verbosity = int((kwargs.get('verbosity', 0)))
         denorms.rebuildall(verbose=verbosity > 1, model_name=model_name)
-- 
2.43.0


From bb57d3c39f175114c072197bd2306052d156b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:14 +0000
Subject: [PATCH 21/34] fix: do not take a cached value for a cache key

Refreshing an instance looked up the cached value as if it were a key, and
new instances all shared the key 0. Both could store and serve outdated data.
---
 denorm/fields.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 2006c60..f0aecd0 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -301,16 +301,27 @@ class CacheKeyField(models.BigIntegerField):
         )
 
 
+class CacheKey(int):
+    """
+    A key as stored in the database, as opposed to the value cached under it.
+    """
+
+
 class CacheWrapper(object):
     def __init__(self, field):
         self.field = field
 
     def __set__(self, obj, value):
-        key = 'CachedField_%s' % value
-        cached = self.field.cache.get(key)
-        if not cached:
+        if isinstance(value, CacheKey):
+            key = 'CachedField_%s' % value
+            cached = self.field.cache.get(key)
+            if not cached:
+                cached = self.field.func(obj)
+                self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
+        elif value == self.field.default:  # there is no key yet
             cached = self.field.func(obj)
-            self.field.cache.set(key, cached, 60 * 60 * 24 * 30)
+        else:  # the value itself, when an instance is refreshed
+            cached = value
         obj.__dict__[self.field.name] = cached
 
 
@@ -327,6 +338,9 @@ class CachedField(CacheKeyField):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
         setattr(cls, self.name, CacheWrapper(self))
 
+    def from_db_value(self, value, *args):
+        return CacheKey(value) if value else value
+
     def pre_save(self, model_instance, add):
         # The new key is not stored yet, so the data may still change without
         # changing the key. Leave it to the readers of the key to fill the cache.
-- 
2.43.0


From 036319611d24326e609ef869dd0ef7247ced9e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:42 +0000
Subject: [PATCH 22/34] fix: do not ignore what changed in PostgreSQL triggers
 of generic relations

The condition on the content type was not put in parentheses, so an update
that changed nothing relevant marked the related object all the same.
---
 denorm/db/postgresql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 03d477b..663b8fa 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
         if ct_field:
             ct_field = qn(ct_field)
             if event == "UPDATE":
-                conditions.append("(OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s)" % {'ctf': ct_field, 'ct': content_type})
+                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
             elif event == "INSERT":
                 conditions.append("(NEW.%s = %s)" % (ct_field, content_type))
             elif event == "DELETE":
-- 
2.43.0


From 9f450794f24ef970140ff6dd501fd90bf29a08ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:56:42 +0000
Subject: [PATCH 23/34] fix: honour skip lists of dependencies through generic
 relations

The skip list of such a dependency, and the always-skip list of the related
model, had no effect.
---
 denorm/db/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index f70f033..fd61f8f 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -95,7 +95,8 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            skip = tuple(skip or ()) + tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
+            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
             self.content_type_field = subject.content_type_field_name + '_id'
 
         elif isinstance(subject, models.ForeignKey):
-- 
2.43.0


From f08329ac0641f45fb564934d9ad5ff674f8a7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:33 +0000
Subject: [PATCH 24/34] fix: do not recalculate an object again for markers
 already dealt with

Databases without DISTINCT ON return every marker of an object.
Recalculating the object removes all of them.
The flush now skips markers that are gone instead of recalculating the object once for each.
---
 denorm/denorms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index fa013cf..79e90e9 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -644,7 +644,8 @@ def flush(verbose=False):
             with transaction.atomic(using=using):
                 # Removing a marker first makes concurrent flushes of this object wait for
                 # each other, and keeps other writers out on databases without row locks.
-                DirtyInstance.objects.filter(pk=dirty_instance.pk).delete()
+                if not DirtyInstance.objects.filter(pk=dirty_instance.pk).delete()[0]:
+                    continue    # dealt with together with an other marker of the same object
 
                 # Save what is stored now, and keep it from being changed or deleted meanwhile.
                 model = contenttypes.models.ContentType.objects.db_manager(using).get_for_id(
-- 
2.43.0


From 1f3b934610049044e182a60b3bc2f9d88daa5a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:28 +0000
Subject: [PATCH 25/34] fix: forget a loaded related object when a denormalized
 key is recalculated

A denormalized foreign key whose function returns a key kept the object loaded
earlier, so the instance showed one object while another one's key was stored.
---
 denorm/fields.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index f0aecd0..4d79777 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -77,6 +77,12 @@ def denormalized(DBField, *args, **kwargs):
                 setattr(model_instance, self.name, value)
                 return getattr(model_instance, self.attname)
             else:
+                # an object loaded earlier may belong to another key
+                if hasattr(self, 'is_cached'):  # Django>=2.0
+                    if self.is_cached(model_instance):
+                        self.delete_cached_value(model_instance)
+                elif related_field_model:
+                    model_instance.__dict__.pop(self.get_cache_name(), None)
                 setattr(model_instance, self.attname, value)
                 return value
 
-- 
2.43.0


From 8f644448407592496c840e458592d3391102b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:28 +0000
Subject: [PATCH 26/34] fix: let the daemon start when a stale pid file names
 its own pid

After a reboot the starting process may get the very pid a dead daemon left in
the file. It took itself for the running daemon and refused to start.
---
 denorm/management/commands/denorm_daemon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 385c553..0e9e254 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -49,6 +49,8 @@ class Command(BaseCommand):
             pid = int(open(pidfile, 'r').read())
             if pid <= 0:  # would address process groups
                 return False
+            if pid == os.getpid():  # left by a dead process with the same pid
+                return False
             os.kill(pid, 0)
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
-- 
2.43.0


From bb1d81180e8664170033aee48efd31059338b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:28 +0000
Subject: [PATCH 27/34] fix: report a pid file that cannot be read

On Python 3 IOError is OSError, so the branch for errors of sending the signal
also caught errors of reading the file. A daemon that could not read its pid
file assumed that none was running.
---
 denorm/management/commands/denorm_daemon.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 0e9e254..d17f8f1 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -47,22 +47,25 @@ class Command(BaseCommand):
     def pid_exists(self, pidfile):
         try:
             pid = int(open(pidfile, 'r').read())
-            if pid <= 0:  # would address process groups
-                return False
-            if pid == os.getpid():  # left by a dead process with the same pid
+        except ValueError:  # empty or garbage, e.g. left by a crash while writing it
+            return False
+        except IOError as err:
+            if err.errno == 2:
                 return False
+            else:
+                raise
+        if pid <= 0:  # would address process groups
+            return False
+        if pid == os.getpid():  # left by a dead process with the same pid
+            return False
+        try:
             os.kill(pid, 0)
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
-        except (ValueError, OverflowError):  # empty or garbage, e.g. left by a crash while writing it
+        except OverflowError:
             return False
         except OSError as err:
             return err.errno == os.errno.EPERM
-        except IOError as err:
-            if err.errno == 2:
-                return False
-            else:
-                raise
 
     def handle(self, **options):
         foreground = options['foreground']
-- 
2.43.0


From 32647cc52d2e3abe70a098602bb7836cae440501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:53 +0000
Subject: [PATCH 28/34] fix: Notice changes of letter case or trailing spaces
 on MySQL

The update triggers compared text by the collation of the column, so a
value that only changed in case or trailing spaces was not tracked.
---
 denorm/db/mysql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 17a8661..5826faa 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -77,7 +77,7 @@ class Trigger(base.Trigger):
             for field, native_type in self.fields:
                 field = qn(field)
                 # TODO: find out if we need to compare some fields as text like in postgres
-                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s))" % {'f': field})
+                conditions.append("(NOT(CAST(OLD.%(f)s AS BINARY) <=> CAST(NEW.%(f)s AS BINARY)))" % {'f': field})
 
         if conditions:
             cond = " OR ".join(conditions)
-- 
2.43.0


From 1f4c03cbbf86269003c4ff514f4a63c34ebaf41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:09 +0000
Subject: [PATCH 29/34] fix: Keep an object pending when saving it fails after
 its many-to-many links

Denormalized many-to-many links are written before the object itself, in a
separate transaction. When saving the object then failed, the links kept the
values calculated from data that was never stored, and nothing corrected them.
---
 denorm/denorms.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 79e90e9..25076b6 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -15,10 +15,11 @@ from django.db.models.sql.where import WhereNode
 import django
 from decimal import Decimal
 
-def many_to_many_pre_save(sender, instance, **kwargs):
+def many_to_many_pre_save(sender, instance, using=None, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
+    from .models import DirtyInstance
     if instance.pk:
         # Need a primary key to do m2m stuff
         for m2m in sender._meta.local_many_to_many:
@@ -44,11 +45,20 @@ def many_to_many_pre_save(sender, instance, **kwargs):
                         remote.through_model.objects.create(**kwargs)
 
                 else:
-                    values = m2m.denorm.func(instance)
-                    try:
-                        getattr(instance, m2m.attname).set(values)
-                    except AttributeError:  # Django<1.10
-                        setattr(instance, m2m.attname, values)
+                    values = list(m2m.denorm.func(instance))
+                    links = getattr(instance, m2m.attname)
+                    if set(links.values_list('pk', flat=True)) == set(getattr(x, 'pk', x) for x in values):
+                        continue
+                    with transaction.atomic(using=using):
+                        # The instance is saved in a transaction of its own, which may yet fail.
+                        DirtyInstance.objects.using(using).create(
+                            content_type=contenttypes.models.ContentType.objects.get_for_model(sender),
+                            object_id=instance.pk,
+                        )
+                        try:
+                            links.set(values)
+                        except AttributeError:  # Django<1.10
+                            setattr(instance, m2m.attname, values)
 
 
 def many_to_many_post_save(sender, instance, created, **kwargs):
-- 
2.43.0


From b1bf06550c4dae6729501eb8978c28338ae2bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:24 +0000
Subject: [PATCH 30/34] fix: Track fields whose column has another name

Triggers were built from field names where they need column names.
With a db_column, installing them or the next write failed.
---
 denorm/db/base.py      |  8 ++++----
 denorm/denorms.py      | 26 ++++++++++++++++----------
 denorm/dependencies.py | 19 ++++++++++---------
 3 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index fd61f8f..d83b05a 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -96,14 +96,14 @@ class Trigger(object):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
             skip = tuple(skip or ()) + tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
-            self.content_type_field = subject.content_type_field_name + '_id'
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
+            self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
             skip = tuple(skip or ()) + tuple(getattr(self.model, 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
             self.model = subject
@@ -121,7 +121,7 @@ class Trigger(object):
                     pass
                 else:
                     if not v and k.attname not in skip:
-                        self.fields.append((k.attname, k.db_type(connection=self.connection)))
+                        self.fields.append((k.column, k.db_type(connection=self.connection)))
 
         else:
             raise NotImplementedError
diff --git a/denorm/denorms.py b/denorm/denorms.py
index 25076b6..2386613 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -99,6 +99,9 @@ class Denorm(object):
             cconnection = connection
         return cconnection.ops.quote_name
 
+    def get_column(self):
+        return self.model._meta.get_field(self.fieldname).column
+
     def setup(self, **kwargs):
         """
         Adds 'self' to the global denorm list
@@ -261,7 +264,7 @@ class CacheKeyDenorm(BaseCacheKeyDenorm):
         from .db import triggers
         action = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(triggers.RandomBigInt(),),
             where="%s = NEW.%s" % ((qn(self.model._meta.pk.get_attname_column()[1]),) * 2),
         )
@@ -359,13 +362,13 @@ class AggregateDenorm(Denorm):
         related_dec_where, related_where_params = self.get_related_where(fk_name, using, 'OLD')
         related_increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_related_increment_value(using),),
             where=(' AND '.join(related_inc_where), related_where_params),
         )
         related_decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_related_decrement_value(using),),
             where=(' AND '.join(related_dec_where), related_where_params),
         )
@@ -402,7 +405,7 @@ class AggregateDenorm(Denorm):
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
             pk_name = qn(self.model._meta.pk.get_attname_column()[1])
-            fk_name = qn(related_field.attname)
+            fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
 
@@ -431,13 +434,13 @@ class AggregateDenorm(Denorm):
             # create the triggers for the incremental updates
         increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_increment_value(using),),
             where=(' AND '.join(inc_where), where_params),
         )
         decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.get_column(),),
             values=(self.get_decrement_value(using),),
             where=(' AND '.join(dec_where), where_params),
         )
@@ -476,15 +479,18 @@ class SumDenorm(AggregateDenorm):
         self.sum_field = field
         self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(sum=Sum(self.sum_field))['sum'] or 0)
 
+    def get_sum_column(self):
+        return self.manager.field.model._meta.get_field(self.sum_field).column
+
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.get_column()), qn(self.get_sum_column()))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -529,12 +535,12 @@ class CountDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + 1" % qn(self.fieldname)
+        return "%s + 1" % qn(self.get_column())
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - 1" % qn(self.fieldname)
+        return "%s - 1" % qn(self.get_column())
 
     def get_related_increment_value(self, using):
         return self.get_increment_value(using)
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7f4802e..eeb805e 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -103,6 +103,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
         content_type = str(contenttypes.models.ContentType.objects.get_for_model(self.this_model).pk)
+        column = self.this_model._meta.get_field(self.fieldname).column
 
         if self.type == "forward":
             from denorm.db import triggers
@@ -110,7 +111,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # may be related to one instance of ``other_model``
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -119,7 +120,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -140,7 +141,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # are affected, otherwise only the one it is pointing to is affected.
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -149,7 +150,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -174,7 +175,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = self.field.object_id_field_name
+                    column_name = self.field.remote_field.model._meta.get_field(self.field.object_id_field_name).column
                     reverse_column_name = self.field.remote_field.model._meta.pk.column
                 if "backward" in self.type:
                     column_name = self.field.remote_field.model._meta.pk.column
@@ -185,7 +186,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # to the intermediate table.
             action_m2m_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -194,7 +195,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_m2m_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -224,7 +225,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
-                    columns=(self.fieldname,),
+                    columns=(column,),
                     values=(triggers.RandomBigInt(),),
                     where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                 )
@@ -354,7 +355,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = qn(self.field.object_id_field_name)
+                    column_name = qn(remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column)
                     reverse_column_name = remote_field_model(self.field)._meta.pk.column
                 if "backward" in self.type:
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
-- 
2.43.0


From dee5516e0c17e7e211ac44760060f814f0136d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:47:42 +0000
Subject: [PATCH 31/34] fix: Update denormalized many-to-many fields when
 saving through a proxy model

Saving an instance of a proxy model sends the signals with the proxy as sender.
The handlers were only connected for the concrete model, so the many-to-many
fields kept their old links until the next flush.
---
 denorm/denorms.py | 4 ++--
 denorm/fields.py  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 2386613..d1490b2 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -22,7 +22,7 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
     from .models import DirtyInstance
     if instance.pk:
         # Need a primary key to do m2m stuff
-        for m2m in sender._meta.local_many_to_many:
+        for m2m in sender._meta.concrete_model._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
                 # Does some extra jiggery-pokery for "through" m2m models.
@@ -64,7 +64,7 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
 def many_to_many_post_save(sender, instance, created, **kwargs):
     if created:
         def check_resave():
-            for m2m in sender._meta.local_many_to_many:
+            for m2m in sender._meta.concrete_model._meta.local_many_to_many:
                 if hasattr(m2m, 'denorm'):
                     return True
             return False
diff --git a/denorm/fields.py b/denorm/fields.py
index 4d79777..442b5f9 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -49,9 +49,9 @@ def denormalized(DBField, *args, **kwargs):
             self.denorm.fieldname = name
             self.field_args = (args, kwargs)
             models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
-            # Add The many to many signal for this class
-            models.signals.pre_save.connect(denorms.many_to_many_pre_save, sender=cls)
-            models.signals.post_save.connect(denorms.many_to_many_post_save, sender=cls)
+            # Add The many to many signal (not only for this class, as proxies of it send their own)
+            models.signals.pre_save.connect(denorms.many_to_many_pre_save)
+            models.signals.post_save.connect(denorms.many_to_many_post_save)
             DBField.contribute_to_class(self, cls, name, *args, **kwargs)
 
         def pre_save(self, model_instance, add):
-- 
2.43.0


From dd6acacd31fe6c8e706c2a8f78ee260be5ea4b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:24 +0000
Subject: [PATCH 32/34] fix: Follow foreign keys that refer to another column
 than the primary key

Callback fields, cache keys, counts and sums compared such a foreign key with
the primary key of the row it points to, so changes were attributed to the
wrong rows or to none.
---
 denorm/denorms.py      |  6 +++---
 denorm/dependencies.py | 27 +++++++++++++++++++++------
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index d1490b2..d2bf78f 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -404,10 +404,10 @@ class AggregateDenorm(Denorm):
             }]
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
-            pk_name = qn(self.model._meta.pk.get_attname_column()[1])
+            target_name = qn(related_field.foreign_related_fields[0].column)
             fk_name = qn(related_field.column)
-            inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
-            dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
+            inc_where = ["%s = NEW.%s" % (target_name, fk_name)]
+            dec_where = ["%s = OLD.%s" % (target_name, fk_name)]
 
         content_type = str(contenttypes.models.ContentType.objects.get_for_model(self.model).pk)
 
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index eeb805e..5a56747 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -91,6 +91,12 @@ class DependOnRelated(DenormDependency):
         # Now the candidates list contains exactly one item, thats our winner.
         self.type, self.field = candidates[0]
 
+    def get_target_column(self):
+        """
+        Returns the name of the column the ForeignKey refers to, usually the primary key
+        """
+        return self.field.foreign_related_fields[0].column
+
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
@@ -115,7 +121,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_target_column()),
                 ),
             )
             action_old = triggers.TriggerActionUpdate(
@@ -124,7 +130,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_target_column()),
                 ),
             )
             return [
@@ -144,7 +150,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_target_column()),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -153,7 +159,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(column,),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.get_target_column()),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -294,7 +300,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         self.this_model._meta.pk.get_attname_column()[1]),
-                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.get_target_column())}
                 )
             )
             action_old = triggers.TriggerActionInsert(
@@ -304,7 +310,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         self.this_model._meta.pk.get_attname_column()[1]),
-                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.get_target_column())}
                 )
             )
             return [
@@ -337,6 +343,15 @@ class CallbackDependOnRelated(DependOnRelated):
                     "OLD.%s" % self.field.get_attname_column()[1],
                 ),
             )
+            if self.get_target_column() != self.this_model._meta.pk.get_attname_column()[1]:
+                # the ForeignKey does not hold the primary key, look it up
+                for action, row in ((action_new, 'NEW'), (action_old, 'OLD')):
+                    action.values = triggers.TriggerNestedSelect(
+                        self.this_model._meta.db_table,
+                        (content_type,
+                            self.this_model._meta.pk.get_attname_column()[1]),
+                        **{self.get_target_column(): "%s.%s" % (row, qn(self.field.get_attname_column()[1]))}
+                    )
             return [
                 triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
                 triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
-- 
2.43.0


From db3f127c0981df7964bf65fbd41034e540beb3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:18 +0000
Subject: [PATCH 33/34] fix: Allow creating objects with a given primary key
 that have denormalized many-to-many links

The links were written before the object itself, which the foreign keys of the link table do not allow.
They are written when the new object is saved for the second time, as for objects that get their key from the database.
---
 denorm/denorms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index d2bf78f..a76f860 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -49,6 +49,8 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
                     links = getattr(instance, m2m.attname)
                     if set(links.values_list('pk', flat=True)) == set(getattr(x, 'pk', x) for x in values):
                         continue
+                    if not sender._base_manager.using(using).filter(pk=instance.pk).exists():
+                        continue    # yet to be inserted with this primary key, and saved again afterwards
                     with transaction.atomic(using=using):
                         # The instance is saved in a transaction of its own, which may yet fail.
                         DirtyInstance.objects.using(using).create(
-- 
2.43.0


From f1ca803c2f37a311a0d2a876d8ffa3467e51fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:18 +0000
Subject: [PATCH 34/34] fix: Update denormalized many-to-many links when saving
 an object that was not loaded

An object made from scratch with the primary key of a stored one does not belong to a database until it is saved.
Adding objects to its links then fails.
---
 denorm/denorms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index a76f860..20b374b 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -45,9 +45,10 @@ def many_to_many_pre_save(sender, instance, using=None, **kwargs):
                         remote.through_model.objects.create(**kwargs)
 
                 else:
-                    values = list(m2m.denorm.func(instance))
+                    # primary keys, as an instance that was not loaded does not belong to a database yet
+                    values = [getattr(x, 'pk', x) for x in m2m.denorm.func(instance)]
                     links = getattr(instance, m2m.attname)
-                    if set(links.values_list('pk', flat=True)) == set(getattr(x, 'pk', x) for x in values):
+                    if set(links.values_list('pk', flat=True)) == set(values):
                         continue
                     if not sender._base_manager.using(using).filter(pk=instance.pk).exists():
                         continue    # yet to be inserted with this primary key, and saved again afterwards
-- 
2.43.0

