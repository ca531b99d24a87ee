"""One worker's world: Django configured for one vendor, its database, templates, reset, committed snapshots."""
import os
import random
import shutil
import sys
import time
import uuid

REPO = os.environ.get('DST_REPO', '/repo')


class TemplateError(Exception):
    """The code under test failed while a starting state was being built."""


class Setup(Exception):
    """The code under test failed while a world was being prepared."""


class World(object):
    def __init__(self, vendor, scratch, name, server=None, bulk_unsafe=False, second_db=False):
        self.vendor = vendor            # sqlite3 postgresql mysql
        self.scratch = scratch
        self.name = name
        self.server = server
        self.bulk_unsafe = bulk_unsafe
        self.second_db = second_db
        self.obs = None
        self.obs_tables = None
        self.templates = {}
        self.setup_django()

    # -- configuration
    def _db(self, suffix=''):
        if self.vendor == 'sqlite3':
            return {'ENGINE': 'dst.backends.sqlite3', 'NAME': os.path.join(self.scratch, self.name + suffix + '.db')}
        if self.vendor == 'postgresql':
            return {'ENGINE': 'dst.backends.postgresql', 'NAME': self.name + suffix, 'USER': 'postgres', 'HOST': self.server}
        return {'ENGINE': 'dst.backends.mysql', 'NAME': self.name + suffix, 'USER': 'root', 'HOST': self.server}

    def _create_database(self, suffix=''):
        name = self.name + suffix
        if self.vendor == 'postgresql':
            import psycopg2
            c = psycopg2.connect(user='postgres', host=self.server, dbname='postgres')
            c.autocommit = True
            c.cursor().execute('CREATE DATABASE "%s"' % name)
            c.close()
        elif self.vendor == 'mysql':
            import MySQLdb
            c = MySQLdb.connect(user='root', unix_socket=self.server)
            c.cursor().execute('CREATE DATABASE `%s` CHARACTER SET utf8mb4' % name)
            c.close()

    def setup_django(self):
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        from . import patches
        patches.install()
        from django.conf import settings
        dbs = {'default': self._db()}
        self._create_database()
        if self.second_db:
            dbs['other'] = self._db('_o')
            self._create_database('_o')
        settings.configure(
            DST_VENDOR=self.vendor, DATABASES=dbs, SECRET_KEY='x', USE_TZ=False, TIME_ZONE='UTC', DEBUG=False,
            INSTALLED_APPS=['django.contrib.contenttypes', 'denorm', 'dst.simapp'],
            MIGRATION_MODULES={'contenttypes': None, 'denorm': None, 'simapp': None},
            DENORM_BULK_UNSAFE_TRIGGERS=self.bulk_unsafe, SILENCED_SYSTEM_CHECKS=['mysql.W002'],
            LOGGING_CONFIG=None)
        import logging
        logging.disable(logging.CRITICAL)
        import django
        django.setup()
        import denorm
        patches.install_datetime()
        assert os.path.realpath(denorm.__file__).startswith(os.path.realpath(REPO) + os.sep), denorm.__file__
        from django.core.management import call_command
        from django.contrib.contenttypes.models import ContentType
        from django.apps import apps
        from django.db import connections
        for alias in dbs:
            call_command('migrate', run_syncdb=True, verbosity=0, interactive=False, database=alias)
        self.apps = apps
        self.models = {m.__name__: m for m in apps.get_app_config('simapp').get_models()}
        self.cts = {}
        for n in sorted(self.models):
            ct = ContentType.objects.get_for_model(self.models[n])
            ContentType.objects.get_for_id(ct.id)
            self.cts[n] = ct.id
        self.ct_names = {v: k for k, v in self.cts.items() if not self.models[k]._meta.proxy}
        ContentType.objects.get_for_model(apps.get_model('denorm', 'DirtyInstance'))
        self._warm(connections['default'])
        self.dirty_table = apps.get_model('denorm', 'DirtyInstance')._meta.db_table
        from . import schema
        self.schema = schema.Schema(self.models)
        if self.vendor == 'sqlite3':
            for alias in dbs:
                connections[alias].close()
            shutil.copyfile(self.dbfile(), self.dbfile() + '.empty')

    def _warm(self, conn):
        """Evaluate lazily detected database features once, outside any run."""
        from django.utils.functional import cached_property
        cls = type(conn)
        for klass, obj in ((type(conn.features), conn.features), (cls, conn)):
            for n in dir(klass):
                if isinstance(getattr(klass, n, None), cached_property):
                    try:
                        getattr(obj, n)
                    except Exception:
                        pass
        cls.sim_features = {k: v for k, v in conn.features.__dict__.items() if k != 'connection'}
        attrs = {}
        for n in dir(cls):
            if isinstance(getattr(cls, n, None), cached_property) and n in conn.__dict__:
                attrs[n] = conn.__dict__[n]
        cls.sim_attrs = attrs

    def dbfile(self, suffix=''):
        return os.path.join(self.scratch, self.name + suffix + '.db')

    def refused(self, e):
        """Whether the database itself refused a plain write, as it does when a trigger is broken."""
        from django.db import Error
        if not isinstance(e, Error) or any(s in str(e).lower() for s in (
                'locked', 'disk', 'full', 'space', 'i/o', 'gone away', 'connection', 'terminat', 'timeout', 'memory')):
            return False
        return self.q('SELECT 1') is not None

    # -- observer: a raw connection the simulator does not intercept
    def observer(self):
        if self.obs is None:
            if self.vendor == 'sqlite3':
                import sqlite3
                self.obs = sqlite3.connect(self.dbfile(), check_same_thread=False, isolation_level=None, timeout=0)
                self.obs.create_function('SIM_MARK', 0, lambda: None)
            elif self.vendor == 'postgresql':
                import psycopg2
                self.obs = psycopg2.connect(user='postgres', host=self.server, dbname=self.name)
                self.obs.autocommit = True
            else:
                import MySQLdb
                self.obs = MySQLdb.connect(user='root', unix_socket=self.server, db=self.name, charset='utf8mb4')
                self.obs.autocommit(True)
                c = self.obs.cursor()
                c.execute('SET innodb_lock_wait_timeout=3, lock_wait_timeout=3')
                c.close()
        return self.obs

    def q(self, sql, params=()):
        c = self.observer().cursor()
        try:
            if self.vendor == 'sqlite3':
                c.execute(sql.replace('%s', '?'), params)
            else:
                c.execute(sql, params)
            if c.description is None:
                return None
            return c.fetchall()
        finally:
            c.close()

    def qn(self, name):
        return '`%s`' % name if self.vendor == 'mysql' else '"%s"' % name

    def close_observer(self):
        if self.obs is not None:
            self.obs.close()
            self.obs = None

    def close_main(self):
        """Close the set-up thread's Django connections."""
        from django.db import connections
        for alias in list(connections.databases):
            try:
                connections[alias].close()
            except Exception:
                pass

    @staticmethod
    def norm(v):
        if v is None or isinstance(v, (int, str)):
            return int(v) if isinstance(v, bool) else v
        if isinstance(v, uuid.UUID):
            return v.hex
        if isinstance(v, bytes):
            return v.decode('utf8')
        if isinstance(v, float) and v == int(v):
            return int(v)
        try:
            return int(v)
        except (TypeError, ValueError):
            return str(v)

    @classmethod
    def canon(cls, f, v):
        """The value of a field the way snapshots show it."""
        from . import schema
        return schema.LOOKS[f.kind](v) if f.kind in schema.LOOKS and v is not None else cls.norm(v)

    def snapshot(self, zone, q=None):
        """Committed contents of a zone: {table name: {pk: {column: value}}} and {m2m name: set of pairs}.
        With a query function of some process: what that process can see."""
        out = {}
        q = q or self.q
        norm = self.norm
        for t in self.schema.zone_tables(zone):
            rows = q(t.select_sql(self.qn))
            if t.m2m:
                out[t.name] = set((norm(a), norm(b)) for a, b in rows)
            else:
                cols = t.columns
                pki = t.pk_index
                d = {}
                for r in rows:
                    r = [norm(v) for v in r] if not t.looks else [
                        norm(v) if v is None or i not in t.looks else t.looks[i](v) for i, v in enumerate(r)]
                    d[r[pki]] = dict(zip(cols, r))
                out[t.name] = d
        return out

    def marks(self):
        """Committed pending work: list of (id, model name, object id)."""
        rows = self.q('SELECT id, content_type_id, object_id FROM %s ORDER BY id' % self.qn(self.dirty_table))
        return [(r[0], self.ct_names.get(r[1], r[1]), r[2]) for r in rows]

    # -- initial states
    def install_triggers(self):
        from denorm import denorms
        denorms.install_triggers()

    def build_template(self, zone, variant):
        """Populate, settle and save one starting state of a zone."""
        from . import simhooks, zones
        self.reset_empty(zone)
        rng = random.Random('template|%s|%s' % (zone, variant))
        self.seed_random(7)
        random.seed('template|%s|%s' % (zone, variant))
        simhooks.reset()
        zones.ZONES[zone].populate(self, rng, variant)
        from denorm import denorms
        denorms.flush()
        self.close_main()
        if self.vendor == 'sqlite3':
            self.close_observer()
            with open(self.dbfile(), 'rb') as f:
                data = f.read()
            snap = self.snapshot(zone)
            self.close_observer()
            self.templates[(zone, variant)] = (data, snap)
        else:
            snap = self.snapshot(zone)
            rows = []
            for t in reversed(self.schema.zone_tables(zone)):
                r = self.q(t.select_sql(self.qn, everything=True))
                rows.append((t, r))
            self.templates[(zone, variant)] = (rows, snap)

    def reset_empty(self, zone):
        self.close_main()
        if self.vendor == 'sqlite3':
            self.close_observer()
            self._wipe_sqlite(self.dbfile())
            shutil.copyfile(self.dbfile() + '.empty', self.dbfile())
        elif self.vendor == 'postgresql':
            self.q('TRUNCATE %s RESTART IDENTITY CASCADE' % ', '.join(
                self.qn(t.table) for t in self.schema.zone_tables(zone)))
            self.q('TRUNCATE %s RESTART IDENTITY' % self.qn(self.dirty_table))
        else:
            self.q('SET foreign_key_checks=0')
            for t in self.schema.zone_tables(zone):
                self.q('TRUNCATE TABLE %s' % self.qn(t.table))
            self.q('TRUNCATE TABLE %s' % self.qn(self.dirty_table))
            self.q('SET foreign_key_checks=1')

    def _wipe_sqlite(self, path):
        for s in ('', '-journal', '-wal', '-shm'):
            try:
                os.unlink(path + s)
            except OSError:
                pass

    def enable_mark_faults(self):
        """Make it possible that recording pending work fails: a trigger of our own before each row of pending work,
        which fails while the statement at hand is to suffer that fault."""
        t = self.qn(self.dirty_table)
        if self.vendor == 'sqlite3':
            self.q('CREATE TRIGGER sim_mark BEFORE INSERT ON %s BEGIN SELECT SIM_MARK(); END' % t)
            self.close_observer()
        elif self.vendor == 'postgresql':
            self.q('CREATE SEQUENCE sim_fired')
            self.q("""CREATE FUNCTION sim_mark() RETURNS trigger AS $$ BEGIN
                IF current_setting('sim.fail', true) = '1' THEN
                    PERFORM nextval('sim_fired');
                    PERFORM nextval('sim_fired');
                    RAISE EXCEPTION 'could not extend file: No space left on device (simulated)' USING ERRCODE = '53100';
                END IF;
                RETURN NEW; END $$ LANGUAGE plpgsql""")
            self.q('CREATE TRIGGER sim_mark BEFORE INSERT ON %s FOR EACH ROW EXECUTE PROCEDURE sim_mark()' % t)
        else:
            self.q("""CREATE TRIGGER sim_mark BEFORE INSERT ON %s FOR EACH ROW
                IF @sim_fail = 1 THEN
                    SET @sim_fired = 1;
                    SIGNAL SQLSTATE 'HY000' SET MYSQL_ERRNO = 1021, MESSAGE_TEXT = 'Disk full (simulated)';
                END IF""" % t)
        from django.db import connections
        type(connections['default']).sim_mark_faults = True

    def enable_triggers(self):
        """Install the triggers and make them part of the empty database."""
        self.install_triggers()
        if self.vendor == 'sqlite3':
            self.close_main()
            shutil.copyfile(self.dbfile(), self.dbfile() + '.empty')

    def reset(self, zone, variant, seed):
        """Put the database into a starting state and make every source of randomness a function of the seed."""
        if (zone, variant) not in self.templates:
            try:
                self.build_template(zone, variant)
            except Exception as e:
                from . import runner
                if runner.in_repo(e) or runner.in_orm(e) or self.refused(e):
                    raise TemplateError('%s: %s' % (type(e).__name__, str(e).strip().split('\n')[0][:300])) from e
                raise
        self.seed_random(seed)
        data, snap = self.templates[(zone, variant)]
        self.close_main()
        if self.vendor == 'sqlite3':
            self.close_observer()
            self._wipe_sqlite(self.dbfile())
            with open(self.dbfile(), 'wb') as f:
                f.write(data)
        elif self.vendor == 'postgresql':
            self.reset_empty(zone)
            self.q("SET session_replication_role = replica")
            for t, rows in data:
                if rows:
                    self._insert(t, rows)
                    if t.auto_pk:
                        self.q("SELECT setval(pg_get_serial_sequence('%s', '%s'), %d)" % (
                            self.qn(t.table), t.auto_pk, max(r[t.pk_index_all] for r in rows)))
            self.q("SET session_replication_role = DEFAULT")
        else:
            self.reset_empty(zone)
            self.q('SET foreign_key_checks=0, rand_seed1=%d, rand_seed2=%d' % (seed % 1000003, seed % 999983))
            for t, rows in data:
                if rows:
                    self._insert(t, rows)
            self.q('SET foreign_key_checks=1')
            self.q('TRUNCATE TABLE %s' % self.qn(self.dirty_table))
            snap = self.snapshot(zone)      # the triggers have changed the cache keys
        return snap

    def _insert(self, t, rows):
        cols = t.all_columns
        one = '(%s)' % ', '.join(['%s'] * len(cols))
        sql = 'INSERT INTO %s (%s) VALUES %s' % (self.qn(t.table), ', '.join(self.qn(c) for c in cols),
                                                ', '.join([one] * len(rows)))
        params = []
        for r in rows:
            for v in r:
                params.append(str(v) if isinstance(v, uuid.UUID) else v)
        self.q(sql, params)

    def seed_random(self, seed):
        from . import simhooks
        random.seed(seed)
        simhooks.reset(1000)
        simhooks.CACHE.clear()
        from django.db import connections
        cls = type(connections['default'])
        if self.vendor == 'sqlite3':
            cls.sim_rand = random.Random('db|%s' % seed)
        elif self.vendor == 'postgresql':
            cls.sim_seed = (seed % 1000) / 1000.0
        else:
            cls.sim_seed = seed % 100003
