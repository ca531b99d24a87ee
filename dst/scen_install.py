"""C12: installing and removing the triggers, interrupted anywhere, on either of two databases."""
import json
import os
import subprocess
import sys

from . import workload
from .runner import Scenario
from .scenarios import FUNC_ZONES, VARIANTS, fault_config

PREFIX = 'denorm_'
# names close to the reserved prefix; all of them belong to somebody else
FOREIGN = ['denormalize_log', 'denormXafter_row_update', 'my_denorm_rows', 'xdenorm_after_row_insert', 'audit', 'denorm', 'denorm1_x', 'a_denorm_']


class Catalog(object):
    """The triggers of one database, through a connection the simulator does not intercept."""

    def __init__(self, world, suffix):
        self.w = world
        self.suffix = suffix
        self.conn = None

    def connect(self):
        w = self.w
        if w.vendor == 'sqlite3':
            import sqlite3
            return sqlite3.connect(w.dbfile(self.suffix), check_same_thread=False, isolation_level=None, timeout=0)
        if self.conn is None:
            if w.vendor == 'postgresql':
                import psycopg2
                self.conn = psycopg2.connect(user='postgres', host=w.server, dbname=w.name + self.suffix)
                self.conn.autocommit = True
            else:
                import MySQLdb
                self.conn = MySQLdb.connect(user='root', unix_socket=w.server, db=w.name + self.suffix, charset='utf8mb4')
                self.conn.autocommit(True)
                self.conn.cursor().execute('SET lock_wait_timeout=30')
        return self.conn

    def q(self, *sqls):
        conn = self.connect()
        c = conn.cursor()
        try:
            for s in sqls:
                c.execute(s)
            return c.fetchall() if c.description is not None else None
        finally:
            c.close()
            if self.w.vendor == 'sqlite3':
                conn.close()

    def read(self):
        """{name: (table, what it does, how to make it)}; a name may occur on several tables on PostgreSQL."""
        v = self.w.vendor
        out = {}
        if v == 'sqlite3':
            for name, table, sql in self.q("SELECT name, tbl_name, sql FROM sqlite_master WHERE type = 'trigger'"):
                out[name, table] = (sql, (sql,))
        elif v == 'postgresql':
            for name, table, d, body, fn in self.q(
                    'SELECT t.tgname, c.relname, pg_get_triggerdef(t.oid), p.prosrc, pg_get_functiondef(p.oid) FROM pg_trigger t '
                    'JOIN pg_class c ON c.oid = t.tgrelid JOIN pg_proc p ON p.oid = t.tgfoid WHERE NOT t.tgisinternal'):
                out[name, table] = (d + body, (fn, d))
        else:
            for name, table, event, timing, body in self.q(
                    'SELECT TRIGGER_NAME, EVENT_OBJECT_TABLE, EVENT_MANIPULATION, ACTION_TIMING, ACTION_STATEMENT '
                    'FROM information_schema.triggers WHERE TRIGGER_SCHEMA = DATABASE()'):
                out[name, table] = ('%s %s %s' % (timing, event, body),
                                    ('CREATE TRIGGER `%s` %s %s ON `%s` FOR EACH ROW %s' % (name, timing, event, table, body),))
        return out

    def put(self, want):
        """Make the catalog exactly this."""
        have = self.read()
        todo = []
        for key in sorted(have):
            if key not in want or want[key] != have[key]:
                todo.append('DROP TRIGGER %s%s' % (self.w.qn(key[0]), ' ON %s' % self.w.qn(key[1]) if self.w.vendor == 'postgresql' else ''))
        for key in sorted(want):
            if have.get(key) != want[key]:
                todo += want[key][1]
        if todo:
            self.q(*todo)

    def foreign(self, name, table):
        qn = self.w.qn
        if self.w.vendor == 'sqlite3':
            s = 'CREATE TRIGGER %s AFTER UPDATE ON %s BEGIN SELECT 1; END' % (qn(name), qn(table))
            return (s, (s,))
        if self.w.vendor == 'mysql':
            s = 'CREATE TRIGGER %s AFTER UPDATE ON %s FOR EACH ROW SET @somebody = 1' % (qn(name), qn(table))
            return ('AFTER UPDATE SET @somebody = 1', (s,))
        raise NotImplementedError


def mine(cat):
    return {k: v for k, v in cat.items() if k[0].startswith(PREFIX)}


def others(cat):
    return {k: v for k, v in cat.items() if not k[0].startswith(PREFIX)}


class Install(Scenario):
    prop = 'C12'
    second_db = True

    def prepare(self, world):
        world.enable_triggers()
        from denorm import denorms
        world.cats = {'default': Catalog(world, ''), 'other': Catalog(world, '_o')}
        denorms.install_triggers(using='other')
        world.close_main()
        world.full = {a: mine(c.read()) for a, c in world.cats.items()}
        world.cats['other'].put({})
        self.other_process(world)
        world.user_fns = {}

    def other_process(self, world):
        """What another process, with its own hash seed, installs."""
        dbs = {'default': world._db('_o')}
        dbs['default']['ENGINE'] = dbs['default']['ENGINE'].replace('dst.backends', 'django.db.backends')
        if world.vendor == 'mysql':
            dbs['default']['OPTIONS'] = {'init_command': 'SET lock_wait_timeout=30, innodb_lock_wait_timeout=30'}
        conf = {'repo': os.environ.get('DST_REPO', '/repo'), 'vendor': world.vendor, 'dbs': dbs}
        env = dict(os.environ, PYTHONHASHSEED='4711', PYTHONPATH=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'dst.scen_install', json.dumps(conf)], env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if p.returncode == 3:
            from .world import Setup
            raise Setup('installing in another process failed: %s' % p.stdout.decode('utf8', 'replace').strip().split('\n')[-1])
        if p.returncode:
            raise RuntimeError('installing in another process: %s' % p.stdout.decode('utf8', 'replace')[-2000:])
        world.elsewhere = mine(world.cats['other'].read())
        world.cats['other'].put({})

    # -- generation
    def generate(self, world, rng, seed):
        zone = rng.choice(FUNC_ZONES + ['agg', 'cached'])
        spec = {'prop': 'C12', 'seed': seed, 'zone': zone, 'variant': rng.randrange(VARIANTS)}
        spec['init'] = {a: rng.choice(['none', 'none', 'full', 'full', 'part', 'elsewhere']) for a in ('default', 'other')}
        tables = [t.table for t in world.schema.zone_tables(zone)]
        spec['foreign'] = {a: [[n, rng.choice(tables)] for n in rng.sample(FOREIGN, rng.choice([0, 1, 2, 4]))] for a in ('default', 'other')}
        spec['pick'] = rng.randrange(1 << 30)
        two = rng.random() < 0.25
        hot = rng.choice(['default', 'other', None])
        spec['actors'] = []
        for i in range(2 if two else 1):
            steps = []
            for _ in range(rng.randint(1, 2) if two else rng.randint(1, 5)):
                db = hot or rng.choice(['default', 'other'])
                steps.append({'do': rng.choice(['install', 'drop']), 'db': db, 'how': rng.choice(['api', 'cmd']),
                              'named': db == 'other' or rng.random() < 0.5})
            spec['actors'].append({'name': 'p%d' % i, 'role': 'installer', 'steps': steps})
        g = workload.Gen(world, zone, rng)
        spec['after'] = g.script(rng.randint(1, 2)) if rng.random() < 0.4 else []
        spec['final'] = ['default'] if spec['after'] else [rng.choice(['default', 'other'])]
        if two:
            spec['strategy'] = {'horizon': 200}
        if rng.random() < 0.8:
            f = fault_config(rng, rate=(0.005, 0.01, 0.03), maxf=(1, 1, 2, 3))
            if rng.random() < 0.3:          # aim at the commits
                f['kinds']['sql'] = []
                f['rate'] = 0.5
            spec['faults'] = f
        return spec

    def shape(self, spec, res):
        return '%s/%s' % (res['shape'], ','.join('%s=%s' % (k, v) for k, v, s in res['fired']))

    def nontrivial(self, spec, res):
        return res['nfaults'] > 0 or res['switches'] > 0 or res['probes'].get('calls_judged', 0) > 1

    # -- execution
    def initial(self, run, alias):
        import random
        w = run.world
        how = run.spec['init'][alias]
        full = w.full[alias]
        cat = {}
        if how == 'full':
            cat = dict(full)
        elif how == 'elsewhere':
            cat = dict(w.elsewhere)
        elif how == 'part':
            rng = random.Random('part|%s|%s' % (alias, run.spec['pick']))
            keys = sorted(full)
            if rng.random() < 0.5:
                n = rng.randrange(1, len(keys))
                keep = keys[:n] if rng.random() < 0.5 else keys[n:]
            else:
                keep = rng.sample(keys, rng.randrange(1, len(keys)))
            cat = {k: full[k] for k in keep}
        for name, table in run.spec['foreign'][alias]:
            cat[name, table] = self.user_trigger(w, alias, name, table)
        return cat

    def user_trigger(self, w, alias, name, table):
        key = (alias, name, table)
        if key not in w.user_fns:
            c = w.cats[alias]
            if w.vendor == 'postgresql':
                c.q('CREATE OR REPLACE FUNCTION somebody() RETURNS trigger AS $$ BEGIN RETURN NULL; END $$ LANGUAGE plpgsql',
                    'CREATE TRIGGER %s AFTER UPDATE ON %s FOR EACH ROW EXECUTE FUNCTION somebody()' % (w.qn(name), w.qn(table)))
                w.user_fns[key] = c.read()[name, table]
                c.q('DROP TRIGGER %s ON %s' % (w.qn(name), w.qn(table)))
            else:
                w.user_fns[key] = c.foreign(name, table)
        return w.user_fns[key]

    def before_reset(self, run):
        w = run.world
        if (run.zone, run.spec['variant']) not in w.templates and w.vendor != 'sqlite3':
            w.cats['default'].put(w.full['default'])

    def start(self, run):
        w = run.world
        run.kernel.ddl_mode = True
        self.two = len(run.spec['actors']) > 1
        run.kernel.monitors.remove(run.tracker)     # nobody touches any row for now
        for alias in ('default', 'other'):
            w.cats[alias].put({k: v for k, v in w.cats[alias].read().items() if k[0].startswith(PREFIX)})   # the last run's leftovers
            w.cats[alias].put(self.initial(run, alias))
        w.close_observer()
        run.start_cats = self.now(run)
        for a in run.spec['actors']:
            self.installer(run, a['name'], a['steps'])

    def now(self, run):
        return {a: c.read() for a, c in run.world.cats.items()}

    def call(self, step):
        from django.core.management import call_command
        from denorm import denorms
        if step['how'] == 'api':
            fn = denorms.install_triggers if step['do'] == 'install' else denorms.drop_triggers
            return fn(using=step['db']) if step['named'] else fn()
        cmd = 'denorm_init' if step['do'] == 'install' else 'denorm_drop'
        if step['named']:
            call_command(cmd, database=step['db'])
        else:
            call_command(cmd)

    def installer(self, run, name, steps):
        k = run.kernel

        def fn(actor, state):
            from django.db import Error, connections
            state.setdefault('i', 0)
            while True:
                cur = state.get('cur')
                if cur is not None:
                    state['cur'] = None
                    self.judge(run, actor, cur, 'interrupted')
                if state['i'] >= len(steps) or k.violations:
                    return
                step = steps[state['i']]
                state['i'] += 1
                state['cur'] = cur = (step, None if self.two else self.now(run), len(k.fired))
                try:
                    self.call(step)
                    outcome = 'ok'
                except Error as e:
                    k.log(actor, 'error', type(e).__name__)
                    k.probe('calls_failed')
                    run.errors.append((actor.name, type(e).__name__, 'install'))
                    connections[step['db']].close_if_unusable_or_obsolete()
                    outcome = '%s: %s' % (type(e).__name__, str(e).strip().split('\n')[0][:120])
                state['cur'] = None
                self.judge(run, actor, cur, outcome)
        return k.spawn(name, run.guarded(fn), role='installer')

    def judge(self, run, actor, cur, outcome):
        step, before, nfired = cur
        k, w = run.kernel, run.world
        if self.two:
            return          # judged when both have ended
        after = self.now(run)
        k.probe('calls_judged')
        what = '%s of %s (%s)' % (step['do'], step['db'], 'completed' if outcome == 'ok' else outcome)
        if self.foreign_kept(run, after, what):
            return
        db = step['db']
        other = 'other' if db == 'default' else 'default'
        if after[other] != before[other]:
            return k.violation('wrong-database', '%s changed the triggers of %s: %s' % (what, other, names(after[other], before[other])))
        b, a, full = mine(before[db]), mine(after[db]), w.full[db]
        target = {} if step['do'] == 'drop' else full
        clean = len(k.fired) == nfired
        if outcome == 'ok':
            k.probe('calls_completed')
            if a != target:
                return k.violation('incomplete', '%s left %s' % (what, names(a, target)))
            return
        if clean and (step['do'] == 'drop' or not b):
            return k.violation('fails', '%s although nothing was wrong' % what)
        if step['do'] == 'install' and b and (b == full or b == w.elsewhere) and a != b:
            return k.violation('installed-twice', '%s on a complete set changed it: %s' % (what, names(a, b)))
        if w.vendor != 'mysql':
            if a != b and a != target:
                return k.violation('half-done', '%s left neither the old nor the new set: %s' % (what, names(a, b)))
        elif step['do'] == 'drop':
            if not items(a) <= items(b):
                return k.violation('half-done', '%s added %s' % (what, names(a, b)))
        elif not (items(b) <= items(a) <= items(b) | items(full)):
            return k.violation('half-done', '%s: %s' % (what, names(a, b)))

    def foreign_kept(self, run, cats, what):
        for a in cats:
            if others(cats[a]) != others(run.start_cats[a]):
                run.kernel.violation('foreign-trigger', '%s: triggers of others changed in %s: %s' % (
                    what, a, names(others(cats[a]), others(run.start_cats[a]))))
                return True

    def finish(self, run):
        k, w = run.kernel, run.world
        cats = self.now(run)
        if self.foreign_kept(run, cats, 'in the end'):
            return
        if self.two and w.vendor != 'mysql':
            for a in cats:
                m = mine(cats[a])
                if m not in ({}, w.full[a], mine(run.start_cats[a])):
                    return k.violation('half-done', 'two processes left a set in %s that no order of their calls gives: %s' % (
                        a, names(m, mine(run.start_cats[a]))))
        k.faults_on = False
        k.strategy = None
        self.two = False
        for alias in run.spec['final']:
            self.installer(run, 'fin-' + alias, [{'do': 'drop', 'db': alias, 'how': 'api', 'named': True},
                                                 {'do': 'install', 'db': alias, 'how': 'api', 'named': True}])
            k.run()
            if k.violations:
                return
            k.probe('clean_reinstalls')
        if run.spec['after']:
            run.tracker.refresh()
            k.monitors.append(run.tracker)
            run.add_client('after', run.spec['after'])
            k.run()
            run.settle()
            run.check_settled()


def items(cat):
    return set(cat.items())


def names(a, b):
    miss = sorted('%s on %s' % k for k in b if k not in a)
    more = sorted('%s on %s' % k for k in a if k not in b)
    diff = sorted('%s on %s' % k for k in a if k in b and a[k] != b[k])
    out = []
    for label, l in (('missing', miss), ('extra', more), ('different', diff)):
        if l:
            out.append('%d %s (%s%s)' % (len(l), label, ', '.join(l[:2]), ' ...' if len(l) > 2 else ''))
    return '; '.join(out) or 'no difference'


SCENARIOS = [Install()]


def main():
    """The other process."""
    conf = json.loads(sys.argv[1])
    sys.path.insert(0, conf['repo'])
    from django.conf import settings
    settings.configure(
        DST_VENDOR=conf['vendor'], DATABASES=conf['dbs'], SECRET_KEY='x', USE_TZ=False, TIME_ZONE='UTC', DEBUG=False,
        INSTALLED_APPS=['django.contrib.contenttypes', 'denorm', 'dst.simapp'],
        MIGRATION_MODULES={'contenttypes': None, 'denorm': None, 'simapp': None}, LOGGING_CONFIG=None)
    import django
    django.setup()
    from denorm import denorms
    try:
        denorms.install_triggers()
    except Exception as e:
        print('%s: %s' % (type(e).__name__, str(e).strip().split('\n')[0]))
        sys.exit(3)


if __name__ == '__main__':
    main()
