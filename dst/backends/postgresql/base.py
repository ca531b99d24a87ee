import psycopg2 as Database
from psycopg2 import extensions

from django.db.backends.postgresql import base as real

from ..common import DeadConnection, SimWrapper
from ...kernel import current_actor

LOCK_CODES = ('55P03',)


class SimCursor(object):
    """Proxy of a psycopg2 cursor."""

    def __init__(self, db, cur):
        self.__dict__['sim_db'] = db
        self.__dict__['sim_conn'] = db.connection
        self.__dict__['cur'] = cur

    def _check(self):
        db = self.sim_db
        if db.sim_actor is not None:
            db._alive()
            if db.connection is not self.sim_conn:
                raise db.sim_dead_error()

    def execute(self, sql, params=None):
        self._check()
        cur = self.cur
        return self.sim_db.sim_stmt(sql, params, lambda: cur.execute(sql, params))

    def executemany(self, sql, params):
        self._check()
        cur = self.cur
        params = list(params)
        return self.sim_db.sim_stmt(sql, params, lambda: cur.executemany(sql, params))

    def fetchmany(self, *a, **kw):
        self._check()
        return self.cur.fetchmany(*a, **kw)

    def fetchone(self, *a, **kw):
        self._check()
        return self.cur.fetchone(*a, **kw)

    def fetchall(self, *a, **kw):
        self._check()
        return self.cur.fetchall(*a, **kw)

    def close(self):
        db = self.sim_db
        if db.sim_actor is None:
            return self.cur.close()
        if current_actor() is not db.sim_actor or db._sim_killed or db.sim_actor.dead or db.connection is not self.sim_conn:
            return      # the server side of it is gone already
        try:
            return self.cur.close()
        except Database.Error:
            if db.sim_in_tx():
                raise

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __getattr__(self, name):
        return getattr(self.cur, name)

    def __setattr__(self, name, value):
        setattr(self.cur, name, value)

    def __iter__(self):
        self._check()
        return iter(self.cur)


class DatabaseWrapper(SimWrapper, real.DatabaseWrapper):
    lock_timeout = None
    sim_pools = {}          # database name -> idle connections
    sim_seed = 0.5

    def sim_connect(self, conn_params):
        if self.sim_actor is None:
            conn = real.DatabaseWrapper.get_new_connection(self, conn_params)
            conn.autocommit = True
            with conn.cursor() as c:
                c.execute("SET lock_timeout = '3s'; SELECT setseed(%s)", [self.sim_seed])
            conn.autocommit = False
            return conn
        pool = self.sim_pools.setdefault(self.settings_dict['NAME'], [])
        if pool:
            conn = pool.pop()
            self.isolation_level = conn.isolation_level
        else:
            conn = real.DatabaseWrapper.get_new_connection(self, conn_params)
            conn.autocommit = True
            with conn.cursor() as c:
                c.execute("SET lock_timeout = '1ms'; SET client_min_messages = 'error'")
        conn.autocommit = True
        n = self.sim_actor.data['connects'] = self.sim_actor.data.get('connects', 0) + 1
        with conn.cursor() as c:
            c.execute("SELECT setseed(%s)", [((self.sim_seed * 7919 + self.sim_actor.index * 31 + n) % 1000) / 1000.0])
        conn.autocommit = False
        return conn

    def sim_release(self, conn):
        if conn.closed:
            return
        if self.sim_actor is None:
            conn.close()
            return
        try:
            if not conn.autocommit:
                conn.rollback()
            conn.autocommit = True
            with conn.cursor() as c:
                c.execute('CLOSE ALL')
            self.sim_pools[self.settings_dict['NAME']].append(conn)
        except Database.Error:
            conn.close()

    def create_cursor(self, name=None):
        return SimCursor(self, real.DatabaseWrapper.create_cursor(self, name))

    def sim_in_tx(self):
        c = self.connection
        if c is None or isinstance(c, DeadConnection) or c.closed:
            return False
        return c.info.transaction_status != extensions.TRANSACTION_STATUS_IDLE

    def _sim_exec(self, sql):
        with self.connection.cursor() as c:
            c.execute(sql)

    def sim_run(self, kind, label, fn):
        a = self.sim_actor
        conn = self.connection
        if kind == 'rollback' or conn.autocommit:
            return fn()
        if conn.info.transaction_status == extensions.TRANSACTION_STATUS_INERROR:
            return fn()
        if not a.kernel.open_tx_others(a):
            return fn()
        if kind == 'sql':
            sql = label[0]
            if sql.lstrip()[:6].upper() == 'SELECT' and 'FOR UPDATE' not in sql and not a.kernel.ddl_mode:
                return fn()
            if sql.lstrip()[:7].upper() == 'DECLARE':
                return fn()
        self._sim_exec('SAVEPOINT sim_guard')
        try:
            if kind == 'commit':
                self._sim_exec('SET CONSTRAINTS ALL IMMEDIATE')
            else:
                res = fn()
        except Database.Error as e:
            if self.sim_is_lock_error(e):
                self._sim_exec('ROLLBACK TO SAVEPOINT sim_guard')
                self._sim_exec('RELEASE SAVEPOINT sim_guard')
                raise
            if kind == 'commit':
                conn.rollback()
            raise
        self._sim_exec('RELEASE SAVEPOINT sim_guard')
        if kind == 'commit':
            return fn()
        return res

    def sim_is_lock_error(self, e):
        return getattr(e, 'pgcode', None) in LOCK_CODES

    def sim_dead_error(self):
        return Database.InterfaceError('connection already closed')

    def sim_error(self, what):
        return Database.OperationalError('server closed the connection unexpectedly (simulated)'
                                         if what != 'commit' else 'could not serialize access (simulated)')

    def _abort_tx(self):
        conn = self.connection
        if not conn.autocommit:
            try:
                self._sim_exec("DO $$ BEGIN RAISE EXCEPTION 'simulated'; END $$")
            except Database.Error:
                pass
            self.sim_actor.in_tx = True

    def sim_fail_statement(self, n):
        self._abort_tx()
        if n % 3 == 2:
            return Database.InternalError('unexpected data beyond EOF (simulated)')
        return Database.OperationalError('could not extend file: No space left on device (simulated)')

    def sim_arm(self):
        self._sim_exec("SELECT set_config('sim.fail', '1', false)")
        with self.connection.cursor() as c:
            c.execute('SELECT last_value FROM sim_fired')
            self._sim_before = c.fetchone()[0]

    def sim_disarm(self, e):
        if self.connection is None or isinstance(self.connection, DeadConnection):
            return False
        if self.connection.info.transaction_status == extensions.TRANSACTION_STATUS_INERROR:
            return '(simulated)' in str(e)      # the setting goes with the transaction
        self._sim_exec("SELECT set_config('sim.fail', '', false)")
        with self.connection.cursor() as c:
            c.execute('SELECT last_value FROM sim_fired')
            return c.fetchone()[0] != self._sim_before

    def sim_victim(self):
        self._abort_tx()
        return extensions.TransactionRollbackError('deadlock detected (simulated)')
