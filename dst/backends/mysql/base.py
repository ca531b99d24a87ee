import MySQLdb as Database

from django.db.backends.mysql import base as real

from ..common import DeadConnection, SimWrapper


class SimCursor(real.CursorWrapper):
    def __init__(self, db, cursor):
        real.CursorWrapper.__init__(self, cursor)
        self.sim_db = db
        self.sim_conn = db.connection

    def _check(self):
        db = self.sim_db
        if db.sim_actor is not None:
            db._alive()
            if db.connection is not self.sim_conn:
                raise db.sim_dead_error()

    def execute(self, query, args=None):
        self._check()
        sup = real.CursorWrapper.execute
        return self.sim_db.sim_stmt(query, args, lambda: sup(self, query, args))

    def executemany(self, query, args):
        self._check()
        sup = real.CursorWrapper.executemany
        args = list(args)
        return self.sim_db.sim_stmt(query, args, lambda: sup(self, query, args))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        db = self.sim_db
        if db.sim_actor is not None and (db._sim_killed or db.sim_actor.dead or db.connection is not self.sim_conn):
            return
        return self.cursor.close()


class DatabaseWrapper(SimWrapper, real.DatabaseWrapper):
    lock_timeout = 50.0
    sim_pools = {}          # database name -> idle connections
    sim_seed = 1

    def sim_connect(self, conn_params):
        if self.sim_actor is None:
            conn = real.DatabaseWrapper.get_new_connection(self, conn_params)
            c = conn.cursor()
            c.execute('SET innodb_lock_wait_timeout=3, lock_wait_timeout=3, rand_seed1=%d, rand_seed2=%d' % (self.sim_seed, self.sim_seed + 7))
            c.close()
            return conn
        pool = self.sim_pools.setdefault(self.settings_dict['NAME'], [])
        if pool:
            conn = pool.pop()
        else:
            conn = real.DatabaseWrapper.get_new_connection(self, conn_params)
        n = self.sim_actor.data['connects'] = self.sim_actor.data.get('connects', 0) + 1
        c = conn.cursor()
        if self.sim_actor.kernel.ddl_mode:
            c.execute('SET lock_wait_timeout=30')       # the server's own purging may hold a table for a moment
        c.execute('SET rand_seed1=%d, rand_seed2=%d' % ((self.sim_seed * 7919 + self.sim_actor.index * 104729 + n * 1299709) % 1000003,
                                                        (self.sim_seed * 31 + self.sim_actor.index * 17 + n) % 999983))
        c.close()
        return conn

    def sim_release(self, conn):
        if self.sim_actor is None:
            conn.close()
            return
        try:
            conn.rollback()
            conn.autocommit(True)
            self.sim_pools[self.settings_dict['NAME']].append(conn)
        except Database.Error:
            conn.close()

    def create_cursor(self, name=None):
        return SimCursor(self, self.connection.cursor())

    def sim_in_tx(self):
        c = self.connection
        if c is None or isinstance(c, DeadConnection):
            return False
        return bool(self._sim_tx)

    _sim_tx = False

    def sim_run(self, kind, label, fn):
        conn = self.connection
        if kind in ('commit', 'rollback'):
            res = fn()
            self._sim_tx = False
            return res
        res = fn()
        # a statement outside autocommit opens a transaction; DDL commits implicitly
        head = label[0].lstrip()[:6].upper()
        if head in ('CREATE', 'DROP T', 'ALTER '):
            self._sim_tx = False
        elif not conn.get_autocommit():
            self._sim_tx = True
        return res

    def sim_drop(self):
        self._sim_tx = False
        super().sim_drop()

    def sim_is_lock_error(self, e):
        return isinstance(e, Database.OperationalError) and e.args and e.args[0] in (1205,)

    def sim_dead_error(self):
        return Database.OperationalError(2006, 'MySQL server has gone away')

    def sim_error(self, what):
        if what == 'connect':
            return Database.OperationalError(2002, "Can't connect to server (simulated)")
        if what == 'commit':
            return Database.OperationalError(1180, 'Got error during COMMIT (simulated)')
        return Database.OperationalError(2013, 'Lost connection to server during query (simulated)')

    def sim_fail_statement(self, n):
        if n % 3 == 2:
            return Database.InternalError(1030, 'Got error 28 from storage engine (simulated)')
        return Database.OperationalError(1205, 'Lock wait timeout exceeded (simulated)')

    def sim_arm(self):
        c = self.connection.cursor()
        c.execute('SET @sim_fail = 1, @sim_fired = 0')
        c.close()

    def sim_disarm(self, e):
        if self.connection is None or isinstance(self.connection, DeadConnection):
            return False
        c = self.connection.cursor()
        c.execute('SELECT @sim_fired')
        fired = c.fetchone()[0]
        c.execute('SET @sim_fail = NULL, @sim_fired = 0')
        c.close()
        return bool(fired)

    def sim_victim(self):
        self.connection.rollback()
        self._sim_tx = False
        self.sim_actor.in_tx = False
        self.sim_actor.kernel.tx_ended()
        return Database.OperationalError(1213, 'Deadlock found when trying to get lock (simulated)')
