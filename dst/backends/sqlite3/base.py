import random
import sqlite3 as Database

from django.db.backends.sqlite3 import base as real

from ..common import DeadConnection, SimWrapper


class SimCursor(real.SQLiteCursorWrapper):
    sim_db = None

    def execute(self, query, params=None):
        db = self.sim_db
        if db is None:
            return super().execute(query, params)
        sup = super().execute
        return db.sim_stmt(query, params, lambda: sup(query, params))

    def executemany(self, query, param_list):
        db = self.sim_db
        if db is None:
            return super().executemany(query, param_list)
        sup = super().executemany
        param_list = list(param_list)
        return db.sim_stmt(query, param_list, lambda: sup(query, param_list))

    def close(self):
        try:
            super().close()
        except Database.ProgrammingError:
            pass        # the database is closed already


class DatabaseWrapper(SimWrapper, real.DatabaseWrapper):
    lock_timeout = 5.0
    can_lose_connection = False     # an embedded database has no connection to lose
    sim_rand = random.Random(0)

    def sim_connect(self, conn_params):
        params = dict(conn_params)
        params['timeout'] = 0
        params['cached_statements'] = 256
        conn = real.DatabaseWrapper.get_new_connection(self, params)
        conn.create_function('RANDOM', 0, self.sim_random)
        if self.sim_mark_faults:
            conn.create_function('SIM_MARK', 0, self.sim_mark)
        conn.execute('PRAGMA synchronous = OFF')
        return conn

    _sim_armed = _sim_fired = False

    def sim_mark(self):
        if self._sim_armed:
            self._sim_fired = True
            raise Database.OperationalError('database or disk is full')

    def sim_arm(self):
        self._sim_armed, self._sim_fired = True, False

    def sim_disarm(self, e):
        self._sim_armed = False
        return self._sim_fired

    @classmethod
    def sim_random(cls):
        return cls.sim_rand.randint(-9223372036854775808, 9223372036854775807)

    def sim_release(self, conn):
        try:
            if conn.in_transaction:
                conn.rollback()
        finally:
            conn.close()

    def create_cursor(self, name=None):
        conn = self.connection
        cur = conn.cursor(factory=SimCursor)
        cur.sim_db = self
        return cur

    def sim_run(self, kind, label, fn):
        if not self._sim_armed:
            return fn()
        try:
            return fn()
        except Database.OperationalError as e:
            if self._sim_fired and 'user-defined function' in str(e):
                raise Database.OperationalError('database or disk is full (simulated)')
            raise

    def sim_in_tx(self):
        c = self.connection
        return bool(c is not None and c.in_transaction)

    def sim_is_lock_error(self, e):
        return isinstance(e, Database.OperationalError) and 'locked' in str(e)

    def sim_dead_error(self):
        return Database.ProgrammingError('Cannot operate on a closed database.')

    def sim_error(self, what):
        return Database.OperationalError({'connect': 'unable to open database file (simulated)',
                                          'commit': 'database or disk is full (simulated)'}.get(what, 'disk I/O error (simulated)'))

    def sim_fail_statement(self, n):
        if n % 3 == 2:
            return Database.DatabaseError('database disk image is malformed (simulated)')
        return Database.OperationalError('disk I/O error (simulated)')

    def sim_victim(self):
        return Database.OperationalError('database is locked (simulated)')
