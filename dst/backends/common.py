"""What the three simulated database engines share.

The engines are the real Django engines talking to the real databases; they only add, around each operation of an
actor, the hand-over to the kernel, the injected faults, and deterministic handling of lock conflicts.
Threads that are not actors (set-up, observers) are not intercepted.
"""
from ..kernel import current_actor, signature, SimCrash

# Statements that have no effect of their own worth a scheduling point.
_WRITES = ('INSERT', 'UPDATE', 'DELETE', 'REPLACE')
_TRIVIAL = ('BEGIN', 'SAVEPOINT', 'RELEASE', 'SET')


class DeadConnection(object):
    """Stands in for a connection the server has dropped."""
    closed = 1
    in_transaction = False

    def __init__(self, error):
        object.__setattr__(self, '_error', error)

    def close(self):
        pass

    def __getattr__(self, name):
        raise self._error()

    def __setattr__(self, name, value):
        raise self._error()


class SimWrapper(object):
    """Mixin for Django's DatabaseWrapper classes."""
    lock_timeout = None
    can_lose_connection = True
    _sim_quiet = False
    _sim_killed = False
    sim_mark_faults = False  # can the recording of pending work be made to fail in this world?
    sim_features = {}        # evaluated once, so that no lazy feature detection happens inside a run
    sim_attrs = {}

    # supplied by the vendor module: sim_connect, sim_release, sim_is_lock_error, sim_in_tx, sim_error, sim_dead_error,
    # sim_fail_statement, sim_victim, sim_run, sim_arm, sim_disarm

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.features.__dict__.update(self.sim_features)
        self.__dict__.update(self.sim_attrs)
        a = current_actor()
        self.sim_actor = a
        if a is not None:
            a.wrappers.append(self)

    # -- connections
    def get_new_connection(self, conn_params):
        a = self.sim_actor
        if a is not None:
            if self._sim_killed or a.dead:
                raise SimCrash()
            fault = a.kernel.yield_op(a, 'connect', 'connect')
            if fault is not None:
                idx = a.ops - 1
                if fault == 'crash':
                    a.kernel.fault_fired(a, idx, fault, 'connect')
                    a.kernel.crash(a)
                if fault == 'connect_fail':
                    a.kernel.fault_fired(a, idx, fault, 'connect')
                    raise self.sim_error('connect')
        return self.sim_connect(conn_params)

    def connect(self):
        self._sim_quiet = True
        try:
            super().connect()
        finally:
            self._sim_quiet = False

    def sim_kill(self):
        """The process owning this connection is gone."""
        self._sim_killed = True
        self.sim_drop()

    def sim_drop(self):
        conn = self.connection
        if conn is not None and not isinstance(conn, DeadConnection):
            self.sim_release(conn)
        self.connection = None
        if self.sim_actor is not None:
            self.sim_actor.in_tx = False

    def sim_lose(self):
        """The connection breaks, the process does not."""
        self.sim_drop()
        self.connection = DeadConnection(self.sim_dead_error)
        if self.sim_actor is not None:
            self.sim_actor.kernel.tx_ended()

    def _alive(self):
        a = self.sim_actor
        if a is not None and (self._sim_killed or a.dead):
            raise SimCrash()

    def _close(self):
        self._alive()
        conn = self.connection
        if self.sim_actor is None:
            return super()._close()
        if conn is not None:
            if not isinstance(conn, DeadConnection):
                self.sim_release(conn)
                self.connection = DeadConnection(self.sim_dead_error)
            a = self.sim_actor
            a.in_tx = False
            a.kernel.log(a, 'close')
            a.kernel.tx_ended()

    def _set_autocommit(self, autocommit):
        self._alive()
        return super()._set_autocommit(autocommit)

    def _cursor(self, name=None):
        self._alive()
        return super()._cursor(name)

    # -- operations
    def _commit(self):
        a = self.sim_actor
        if a is None:
            return super()._commit()
        if self.connection is None:
            self._alive()
            return
        with self.wrap_database_errors:
            return self.sim_op('commit', 'COMMIT', 'COMMIT', self.sim_commit)

    def _rollback(self):
        a = self.sim_actor
        if a is None:
            return super()._rollback()
        if self.connection is None:
            self._alive()
            return
        with self.wrap_database_errors:
            return self.sim_op('rollback', 'ROLLBACK', 'ROLLBACK', self.sim_rollback)

    def sim_commit(self):
        self.connection.commit()

    def sim_rollback(self):
        self.connection.rollback()

    def sim_stmt(self, sql, params, fn):
        """A statement issued through a cursor."""
        a = self.sim_actor
        if a is None or self._sim_quiet:
            return fn()
        sig = signature(sql)
        if sig.split(None, 1)[0] in _TRIVIAL or sig == 'ROLLBACK':
            self._alive()
            if isinstance(self.connection, DeadConnection):
                raise self.sim_dead_error()
            return fn()
        return self.sim_op('sql', (sql, params), sig, fn)

    def sim_op(self, kind, label, sig, fn):
        a = self.sim_actor
        k = a.kernel
        conn = self.connection
        if not a.in_tx:
            a.data['tx'] = None
        fault = k.yield_op(a, kind, label, sig)
        idx = a.ops - 1
        if isinstance(self.connection, DeadConnection) or self.connection is not conn:
            raise self.sim_dead_error()
        after = None
        armed = False
        if fault is not None:
            if fault == 'crash':
                k.fault_fired(a, idx, fault, sig)
                k.crash(a)
            elif fault == 'stmt_error':
                if kind == 'sql':
                    k.fault_fired(a, idx, fault, sig)
                    raise self.sim_fail_statement(idx)
                elif kind == 'commit':
                    # the commit is refused: the transaction is rolled back
                    k.fault_fired(a, idx, 'commit_refused', sig)
                    self.sim_rollback()
                    a.in_tx = False
                    k.tx_ended()
                    raise self.sim_error('commit')
            elif fault == 'interrupt':
                k.fault_fired(a, idx, fault, sig)
                raise KeyboardInterrupt()
            elif fault == 'deadlock':
                k.fault_fired(a, idx, fault, sig)
                raise self.sim_victim()
            elif fault == 'conn_lost':
                if self.can_lose_connection:
                    k.fault_fired(a, idx, fault, sig)
                    self.sim_lose()
                    raise self.sim_error('lost')
            elif fault == 'mark_error':
                # recording pending work fails, wherever in this statement that happens
                armed = kind == 'sql' and self.sim_mark_faults and sig.split(None, 1)[0] in _WRITES
            elif fault in ('conn_lost_after', 'crash_after'):
                if fault == 'crash_after' or self.can_lose_connection:
                    after = fault
        if armed:
            self.sim_arm()
        while True:
            try:
                res = self.sim_run(kind, label, fn)
                break
            except Exception as e:
                if not self.sim_is_lock_error(e):
                    if armed and self.sim_disarm(e):
                        k.fault_fired(a, idx, fault, sig)
                    a.in_tx = self.sim_in_tx()
                    if not a.in_tx:
                        k.tx_ended()
                    k.log(a, 'error', type(e).__name__)
                    if k.trace is not None:
                        k.trace.append('        ! %s: %s' % (type(e).__name__, str(e).strip().split('\n')[0][:200]))
                    raise
                if k.block(a, self.lock_timeout):
                    continue
                if armed:
                    self.sim_disarm(e)
                raise self.sim_victim()
        if armed and self.sim_disarm(None):
            k.fault_fired(a, idx, fault, sig)
        k.unblocked(a)
        was = a.in_tx
        a.in_tx = self.sim_in_tx()
        committed = not a.in_tx and kind != 'rollback'
        if was and not a.in_tx:
            k.tx_ended()
        if k.trace is not None and kind == 'sql':
            k.trace.append('        %s' % self.sim_text(label))
        for m in k.monitors:
            m.on_op(k, a, kind, sig, label, committed)
        if after is not None:
            k.fault_fired(a, idx, after, sig)
            if after == 'crash_after':
                k.crash(a)
            self.sim_lose()
            raise self.sim_error('lost')
        return res

    def sim_text(self, label):
        sql, params = label
        from ..kernel import normalise
        if 'CREATE' in sql:
            sql = sql.strip().split('\n')[0]
        t = normalise(' '.join(sql.split()))[:300]
        if params:
            t += '  %r' % (params,)
        return t[:600]
