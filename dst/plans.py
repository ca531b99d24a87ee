"""Per property: which worlds, how long, and what the evidence says about it."""
import os

COMMON = ['the database engines (SQLite library, PostgreSQL 16, MariaDB 10.11) keep their own promises: atomic commit, isolation, locking',
          'interleavings are explored at the granularity of statements, commits and other intercepted operations',
          'denormalization functions are deterministic and tolerate vanished relations',
          'clients leave no reference to a missing row behind, not even inside a transaction, and self references form no cycles']
REAL = {'denorm package': 'real', 'Django ORM': 'real', 'database servers and triggers': 'real', 'database drivers': 'real',
        'scheduler, clock, random source': 'simulated', 'processes': 'threads released one at a time',
        'lock waits': 'real conflicts, simulated waiting'}
DEFAULT = [('sqlite3', 3), ('postgresql', 3), ('mysql', 3)]
RULE = ('One case = one seed: zone, starting state, client scripts, schedule and faults are drawn from it. '
        'A run is non-trivial if at least one context switch between live processes or one injected fault happened; '
        'distinct runs are counted by a hash of the whole sequence of (process, operation, table).')
SERIAL_RULE = ('One case = one seed: zone, starting state and the sequence of requests are drawn from it. A run is non-trivial if '
               'it committed at least one change; distinct runs are counted by a hash of the whole sequence of (operation, table).')
ENUM_RULE = ('One case = one seed: starting state, committed changes and hence the flush to be interrupted. Every operation of that flush '
             '(at most 40, sampled beyond that) is hit by every fault kind that applies to it, one run each; three cases in ten instead hit '
             'up to three concurrent flushes with several faults. Non-trivial: a fault fired. Distinct: hash of the sequence of '
             '(process, operation, table) plus position and kind of the faults.')
WORK_RULE = ('One case = one seed: starting state, committed changes, odd pending entries and the flushing processes are drawn from it. A run is '
             'non-trivial if at least one recalculation was judged; distinct runs are counted by a hash of the whole sequence of '
             '(process, operation, table).')
SAVE_RULE = ('One case = one seed: zone, starting state and scripts of saves by up to three clients, interleaving and faults are drawn from it. A run is '
             'non-trivial if at least one save was judged; distinct runs are counted by a hash of the whole sequence of (process, operation, table).')
DAEMON_RULE = ('One case = one seed: what the pid file holds, the sequence of starts, kills and other processes taking over pids, the interleaving and '
               'the faults are drawn from it. A run is non-trivial if at least one start was judged; distinct runs are counted by a hash of the '
               'whole sequence of (process, operation, file or table).')

PLANS = {
    'C01': dict(workers=[('sqlite3', 2), ('postgresql', 2), ('mysql', 2), ('sqlite3+unsafe', 1), ('postgresql+unsafe', 1), ('mysql+unsafe', 1)],
                rule=SERIAL_RULE),
    'C03': dict(level='fault_enumeration', rule=ENUM_RULE, min=2),
    'C08': {}, 'C09': {}, 'C10': {}, 'C11': {}, 'C12': {}, 'C13': dict(rule=SERIAL_RULE), 'C14': dict(rule=WORK_RULE), 'C15': dict(rule=SAVE_RULE),
    'C16': dict(workers=[('sqlite3', 8)], rule=DAEMON_RULE,
                components=dict(REAL, **{'database servers and triggers': 'real (SQLite only)', 'fork, signals, sessions, process table': 'simulated',
                                         'pid file': 'real file in a scratch directory'})),
    'C02': {}, 'C04': {}, 'C05': {}, 'C06': {}, 'C07': {},
}


def get(prop, tier):
    p = dict(workers=DEFAULT, rule=RULE, level='exploration', components=REAL, assumptions=COMMON, budget=60, cap=270, min=25, shrink=45)
    p.update(PLANS[prop])
    if tier == 'thorough':
        p['budget'] = p.get('thorough', 600)
        p['cap'] = p['budget'] * 2
        p['shrink'] = 180
    if os.environ.get('DST_BUDGET'):
        p['budget'] = float(os.environ['DST_BUDGET'])
        p['cap'] = p['budget'] * 2 + 120
    return p
