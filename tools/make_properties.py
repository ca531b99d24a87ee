#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os

D = 'denorm/denorms.py'; DEP = 'denorm/dependencies.py'; F = 'denorm/fields.py'
B = 'denorm/db/base.py'
TR = ['denorm/db/sqlite3/triggers.py', 'denorm/db/postgresql/triggers.py', 'denorm/db/mysql/triggers.py']
MW = 'denorm/middleware.py'; DM = 'denorm/management/commands/denorm_daemon.py'; DZ = 'denorm/daemon.py'

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DIRTY = ("pending recalculation markers", "which rows still have to be recalculated", "table of denorm/models.py DirtyInstance")

prop("C01", "A flush makes every denormalized field match its function",
  "After any history of committed writes to tracked tables, one completed flush leaves every denormalized field of every row equal to what its function returns for the committed data, and leaves nothing pending. "
  "This holds whatever the write path (save, partial save, create, bulk create, bulk update, delete, bulk delete, raw SQL, many-to-many edits from either side, generic relations) and whatever the declared dependency (forward, backward, self, many-to-many in both directions, explicit through table, generic, chains of dependent fields, denormalized foreign keys and many-to-many fields). "
  "It holds on SQLite, PostgreSQL and MySQL alike, and with the bulk-unsafe-triggers setting on for all writes except bulk, raw or partial writes (leaving out the denormalized fields) to the denormalized model's own rows.",
  ["histories", "inputs", "programs", "configurations"],
  "every history of writes by several clients over a schema using every dependency kind; every row, including NULL, moved and re-parented relations, columns of any type or named otherwise than their fields and foreign keys referring to other columns than the primary key; three databases; bulk-unsafe setting on and off",
  "The suite checks a handful of fixed 3-5 step scripts per dependency kind, never mixed write paths, never long histories, never several dependent fields and chains at once, and nothing with the bulk-unsafe setting.",
  [D, DEP, F, B] + TR,
  [("row triggers marking affected rows", DEP + " CallbackDependOnRelated.get_triggers"), ("own-table triggers", D + " CallbackDenorm.get_triggers"),
   ("multi-pass flush", D + " flush"), ("recalculation on save", F + " DenormDBField.pre_save"), ("many-to-many recalculation", D + " many_to_many_pre_save")],
  [DIRTY], ["committed table contents after flush"])

prop("C02", "A change and the knowledge that it needs recalculation commit together",
  "Once a change to tracked data is committed, the recalculation it requires is never forgotten, even if the writing client crashes, loses its connection or gets an ambiguous commit right then. "
  "A change that is rolled back (whole transaction, savepoint, failed statement, crash before commit) leaves no trace in denormalized fields, counters, cache keys or pending work.",
  ["crash_points", "fault_sequences", "histories", "schedules"],
  "every statement and commit of a writer as a crash, error, connection-loss or lost-acknowledgement point, and errors in recording the pending work itself; atomic blocks, nested savepoints, autocommit",
  "The tests run each case inside one always-successful connection; no test rolls back, fails, or loses a connection between a write and its commit.",
  [D, DEP, B] + TR,
  [("marking happens in database triggers, in the writer's own transaction", DEP), ("counters maintained by triggers", D + " AggregateDenorm.get_triggers")],
  [DIRTY], ["committed snapshot after each committed step"])

prop("C03", "An interrupted flush never loses pending recalculations",
  "If a flush is cut short at any point by a crash, a database error, a lost connection or a deadlock, every row it had not durably brought up to date is still pending. "
  "A later flush that is allowed to finish brings all denormalized fields up to date and leaves nothing pending.",
  ["crash_points", "fault_sequences", "schedules"],
  "every statement boundary of a flush (and of a second flush after it) as a crash/error/disconnect point, for any pending set and dependency chain; up to several faults per flush",
  "No test interrupts a flush.",
  [D, F],
  [("a row's marker is removed only once its new values are stored", D + " flush"), ("multi-pass loop", D + " flush")],
  [DIRTY], ["committed snapshot after the interrupted flush, and after the next complete one"])

prop("C04", "Concurrent writers and flushes converge to correct data",
  "With any number of clients writing and any number of flushes, middleware flushes and daemons running at the same time, in any interleaving, no change is missed: once writing stops, one completed flush leaves every denormalized field equal to its function on the committed data and nothing pending. "
  "Flushes and writers fail only with ordinary database errors (conflicts, deadlocks, integrity errors), never with an internal error, and failed ones can be retried.",
  ["schedules", "histories", "fault_sequences"],
  "every statement-level interleaving of up to four clients and up to three flushing processes, on three databases with real locking, with stalls",
  "The tests are single-connection and single-threaded; every race between recalculation, marker removal and other writers is out of reach.",
  [D, F, DEP] + TR,
  [("row-by-row recalculation and marker removal", D + " flush"), ("triggers mark in the writer's transaction", DEP)],
  [DIRTY], ["committed snapshot at quiescence + flush"])

prop("C05", "Recalculation never alters, revives or deletes source data",
  "Flushing, rebuilding and the daemon change denormalized fields and pending work only: no committed value of an ordinary field is ever changed, no deleted row reappears, no row or ordinary many-to-many link is added or removed, whatever other clients commit meanwhile. "
  "After an interrupted flush the source data is exactly what the clients committed.",
  ["schedules", "crash_points", "histories"],
  "every interleaving of writers, deleters, flushes and rebuilds; every crash point of a flush; all tables",
  "The tests never let a row change or vanish between a flush reading it and writing it back.",
  [D, F],
  [("a flush loads, recalculates and saves whole rows", D + " flush"), ("marker removal", D + " flush")],
  [("ordinary columns and rows", "the data the clients own", "user tables")], ["committed snapshot before/after every step of a flushing process"])

prop("C06", "Count and sum fields are exact in every committed state",
  "In every committed state, each count field equals the number, and each sum field the total (NULLs ignored), of the rows currently related through the named relation that satisfy its filter and exclude conditions, with no flush needed. "
  "This holds under concurrent writers, saves of stale parent instances, moves between parents, changes in and out of the filter, NULL parents, bulk and raw writes, rollbacks and crashes.",
  ["schedules", "histories", "inputs", "crash_points"],
  "every interleaving of writers on parents and related rows; every transition of parent, value and filter columns incl. NULL; three databases (filters on the two that support them)",
  "The tests do single-client increments and decrements; no concurrent save of the parent, no rollback, no NULL values, no stale instance.",
  [D, F] + TR,
  [("incremental triggers", D + " AggregateDenorm.get_triggers"), ("a save of the parent must not overwrite the counter", F + " AggregateField.pre_save")],
  None, ["committed snapshot after every committing step"])

prop("C07", "Cache keys change atomically with everything they depend on",
  "In the same commit that changes a row a cache key depends on (forward, backward, or many-to-many, including link changes, moves, inserts and deletes, bulk and raw writes), the key of every affected row takes a fresh value; saving the row itself does so too, while bulk, raw or partial updates of the key's own row are documented not to. "
  "A key value is never reused after the data it stood for has changed, and a rolled-back change leaves the key as it was.",
  ["histories", "schedules", "crash_points"],
  "every history and interleaving of writers over rows with cache keys of every dependency kind; three databases; rollbacks and crashes",
  "The tests look at one key before and after one change on one connection.",
  [F, DEP, D] + TR,
  [("triggers store a random key", DEP + " CacheKeyDependOnRelated.get_triggers"), ("random key on save", F + " CacheKeyField.pre_save")],
  [("cache key column", "version of the row's dependencies", "user tables")], ["committed snapshot after every committing step"])

prop("C08", "A cached field never serves data older than the row it is read from",
  "The value of a cached field of a row loaded from the database equals what its function returns for the data committed when the row's key was read, or newer. "
  "Lost, evicted or failed-to-store cache entries, concurrent readers and writers sharing one cache, and crashes may cost a recomputation but never a stale value.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of readers, writers and saves sharing one cache, with evictions, dropped stores and rollbacks",
  "The test uses one client and a cache that never fails.",
  [F, D],
  [("cache entry per key value", F + " CacheWrapper.__set__"), ("triggers change the key", DEP)],
  [("cache entry", "value computed for one key", "configured cache")], ["value of the attribute after loading the row"])

prop("C09", "The middleware always returns the response and loses no pending work",
  "Whatever database failure (error, deadlock, lost connection) the flush at the end of a request meets, the middleware returns the very response it was given and the client's committed work stays intact. "
  "Pending recalculations the failing flush could not finish remain pending, and later requests bring the data up to date. "
  "A request whose flush meets no failure leaves the data it committed up to date, whatever its method and whatever the response.",
  ["fault_sequences", "schedules"],
  "a fault at any database operation of the end-of-request flush, for requests of any kind that leave the connection healthy or broken, with concurrent requests",
  "One test calls the middleware with a healthy database; no failure is ever injected.",
  [MW, D],
  [("database errors are logged and swallowed", MW + " process_response")],
  [DIRTY], ["object returned by the middleware; committed snapshot"])

prop("C10", "The daemon propagates changes in bounded time and blocks no one while idle",
  "While the daemon runs, any committed change reaches all denormalized fields within a bounded number of its intervals after writers pause, and while it waits between rounds it holds no lock or open transaction that delays another client. "
  "A daemon killed, interrupted or failed at any point and started again resumes without losing work, on every supported database.",
  ["schedules", "crash_points", "fault_sequences", "configurations"],
  "every interleaving of daemon and clients in simulated time; kill/interrupt/error at any operation or during the wait; transactions that commit long after later ones; wait jitter and jumps of the wall clock; three databases",
  "The test runs the daemon command in a mode that leaves at once without flushing.",
  [DM, D],
  [("flush / commit / wait loop", DM + " Command.handle")],
  [DIRTY], ["lock waits of clients while the daemon sleeps; committed snapshot k intervals after the last write"])

prop("C11", "A rebuild repairs every denormalized field from any starting point",
  "Whatever wrong values denormalized fields (including counts and sums) hold, and whatever is or is not pending, one completed rebuild makes every one of them correct for the committed data; restricted to a model or field it repairs that model's fields. "
  "A rebuild that is interrupted anywhere can simply be run again.",
  ["inputs", "crash_points", "histories", "schedules"],
  "arbitrary corruption of denormalized columns and links, any pending work, any crash point of the rebuild followed by a re-run, concurrent clients",
  "The tests rebuild one stale callback field once, from a clean state, and never counts, sums, filters by field or interruptions.",
  [D, 'denorm/management/commands/denorm_rebuild.py'],
  [("mark everything, then flush", D + " rebuildall")],
  [DIRTY], ["committed snapshot after the rebuild"])

prop("C12", "Installing and dropping triggers is complete, repeatable and touches only its own",
  "After a completed drop no trigger with this library's name prefix remains and every other trigger is intact; after a completed install, on a dropped database or over an earlier one, every declared dependency is tracked exactly once. "
  "Interrupting either anywhere and then running drop and install again restores exactly that state, and on databases with transactional schema changes an interrupted drop or install leaves the previous state in force; all of this on whichever configured database is named.",
  ["crash_points", "fault_sequences", "configurations"],
  "every statement of install and drop as a crash/error point; any mix of earlier partial installs; user triggers with similar names; long table names; default and second database",
  "The tests call drop and install once in setUp/tearDown and check nothing in between.",
  [D, B] + TR + ['denorm/management/commands/denorm_init.py', 'denorm/management/commands/denorm_drop.py'],
  [("name-prefix based drop", "TriggerSet.drop of each backend"), ("one merged trigger per table and event", B + " TriggerSet.append")],
  [("installed triggers", "what is tracked", "database catalog")], ["catalog contents; behaviour of a probe workload after install"])

prop("C13", "Skipped fields hide changes only where they were declared",
  "A change confined to fields that a dependency (or the model's always-skip list, or the field itself) skips causes no recalculation through it, so models whose rows change on every save still settle. "
  "Any change to a field that is not skipped is tracked, and one dependency's skip list never hides a change from another dependency on the same table.",
  ["programs", "histories", "configurations"],
  "every combination of field-level, dependency-level and model-level skip lists on shared and separate tables; every subset of changed columns; flushes by several processes",
  "The tests have one model triple with one skip each and single changes.",
  [B, DEP, D, F] + TR,
  [("skip lists filter the compared columns", B + " Trigger.__init__"), ("merging of triggers on one table", B + " TriggerSet.append")],
  [DIRTY], ["pending work after a change; committed snapshot after flush"])

prop("C14", "A flush does bounded work, terminates and settles",
  "On data that no one else changes, a flush finishes after work proportional to the number of affected rows along the dependency chains, leaves nothing pending, and an immediately following flush recalculates nothing. "
  "Pending work for rows that no longer exist, or queued several times, is dropped silently without stopping the flush.",
  ["histories", "inputs", "schedules"],
  "every pending set incl. duplicates, NULL and dangling references, deleted content; chains, self-references and mutually dependent models; rows changed on every save; several flushers at once",
  "One test counts saves for one model; none bounds the work of chains or tries dangling or duplicated pending entries.",
  [D, 'denorm/models.py'],
  [("loop until nothing is pending", D + " flush"), ("all markers of a row are removed after its save", D + " flush")],
  [DIRTY], ["number of recalculations and database operations of a flush"])

prop("C15", "A saved row carries up-to-date denormalized values immediately",
  "When save or create returns, the denormalized fields of that row, both in the instance and as stored, equal what their functions return for the data the saving client can see, without any flush. "
  "This holds for new rows, stale or re-inserted instances, partial saves naming the fields, many-to-many fields, foreign-key fields (where an already loaded related object never contradicts the stored key), and under concurrent changes to other rows.",
  ["histories", "schedules", "inputs"],
  "every create/save by any client at any point of a concurrent history, including inside transactions that later roll back",
  "The tests check a stored value after a save only in a few single-client cases, mostly after a flush.",
  [F, D],
  [("values computed when the field is written", F + " DenormDBField.pre_save"), ("many-to-many values set around the save", D + " many_to_many_pre_save / many_to_many_post_save")],
  None, ["row as stored, read back by the saving client in the same transaction"])

prop("C16", "At most one daemon per pid file, and a dead one never blocks a new one",
  "Starting a daemon while its pid file names a living process, also another user's, refuses to run and leaves the pid file alone; otherwise it runs and, when it detaches, the pid file names the process doing the work once the start is over. "
  "A pid file that is missing, stale, empty, garbage or left by a crash or a failed write never prevents a start and never makes it crash, while one that cannot be read never lets a second daemon run.",
  ["crash_points", "fault_sequences", "schedules", "inputs"],
  "every sequence of starts, kills and restarts; crash or write error at any point of writing the pid file; any pid file contents and age and relative or absolute path; process ids reused or owned by someone else; starts that overlap are only required not to fail",
  "The test starts the command once in the foreground with no pid file.",
  [DM, DZ],
  [("pid file check", DM + " Command.pid_exists"), ("pid file written when detaching", DZ + " daemonize")],
  [("pid file", "process id of the running daemon", "path given by -f")], ["number of live flushing daemons per pid file; pid file contents"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, sort_keys=False) + "\n")
print(len(P))
