"""What is watched while a run is going on.

The Tracker reads the committed state (through a connection of its own) after every step that committed something, and
hands the difference to the checkers of the property under test.
"""
from . import simhooks, zones

ID = lambda pk: str(pk).replace('-', '')


class Tracker(object):
    def __init__(self, run, snap):
        self.run = run
        self.k = run.kernel
        self.w = run.world
        self.zone = run.zone
        self.snap = snap
        self.marks = {i: (m, o) for i, m, o in self.w.marks()}
        self.first = {i: 0 for i in self.marks}     # step at which a mark became visible
        self.checkers = []
        self.commits = []       # (step, actor name, changed rows)
        self.computes = []      # (step, row, actor name)
        self.ncomputes = 0
        self.known = {}         # known finding -> number of occurrences compensated
        self.excused = getattr(run.world, 'known', ())      # findings listed as known for this property

    # -- events
    def on_compute(self, a, instance, name):
        if a is None or a.kernel is not self.k:
            return
        if instance.pk is None:
            return
        row = (type(instance).__name__, ID(instance.pk))
        step = self.k.nsteps
        self.ncomputes += 1
        self.computes.append((step, row, a.name))
        a.data.setdefault('comp', {}).setdefault(row, step)
        for c in self.checkers:
            c.on_compute(a, row, name)

    def on_op(self, k, a, kind, sig, label, committed):
        if kind == 'sql' and not sig.startswith('SELECT'):
            if a.data.get('tx') is None:
                a.data['tx'] = k.nsteps
        if kind == 'sql' and sig.startswith('SELECT '):
            for c in self.checkers:
                c.on_select(a, sig[7:])
        if a.in_tx:
            return
        w = a.data.get('tx')
        a.data['tx'] = None
        if kind == 'rollback':
            a.data['comp'] = {}
            return
        if w is None:
            return
        self.committed(a, w)
        if not a.in_tx and a.data.get('comp') and kind == 'commit':
            a.data['comp'] = {}

    def on_sleep(self, k, a):
        for c in self.checkers:
            c.on_sleep(a)

    def committed(self, a, w):
        before, bmarks = self.snap, self.marks
        after = self.w.snapshot(self.zone)
        amarks = {i: (m, o) for i, m, o in self.w.marks()}
        self.snap, self.marks = after, amarks
        step = self.k.nsteps
        for i in amarks:
            if i not in bmarks:
                self.first[i] = step
        rows = changed(self.w, self.zone, before, after)
        if rows or bmarks.keys() != amarks.keys():
            a.data['commits'] = a.data.get('commits', 0) + 1
            self.k.probe('commits')
        for c in self.checkers:
            c.on_commit(a, before, after, bmarks, amarks, rows, w)
        if self.w.vendor != 'sqlite3':
            if 'F1' in self.excused:
                self.lost_during_recalculation(a, bmarks, amarks)
            if self.w.vendor == 'postgresql' and 'F2' in self.excused:
                self.unseen_link(a, w, rows)
        self.commits.append((step, a.name, rows))

    # -- known findings, see DESIGN.md and known-findings.txt
    def lost_during_recalculation(self, a, bmarks, amarks):
        """F1: a flush removes marks that other clients committed while it was recalculating that very row."""
        comp = a.data.get('comp') or {}
        for i, (m, o) in bmarks.items():
            if i in amarks or o is None:
                continue
            s = comp.get((m, ID(o)))
            if s is not None and self.first[i] > s:
                self.remark(m, o, 'F1')

    def unseen_link(self, a, w, rows):
        """F2 (PostgreSQL): a transaction's triggers do not see relations another transaction has yet to commit."""
        cands = set()
        for step, name, r in reversed(self.commits):
            if step <= w:
                break
            if name != a.name:
                cands |= r
        cands -= rows
        if not cands or not rows:
            return
        done = set()
        for step, row, name in reversed(self.computes):
            if step <= w:
                break
            done.add(row)
        cands &= done
        if not cands:
            return
        pending = set((m, ID(o)) for m, o in self.marks.values() if o is not None)
        for b in self.k.actors:
            if b is not a and b.in_tx:      # its mark is as good as gone: somebody is recalculating it from the old data
                pending -= set(b.data.get('comp') or ())
        cands -= pending
        for key, have, want in zones.diff(self.w, self.zone, self.snap, ('func',)):
            row = (key[0].split('.')[0], ID(key[1]))
            if row in cands:
                cands.discard(row)
                self.remark(row[0], key[1], 'F2')

    def remark(self, model, oid, what):
        info = self.w.schema.infos.get(model)
        if info is None:
            return
        self.w.q('INSERT INTO %s (content_type_id, object_id) VALUES (%%s, %%s)' % self.w.qn(self.w.dirty_table),
                 [self.w.cts[model], str(oid)])
        old = self.marks
        self.marks = {i: (m, o) for i, m, o in self.w.marks()}
        for i in self.marks:
            if i not in old:
                self.first[i] = self.k.nsteps
        self.known[what] = self.known.get(what, 0) + 1
        self.k.probe('known_' + what)
        self.k.log(None, 'known-finding', '%s %s %s' % (what, model, oid))

    # -- state checks
    def refresh(self):
        self.snap = self.w.snapshot(self.zone)
        self.marks = {i: (m, o) for i, m, o in self.w.marks()}

    def unchanged(self):
        """Is the committed state still what the last committing step left?"""
        s = self.w.snapshot(self.zone)
        m = {i: (mm, o) for i, mm, o in self.w.marks()}
        if s == self.snap and m == self.marks:
            return None
        return sorted(changed(self.w, self.zone, self.snap, s)), sorted(set(m.items()) ^ set(self.marks.items()))


def changed(world, zone, before, after):
    """Rows that differ between two committed states; a changed link counts for both its ends."""
    out = set()
    for t in world.schema.zone_tables(zone):
        b, n = before[t.name], after[t.name]
        if b == n:
            continue
        if t.m2m:
            model, name = t.name.split('.')
            target = [mm.target for mm in world.schema.infos[model].m2ms if mm.name == name][0]
            for x, y in b ^ n:
                out.add((model, ID(x)))
                out.add((target, ID(y)))
        else:
            for pk in b.keys() | n.keys():
                if b.get(pk) != n.get(pk):
                    out.add((t.name, ID(pk)))
    return out


class Checker(object):
    def __init__(self, run):
        self.run = run
        self.k = run.kernel
        self.w = run.world
        self.zone = run.zone

    def on_compute(self, a, row, name):
        pass

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        pass

    def on_sleep(self, a):
        pass

    def on_select(self, a, table):
        pass

    def on_saved(self, a, row, before):
        """A save outside any transaction has returned."""
        pass


class BaseConserved(Checker):
    """C05: whatever commits inside a flush or rebuild leaves the clients' data alone."""

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        if not a.data.get('flushing') or not rows:
            return
        self.k.probe('flush_commits_checked')
        b, n = zones.base_view(self.w, self.zone, before), zones.base_view(self.w, self.zone, after)
        if b != n:
            bad = []
            for t in b:
                if b[t] == n[t]:
                    continue
                if isinstance(b[t], set):
                    bad.append('%s: links %r' % (t, sorted(b[t] ^ n[t])))
                else:
                    for pk in sorted(b[t].keys() | n[t].keys(), key=str):
                        if b[t].get(pk) != n[t].get(pk):
                            bad.append('%s %s: %r -> %r' % (t, pk, b[t].get(pk), n[t].get(pk)))
            self.k.violation('base-changed', 'a flush by %s changed source data: %s' % (a.name, '; '.join(bad[:4])))


class AggExact(Checker):
    """C06: counts and sums are exact in every committed state."""

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        if not rows:
            return
        self.k.probe('agg_states_checked')
        d = zones.diff(self.w, self.zone, after, ('agg',))
        if d:
            self.k.violation('agg-wrong', 'after a commit by %s: %s' % (
                a.name, '; '.join('%s %s.%s is %r, should be %r' % (k[0], k[1], k[2], h, x) for k, h, x in d[:4])))


class Keys(Checker):
    """C07: a key changes in the commit that changes what it depends on, and never comes back."""

    def __init__(self, run):
        super().__init__(run)
        self.seen = {}      # (model, pk) -> {key: view}
        self.off = False    # a known finding made the rest of the run undecidable
        self.note(zones.key_views(self.w, self.zone, run.tracker.snap))

    def note(self, views):
        for row, (key, view, link) in views.items():
            self.seen.setdefault(row, {}).setdefault(key, view)

    def on_commit(self, a, before, after, bmarks, amarks, rows, w):
        if not rows or self.off:
            return
        b, n = zones.key_views(self.w, self.zone, before), zones.key_views(self.w, self.zone, after)
        for row, (key, view, link) in n.items():
            old = b.get(row)
            if old is not None and old[1] != view and old[2] == link:
                if old[0] == key:
                    if self.unseen(a, row, w):
                        continue
                    self.k.violation('key-kept', 'commit by %s changed what the key of %s %s depends on, but not the key' % (
                        a.name, row[0], row[1]))
                    return
                self.k.probe('key_changes_checked')
            was = self.seen.get(row, {}).get(key)
            if was is not None and was != view and (old is None or old[0] != key):
                self.k.violation('key-reused', '%s %s has a key again that stood for different data' % row[:2])
                return
        for row in a.data.pop('saved', ()):
            o, x = b.get(row), n.get(row)
            if o is not None and x is not None and o[0] == x[0]:
                self.k.violation('key-kept-save', '%s saved %s %s, but its key did not change' % (a.name, row[0], row[1]))
                return
        self.note(n)

    def on_saved(self, a, row, before):
        if self.off:
            return
        f = [x.column for x in self.w.schema.infos[row[0]].derived if x.denorm_kind in ('key', 'cached')]
        now = self.run.tracker.snap[row[0]].get(row[1])
        if f and before is not None and now is not None:
            self.k.probe('key_saves_checked')
            if before[f[0]] == now[f[0]]:
                self.k.violation('key-kept-save', '%s saved %s %s, but its key did not change' % (a.name, row[0], row[1]))

    def unseen(self, a, row, w):
        """Known finding F2, as above: the relation was committed by another transaction meanwhile."""
        if self.w.vendor != 'postgresql' or 'F2' not in self.run.tracker.excused:
            return False
        r = (row[0], ID(row[1]))
        tr = self.run.tracker
        for step, name, rows in reversed(tr.commits):
            if step <= w:
                break
            if name != a.name and r in rows:
                info = self.w.schema.infos[row[0]]
                f = [x for x in info.derived if x.denorm_kind in ('key', 'cached')][0]
                pk = row[1]
                if info.pk.kind == 'uuid':
                    import uuid
                    pk = str(uuid.UUID(pk))
                self.w.q("SET session_replication_role = replica; SET lock_timeout = '1ms'")
                try:
                    self.w.q('UPDATE %s SET %s = %s + 1 WHERE %s = %%s' % (
                        self.w.qn(info.table), self.w.qn(f.column), self.w.qn(f.column), self.w.qn(info.pk.column)), [pk])
                except Exception as e:
                    if getattr(e, 'pgcode', None) != '55P03':
                        raise
                    self.off = True     # somebody holds the row: nothing after this can be judged
                self.w.q('SET session_replication_role = DEFAULT; SET lock_timeout = 0')
                tr.known['F2'] = tr.known.get('F2', 0) + 1
                self.k.probe('known_F2')
                tr.snap = self.w.snapshot(self.zone)
                return True
        return False


def install(run):
    run.kernel.monitors.append(run.tracker)
    simhooks.LISTENERS[:] = [run.tracker]
    simhooks.SLOW.update(run.spec.get('slow') or {})
