'''P14: every clustering of a suite gets its own result.'''
import os
import re

import numpy as np

import experiments.clustering.medoid_distances as medoid_distances
import experiments.clustering.partition_analysis as partition_analysis
import spta.clustering.silhouette as silhouette
from spta.clustering.factory import ClusteringMetadataFactory
from spta.clustering.kmedoids import kmedoids_metadata_generator
from spta.clustering.regular import regular_metadata_generator
from spta.clustering.suite import ClusteringSuite, FindSuiteElbow, OrganizeClusteringSuite
from spta.distance.dtw import DistanceByDTW
from .common import check, command, fail, describe, note_state, tables
from . import solvers

ID = 'P14'
RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('one run = suites of clusterings over one or several regions are evaluated (partitions, '
        'costs, elbows, silhouettes, result file, medoid distances) in a drawn history with '
        'caches in any state, crashes, disk errors, exceptions at chosen lines, file damage and '
        'concurrent processes; every figure is compared with an independent computation; '
        'non-trivial = a fault struck, or a suite was evaluated with partitions cached before')
STATES = 'distinct (operations in order with suite and outcome, faults in order)'
REAL = ['spta.clustering (suite, silhouette, factory, algorithms)',
        'experiments.clustering.partition_analysis', 'experiments.clustering.medoid_distances',
        'spta.kmedoids', 'spta.region', 'spta.distance', 'spta.dataset.temp_brazil', 'spta.util',
        'numpy', 'tslearn', 'sklearn (silhouette)']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler', 'plots',
        'table of predefined regions and suites', 'dataset (synthetic values)']
PROBES = ['partitions', 'costs', 'elbows', 'one_seed', 'many_seeds', 'too_few', 'uneven',
          'unordered', 'kmedoids', 'regular', 'analysis', 'read_back', 'cut_file', 'no_file',
          'distances', 'silhouette', 'no_silhouette', 'crashed', 'disk_error', 'line_error',
          'damaged', 'deleted', 'cached', 'shared_measure', 'concurrent', 'organized',
          'not_possible', 'overlapping', 'no_distances', 'offset', 'repr']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'enospc', 'eio_write', 'eio_read', 'emfile', 'eacces', 'short_write',
          'short_read']


class Anything:
    '''A plot'''

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()


class FakePlt:
    def __getattr__(self, name):
        return Anything()

    def subplots(self, *a, **k):
        return Anything(), (Anything(), Anything())


class Suite:
    def __init__(self, name, identifier, ks, seeds, mode, pool):
        self.name, self.identifier, self.ks, self.seeds, self.mode = name, identifier, ks, seeds, \
            mode
        self.parts = []     # in the order of the suite
        for k in ks:
            for seed in (seeds if name == 'kmedoids' else (1,)):
                p = {'random_seed': seed, 'mode': mode} if name == 'kmedoids' else {}
                new = solvers.Clustering(name, k, p)
                self.parts.append(pool.setdefault(new.text(), new))

    def make(self, how):
        '''In the ways that the code does it'''
        if how == 0:
            kw = {}
            if self.name == 'kmedoids':
                kw = {'random_seed': self.seeds[0] if len(self.seeds) == 1 else list(self.seeds),
                      'mode': self.mode}
            return ClusteringSuite(self.identifier, self.name, k=list(self.ks), **kw)
        if self.name == 'kmedoids':
            out = kmedoids_metadata_generator(list(self.ks), list(self.seeds), mode=self.mode)
        else:
            out = regular_metadata_generator(list(self.ks))
        out.identifier = self.identifier
        return out

    def text(self):
        return '{}-{}:{}/{}/{}'.format(self.name, self.identifier, self.ks, self.seeds, self.mode)


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(
            sim, c.int(1, 2), ((2, 2), (2, 3), (3, 3), (1, 4), (3, 4), (5, 1), (2, 7)), 14)
        self.by_name = {t.key: t for t in self.targets}
        self.suites = []
        pool = {}
        for i in range(c.int(1, 3)):
            name = 'regular' if c.chance(0.2) else 'kmedoids'
            ks = c.shuffle(c.pick([range(1, 8), range(1, 8), [1, 2, 3, 9, 10, 11, 12]]))[
                :c.int(1, 5)]
            if c.chance(0.7):
                ks = sorted(ks)
            if c.chance(0.5) and min(t.n for t in self.targets) > 3:
                ks = [k for k in ks if k <= min(t.n for t in self.targets)] or [2]
            seeds = c.shuffle([0, 1, 2, 3, 10, 20])[:c.int(1, 3)]
            ident = 'quick' if name not in [s.name for s in self.suites] else 's{}'.format(i)
            self.suites.append(Suite(name, ident, ks, seeds, c.pick(['lite', 'lite', 'robust']),
                                     pool))
            sim.probe(name)
        if len(pool) < sum(len(s.parts) for s in self.suites):
            sim.probe('overlapping')
        self.proc = sim.restart('p')
        self.measure = DistanceByDTW()
        self.results = {}       # (suite, target) -> 'whole' or 'cut'
        self.files = {}         # path -> contents that should not change
        self.history = []
        self.evaluated = set()
        for s in self.suites:
            for t in self.targets:
                self.possible(s, t)     # while the distances are there
            self.check_metadata(s)

    def check_metadata(self, s):
        '''Clusterings with other parameters are different, the same ones are the same'''
        st, got = self.sim.in_proc(self.proc, lambda: list(s.make(self.sim.c.draw(2))))
        check(st == 'ok', 'failed', '{}: {!r}', s.text(), got)
        same = [o.metadata() for o in s.parts]
        check(len(got) == len(same), 'other-suite', '{}: {}', s.text(), got)
        for a, o in zip(got, s.parts):
            params = (a.name, a.k) + ((a.random_seed, a.mode) if s.name == 'kmedoids' else ())
            want = (s.name, o.k) + tuple(o.params.values())
            check(params == want, 'other-suite', '{}: {} expected {}', s.text(), params, want)
        for i, a in enumerate(got):
            for j, b in enumerate(same):
                check((a == b) == (i == j), 'equal', '{!r} and {!r}: {}', a, b, a == b)
            check(len({a, same[i]}) == 1, 'equal', '{!r} is not found by an equal key', a)
            back = ClusteringMetadataFactory().from_repr(repr(a))
            check(back == a and repr(back) == repr(a), 'repr', '{!r} is read as {!r}', a, back)
            self.sim.probe('repr')
        check(len(set(got)) == len(got), 'equal', '{}: {} of {} are left in a set', s.text(),
              len(set(got)), len(got))

    # --- expected
    def possible(self, s, t):
        '''Every clustering of the suite can be made'''
        return all([o.k <= t.n and o.reference(self.sim, t) is not None for o in s.parts])

    def distances_of(self, o, t):
        '''For each cluster, distances to the medoid'''
        labels, medoids = o.reference(self.sim, t)
        out = []
        for i, (mx, my) in enumerate(medoids):
            members = np.nonzero(labels.reshape(-1) == i)[0]
            out.append(t.distances[mx * t.y + my][members])
        return out

    def cost(self, o, t):
        return sum(float(np.sum(d ** 2)) for d in self.distances_of(o, t))

    def elbow_values(self, s, t, seed):
        '''k -> second derivative of the cost'''
        parts = sorted([o for o in s.parts if o.params['random_seed'] == seed],
                       key=lambda o: o.k)
        out = {}
        for a, b, e in zip(parts, parts[1:], parts[2:]):
            ya, yb, ye = self.cost(a, t), self.cost(b, t), self.cost(e, t)
            out[b.k] = 2 * ((ye - yb) / (e.k - b.k) - (yb - ya) / (b.k - a.k)) / (e.k - a.k)
        return out

    def score(self, o, t):
        '''Mean silhouette'''
        labels = o.reference(self.sim, t)[0].reshape(-1)
        total = 0.0
        for i in range(t.n):
            own = labels == labels[i]
            if own.sum() == 1:
                continue
            a = t.distances[i][own].sum() / (own.sum() - 1)
            b = min(t.distances[i][labels == j].mean() for j in set(labels) if j != labels[i])
            total += (b - a) / max(a, b) if max(a, b) > 0 else 0
        return total / t.n

    # --- steps
    def new_measure(self):
        if self.sim.c.chance(0.5):
            self.sim.probe('shared_measure')
            return self.measure
        return DistanceByDTW()

    def restart(self):
        self.proc = self.sim.restart('p')
        self.measure = DistanceByDTW()

    def draw(self, kmedoids=False):
        c = self.sim.c
        suites = [s for s in self.suites if s.name == 'kmedoids'] if kmedoids else self.suites
        return (c.pick(suites) if suites else None), c.pick(self.targets)

    def attempt(self, what, fn, faults=True):
        '''(state, result, whether something was injected that may be an error)'''
        sim, c = self.sim, self.sim.c
        plan = sim.fs.draw_plan(FAULTS, 12, 0.4) if faults else None
        exc = None
        if faults and plan is None and c.chance(0.15):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 2000)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return fn()
            finally:
                sim.clear_line_fault()
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        if failed:
            sim.probe('disk_error')
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
            failed = True
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        self.history.append(what + (st,))
        return st, got, failed

    def seen(self, s, t):
        '''Whether partitions were cached by another evaluation'''
        for o in s.parts:
            if (o, t) in self.evaluated:
                self.sim.probe('cached')
                self.sim.nontrivial = True
            self.evaluated.add((o, t))

    def check_partitions(self, got, s, t):
        keys = [o.metadata() for o in s.parts]
        check(len(got) == len(keys), 'lost-result', '{} of {}: {} partitions for {} clusterings',
              s.text(), t.key, len(got), len(keys))
        for o, md in zip(s.parts, keys):
            check(md in got, 'lost-result', '{} of {}: no {!r}', s.text(), t.key, md)
            labels, medoids = o.reference(self.sim, t)
            part = got[md]
            check(np.array_equal(np.array(part.as_numpy), labels), 'other-partition',
                  '{!r} of {}: {} expected {}', md, t.key, np.array(part.as_numpy).tolist(),
                  labels.tolist())
            found = [(int(p.x), int(p.y)) for p in part.medoids]
            check(found == medoids, 'other-medoids', '{!r} of {}: {} expected {}', md, t.key,
                  found, medoids)

    def check_costs(self, got, s, t):
        check(len(got) == len(s.parts), 'lost-result', '{} of {}: {} costs for {} clusterings',
              s.text(), t.key, len(got), len(s.parts))
        for o in s.parts:
            want = self.cost(o, t)
            cost = got.get(o.metadata())
            check(cost is not None and abs(cost - want) <= 1e-6 * (1 + want), 'other-cost',
                  '{} of {}: {} expected {}', o.text(), t.key, cost, want)

    def check_elbows(self, got, s, t):
        check(sorted(got) == sorted(s.seeds), 'elbow-per-seed', '{} of {}: {}', s.text(), t.key,
              got)
        for seed in s.seeds:
            values = self.elbow_values(s, t, seed)
            md = got[seed]
            best = max(values.values())
            tiny = 1e-9 * (1 + max(self.cost(o, t) for o in s.parts))
            check(md.random_seed == seed and md.mode == s.mode and md.k in values and
                  values[md.k] >= best - tiny, 'other-elbow', '{} of {}, seed {}: {!r} of {}',
                  s.text(), t.key, seed, md, values)

    def op_elbows(self):
        sim, c = self.sim, self.sim.c
        s, t = self.draw(kmedoids=True)
        if s is None:
            return
        home = c.pick(['pickle', 'pickle', 'other/home'])
        measure = self.new_measure()
        how = c.draw(3)

        def body():
            find = FindSuiteElbow(s.make(c.draw(2)), t.metadata().create_instance(), measure)
            if how == 2:
                return None, None, find.calculate_elbows_kmedoids(home)
            parts = find.get_all_partitions(home)
            if how == 0:
                return parts, None, None
            return parts, find.get_all_intra_cluster_costs(parts), None
        self.seen(s, t)
        st, got, failed = self.attempt(('elbows', how, s.text(), t.key, home), body)
        sim.probe('one_seed' if len(s.seeds) == 1 else 'many_seeds')
        if st == 'ok':
            parts, costs, elbows = got
            if parts is not None:
                self.check_partitions(parts, s, t)
                sim.probe('partitions')
            if costs is not None:
                self.check_costs(costs, s, t)
                sim.probe('costs')
            if elbows is not None:
                self.check_elbows(elbows, s, t)
                sim.probe('elbows')
                if list(s.ks) != sorted(s.ks):
                    sim.probe('unordered')
                if len(set(np.diff(sorted(s.ks)))) > 1:
                    sim.probe('uneven')
        elif st == 'err' and not failed:
            if how == 2 and len(s.ks) < 3:
                sim.probe('too_few')
                return
            self.excuse(s, t, got, how > 0)

    def excuse(self, s, t, err, distances=False):
        '''Evaluating may fail without an injected fault'''
        if not self.possible(s, t):
            self.sim.probe('not_possible')
        elif not t.dataset.intact:
            pass
        elif (distances or s.name == 'regular') and not t.intact:
            self.sim.probe('no_distances')
        else:
            fail('failed', '{} of {}: {!r}', s.text(), t.key, err)

    def command(self, program, s, t):
        '''A program for a suite and a region'''
        return command(program.processRequest, [t.key, s.name, s.identifier])

    def program(self, fn):
        '''Run a program on the regions and suites of this run'''
        def body():
            how = self.sim.c.draw(2)
            with tables(self.sim,
                        predefined_regions=lambda: {t.key: t.metadata() for t in self.targets},
                        kmedoids_suites=lambda: {s.identifier: s.make(how) for s in self.suites
                                                 if s.name == 'kmedoids'},
                        regular_suites=lambda: {s.identifier: s.make(how) for s in self.suites
                                                if s.name == 'regular'}):
                return fn()
        return body

    def result_path(self, s, t):
        return s.make(0).analysis_csv_filepath('outputs', t.metadata(), DistanceByDTW())

    def check_files(self, but=()):
        for path, text in self.files.items():
            if path not in but:
                check(self.sim.fs.read(path) == text, 'result-changed', '{}: {} expected {}',
                      path, self.sim.fs.read(path), text)

    def absolute(self, o, t):
        return [(x + t.rect.x1, y + t.rect.y1) for x, y in o.reference(self.sim, t)[1]]

    def op_analysis(self):
        sim = self.sim
        s, t = self.draw()
        path = self.result_path(s, t)
        body = self.program(self.command(partition_analysis, s, t))
        self.seen(s, t)
        self.files.pop(path, None)
        st, got, failed = self.attempt(('analysis', s.text(), t.key), body)
        self.check_files()
        if st == 'ok':
            sim.probe('analysis')
            self.check_result(s, t, path)
            return
        self.results[s, t] = 'cut'
        if st == 'err' and not failed:
            self.excuse(s, t, got, True)

    def check_result(self, s, t, path):
        rows = solvers.read_rows(self.sim, path)
        check(rows and len(rows) == len(s.parts) + 1, 'result-rows', '{}: {}', path, rows)
        for row, o in zip(rows[1:], s.parts):
            check(len(row) == 3 and row[0] == repr(o.metadata()), 'result-rows',
                  '{}: {} expected {!r}', path, row, o.metadata())
            total = sum(float(np.sum(d)) for d in self.distances_of(o, t))
            check(solvers.near(row[1], total), 'other-cost', '{}: {} expected {}', path, row,
                  total)
            found = [tuple(int(v) for v in p) for p in re.findall(r'\((\d+),(\d+)\)', row[2])]
            check(found == self.absolute(o, t), 'other-medoids', '{}: {} expected {}', path, row,
                  self.absolute(o, t))
        self.results[s, t] = 'whole'
        self.files[path] = self.sim.fs.read(path)
        if t.rect.x1 or t.rect.y1:
            self.sim.probe('offset')

    def op_read(self):
        sim, c = self.sim, self.sim.c
        s, t = self.draw()
        if self.results and c.chance(0.7):
            s, t = c.pick(sorted(self.results, key=lambda a: (a[0].text(), a[1].key)))
        plan = sim.fs.draw_plan(['eio_read', 'short_read', 'emfile', 'eacces'], 3, 0.2)
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, lambda: s.make(c.draw(2)).retrieve_suite_result_csv(
            'outputs', t.metadata(), DistanceByDTW()))
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        state = self.results.get((s, t))
        self.history.append(('read', s.text(), t.key, st))
        if state is None:
            check(st == 'err', 'read-nothing', '{} of {}: {!r}', s.text(), t.key, got)
            sim.probe('no_file')
            return
        if st != 'ok':
            check(state == 'cut' or failed, 'not-read', '{} of {}: {!r}', s.text(), t.key, got)
            return
        sim.probe('read_back' if state == 'whole' else 'cut_file')
        want = {repr(o.metadata()): o for o in s.parts}
        if state == 'whole':
            check(set(got) == set(want), 'lost-result', '{} of {}: {}', s.text(), t.key,
                  sorted(got))
        for key, medoids in got.items():
            check(key in want, 'other-result', '{} of {}: {}', s.text(), t.key, key)
            found = [(int(p.x), int(p.y)) for p in medoids]
            check(found == self.absolute(want[key], t), 'other-medoids',
                  '{} of {} as read: {} expected {}', key, t.key, found,
                  self.absolute(want[key], t))

    def op_distances(self):
        sim = self.sim
        s, t = self.draw()
        paths = [os.path.join(o.metadata().output_dir('outputs', t.metadata(), DistanceByDTW()),
                              'medoid_distances.csv') for o in s.parts]
        for path in paths:
            self.files.pop(path, None)
        body = self.program(self.command(medoid_distances, s, t))
        st, got, failed = self.attempt(('distances', s.text(), t.key), body)
        self.check_files()
        if st == 'err' and not failed:
            self.excuse(s, t, got, True)
        if st != 'ok':
            return
        sim.probe('distances')
        for o, path in zip(s.parts, paths):
            at = [x * t.y + y for x, y in o.reference(sim, t)[1]]
            rows = solvers.read_rows(sim, path)
            check(rows and len(rows) == o.k + 1 and all(len(r) == o.k + 1 for r in rows),
                  'distance-rows', '{}: {}', path, rows)
            for i, row in enumerate(rows[1:]):
                check(row[0] == str(i) and all(
                    solvers.near(v, t.distances[at[i], at[j]]) for j, v in enumerate(row[1:])),
                    'other-distances', '{}: {} expected {}', path, row, t.distances[at[i]][at])
            self.files[path] = sim.fs.read(path)

    def op_silhouette(self):
        sim, c = self.sim, self.sim.c
        s, t = self.draw()
        measure = self.new_measure()

        def body():
            old, silhouette.plt = silhouette.plt, FakePlt()
            try:
                return silhouette.SilhouetteAnalysis(
                    t.metadata(), measure, s.make(c.draw(2))).perform_analysis('outputs',
                                                                               'pickle')
            finally:
                silhouette.plt = old
        self.seen(s, t)
        st, got, failed = self.attempt(('silhouette', s.text(), t.key), body)
        if st == 'err' and not failed:
            if any(o.k < 2 or o.k >= t.n for o in s.parts):
                sim.probe('no_silhouette')
                return
            self.excuse(s, t, got, True)
        if st != 'ok':
            return
        sim.probe('silhouette')
        scores = {repr(o.metadata()): self.score(o, t) for o in s.parts}
        best = max(scores.values())
        check(abs(got[0] - best) < 1e-6, 'other-score', '{} of {}: {} expected {} of {}', s.text(),
              t.key, got[0], best, scores)
        check(scores.get(repr(got[1]), -9) >= best - 1e-6, 'not-the-best', '{} of {}: {!r} of {}',
              s.text(), t.key, got[1], scores)

    def op_organize(self):
        s, t = self.draw(kmedoids=True)
        if s is None:
            return
        st, got = self.sim.in_proc(self.proc, lambda: OrganizeClusteringSuite(
            ).organize_kmedoids_suite(s.make(self.sim.c.draw(2))))
        check(st == 'ok', 'failed', '{}: {!r}', s.text(), got)
        want = {seed: [(k, seed) for k in sorted(s.ks)] for seed in s.seeds}
        got = {seed: [(md.k, md.random_seed) for md in v] for seed, v in got.items()}
        check(got == want, 'organized', '{}: {} expected {}', s.text(), got, want)
        self.sim.probe('organized')

    def op_damage(self):
        sim, c = self.sim, self.sim.c
        files = [f for f in sim.fs.files() if f.startswith(('pickle/', 'other/', 'outputs/'))]
        if c.chance(0.15):
            files = [t.metadata().distances_filename for t in self.targets if t.intact]
        elif c.chance(0.5):
            some = [f for f in files if os.path.basename(f).startswith('clustering__') and
                    self.is_result(f)]
            files = some or files
        if not files:
            return
        f = c.pick(sorted(files))
        if c.chance(0.3):
            sim.fs.delete(f)
            sim.probe('deleted')
        else:
            sim.fs.damage(f)
            sim.probe('damaged')
        self.files.pop(f, None)
        for key in list(self.results):
            if self.result_path(*key) == f:
                self.results[key] = 'cut'
        for t in self.targets:
            if t.metadata().distances_filename == f:
                t.intact = False
        self.history.append(('damage', f))

    def is_result(self, f):
        return f in [self.result_path(*key) for key in self.results]

    def op_repair(self):
        for t in self.targets:
            if not t.intact:
                t.write()

    def op_concurrent(self):
        sim, c = self.sim, self.sim.c
        self.op_repair()
        jobs, what = [], []
        for i in range(c.int(2, 3)):
            s, t = self.draw()
            if not self.possible(s, t) or (s, t) in [w[:2] for w in what]:
                continue
            elbows = s.name == 'kmedoids' and len(s.ks) >= 3 and c.chance(0.5)
            proc = sim.new_proc('c{}'.format(i))

            def body(s=s, t=t, elbows=elbows):
                if elbows:
                    return FindSuiteElbow(s.make(0), t.metadata().create_instance(),
                                          DistanceByDTW()).calculate_elbows_kmedoids('pickle')
                return self.command(partition_analysis, s, t)()
            jobs.append((proc, body))
            what.append((s, t, elbows))
            if not elbows:
                self.files.pop(self.result_path(s, t), None)
                self.results[s, t] = 'cut'
        if not jobs:
            return
        sim.fs.split_writes = True
        sim.fs.arm(sim.fs.draw_plan(['crash_write', 'crash_write', 'enospc', 'eio_write'], 20,
                                    0.4))
        # the tables of regions and suites are shared by the processes
        whole = self.program(lambda: sim.concurrently(jobs))
        outs = whole()
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('concurrent')
        sim.nontrivial = True
        for (s, t, elbows), (st, got) in zip(what, outs):
            self.history.append(('concurrent', s.text(), t.key, elbows, st))
            if st == 'ok' and elbows:
                self.check_elbows(got, s, t)
            elif st == 'ok':
                self.check_result(s, t, self.result_path(s, t))
            elif st == 'err':
                check(failed, 'failed', '{} of {}: {!r}', s.text(), t.key, got)
        self.check_files()


OPS = [Run.op_elbows] * 4 + [Run.op_analysis] * 3 + [Run.op_read] * 3 + [Run.op_silhouette] * 2 + [
    Run.op_distances, Run.op_organize, Run.op_damage, Run.op_damage, Run.op_repair,
    Run.op_concurrent]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    for _ in range(c.int(2, 9)):
        c.pick(OPS)(run)
    # in the end, without faults, every suite is evaluated again
    run.op_repair()
    run.restart()
    for s in run.suites:
        for t in run.targets:
            if not run.possible(s, t):
                continue
            path = run.result_path(s, t)
            run.files.pop(path, None)
            st, got, _ = run.attempt(('end',), run.program(
                run.command(partition_analysis, s, t)), False)
            check(st == 'ok', 'failed', 'at the end {} of {}: {!r}', s.text(), t.key, got)
            run.check_result(s, t, path)
    describe(sim, suites=[s.text() for s in run.suites], history=run.history)
    note_state(sim, run.history, sim.fault_log)
