'''P15: training data for the classifier is reproducible and valid under any history.'''
import collections
import random
import re

import numpy as np

import experiments.clustering.extraction_lstm as extraction
import experiments.clustering.partition_analysis as partition_analysis
from spta.clustering.suite import ClusteringSuite
from spta.classifier.train_input import TrainDataWithRandomPoints, MedoidSeriesFormatter
from spta.distance.dtw import DistanceByDTW
from .common import check, command, fail, describe, note_state, tables
from . import solvers

ID = 'P15'
RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('one run = training data is generated for suites over one or several regions with drawn '
        'counts, seeds, criteria and thresholds, with scrambled random generators, interleaved '
        'threads and processes, crashes, disk errors, exceptions at chosen lines and damaged '
        'inputs; all rows are checked against the dataset and DTW of all pairs, and every run '
        'against every other run with the same parameters; non-trivial = a fault struck, threads '
        'were switched or training data was generated again')
STATES = 'distinct (operations in order with parameters and outcome, faults in order)'
REAL = ['spta.classifier.train_input', 'spta.clustering.suite', 'spta.util.maths', 'spta.region',
        'experiments.clustering.extraction_lstm', 'experiments.clustering.partition_analysis',
        'spta.solver, spta.model (prediction error criterion)', 'spta.distance', 'numpy']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'state of the random generators', 'estimators (pmdarima auto_arima)',
        'table of predefined regions, suites and models', 'dataset (synthetic values)']
PROBES = ['min_distance', 'min_error', 'threshold', 'exhausted', 'too_many', 'all_points',
          'repeated', 'other_threshold', 'scrambled', 'threads', 'processes', 'crashed',
          'disk_error', 'line_error', 'damaged', 'deleted', 'no_suite', 'no_distances',
          'no_solver', 'program', 'medoids', 'cut_suite', 'offset', 'regular', 'kmedoids',
          'after_failure', 'scaled', 'nothing_left', 'like_another', 'other_result']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'enospc', 'eio_write', 'eio_read', 'emfile', 'eacces', 'short_write',
          'short_read']


class Suite:
    def __init__(self, sim, t, name, ident, parts):
        self.sim, self.t, self.name, self.ident, self.parts = sim, t, name, ident, parts
        self.path = self.make().analysis_csv_filepath('outputs', t.metadata(), DistanceByDTW())
        self.written = None

    def make(self):
        kw = {}
        if self.name == 'kmedoids':
            kw = {'random_seed': sorted({o.params['random_seed'] for o in self.parts}),
                  'mode': self.parts[0].params['mode']}
        return ClusteringSuite(self.ident, self.name, k=sorted({o.k for o in self.parts}), **kw)

    def text(self):
        return '{}-{}:{}'.format(self.t.key, self.ident, [o.text() for o in self.parts])

    def available(self):
        '''{label: medoid in absolute coordinates} of the result file as it is, None if bad'''
        rows = solvers.read_rows(self.sim, self.path)
        if not rows:
            return None
        out = collections.OrderedDict()
        known = {repr(o.metadata()): o for o in self.parts}
        for row in rows[1:]:
            if len(row) != 3 or row[0] not in known:
                return None
            medoids = re.findall(r'\((\d+),(\d+)\) ', row[2])
            if len(medoids) != known[row[0]].k:
                return None
            for i, m in enumerate(medoids):
                out[known[row[0]], i] = tuple(int(v) for v in m)
        return out


class Request:
    def __init__(self, suite, count, seed, case, model=None, test_len=None, error=None):
        self.suite, self.count, self.seed, self.case = suite, count, seed, case
        self.model, self.test_len, self.error = model, test_len, error
        self.criterion = 'min_error' if case else 'min_distance'

    def text(self):
        text = '{} count{} seed{} {}'.format(self.suite.text(), self.count, self.seed,
                                             self.criterion)
        if self.case:
            text += ' {} {} {}'.format(self.model.parameters(), self.test_len, self.error)
        return text


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(
            sim, c.int(1, 2), ((2, 2), (2, 3), (3, 3), (1, 4), (3, 4), (5, 1)), 14)
        sim.estimators = solvers.Estimators()
        self.texts = {}
        for t in self.targets:
            for i in range(t.x):
                for j in range(t.y):
                    key = t, tuple('{:0.3f}'.format(v) for v in t.used[:, i, j])
                    self.texts.setdefault(key, []).append((i, j))
        self.proc = sim.restart('p')
        self.measure = DistanceByDTW()
        self.suites = []
        for i in range(c.int(1, 2)):
            self.add_suite(i)
        self.models = {'simple': solvers.Model('auto', (1, 1, c.int(2, 4), 3, None)),
                       'other': solvers.Model('auto', (1, 1, 2, c.int(1, 2), None))}
        self.cases = {}
        self.requests = []
        for _ in range(c.int(1, 3)):
            self.add_request()
        self.known = {}         # (request, suite contents, threshold) -> rows
        self.points = {}        # (suite contents, count, seed) -> points
        self.files = {}
        self.solvers = set()    # cases that can be loaded for sure
        self.trained = set()
        self.history = []

    def add_suite(self, i):
        c = self.sim.c
        t = c.pick(self.targets)
        name = 'regular' if c.chance(0.2) else 'kmedoids'
        parts = []
        if name == 'regular':
            for k in c.shuffle([1, 2, 3, 4])[:c.int(1, 2)]:
                parts.append(solvers.Clustering(name, k, {}))
        else:
            mode = c.pick(['lite', 'robust'])
            seeds = sorted(c.shuffle(range(3))[:c.int(1, 2)])
            for k in sorted(c.shuffle(range(1, min(t.n, 6)))[:c.int(1, 3)]):
                for seed in seeds:
                    parts.append(solvers.Clustering(name, k, {'random_seed': seed,
                                                              'mode': mode}))
        parts.sort(key=lambda o: o.k)
        if any(o.reference(self.sim, t) is None for o in parts):
            return
        suite = Suite(self.sim, t, name, 's{}'.format(i), parts)
        self.suites.append(suite)
        self.sim.probe(name)
        if t.scaled:
            self.sim.probe('scaled')

    def add_request(self):
        c = self.sim.c
        if not self.suites:
            return
        suite = c.pick(self.suites)
        case = None
        last = [r for r in self.requests if r.case]
        if last and c.chance(0.6):
            self.like(c.pick(last))
            return
        model = self.models[c.pick(['simple', 'simple', 'other'])]
        test_len, error = c.int(2, 4), c.pick(sorted(solvers.ERRORS))
        if c.chance(0.45):
            case = self.cases_for(suite, model, test_len, error)
        count = c.int(1, suite.t.n)
        if c.chance(0.3):
            count = max(1, suite.t.n - len({m for o in suite.parts
                                            for m in o.reference(self.sim, suite.t)[1]}))
        self.requests.append(Request(suite, count, c.pick([0, 1, 7]), case, model, test_len,
                                     error))

    def like(self, r):
        '''The same as another request, but for what the solvers forecast, or how'''
        c = self.sim.c
        model, test_len, error = r.model, r.test_len, r.error
        what = c.draw(3)
        if what == 0:
            model = [m for m in self.models.values() if m is not r.model][0]
        elif what == 1:
            test_len = 2 + (test_len - 1) % 3
        else:
            error = c.pick([e for e in sorted(solvers.ERRORS) if e != error])
        self.requests.append(Request(r.suite, r.count, r.seed, self.cases_for(
            r.suite, model, test_len, error), model, test_len, error))
        self.sim.probe('like_another')

    def cases_for(self, suite, model, test_len, error):
        out = []
        for o in suite.parts:
            key = suite.t, o, model, test_len, error
            if key not in self.cases:
                self.cases[key] = solvers.Case(self.sim, *key)
            out.append(self.cases[key])
        return out

    # --- steps
    def restart(self):
        self.proc = self.sim.restart('p')
        self.measure = DistanceByDTW()

    def new_measure(self):
        return self.measure if self.sim.c.chance(0.4) else DistanceByDTW()

    def attempt(self, what, fn):
        sim, c = self.sim, self.sim.c
        plan = sim.fs.draw_plan(FAULTS, 8, 0.35)
        exc = None
        if plan is None and c.chance(0.15):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 600)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return fn()
            finally:
                sim.clear_line_fault()
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        if failed:
            sim.probe('disk_error')
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
            failed = True
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        self.history.append(what + (st,))
        return st, got, failed

    def program(self, fn):
        '''Run a program on the regions, suites and models of this run'''
        def body():
            with tables(self.sim,
                        predefined_regions=lambda: {t.key: t.metadata() for t in self.targets},
                        kmedoids_suites=lambda: {s.ident: s.make() for s in self.suites
                                                 if s.name == 'kmedoids'},
                        regular_suites=lambda: {s.ident: s.make() for s in self.suites
                                                if s.name == 'regular'},
                        predefined_auto_arima=lambda: {
                            name: m.parameters() for name, m in self.models.items()}):
                return fn()
        return body

    def write_suite(self, s, faults=False):
        if not s.t.intact:
            s.t.write()
        fn = self.program(command(partition_analysis.processRequest,
                                  [s.t.key, s.name, s.ident]))
        if faults:
            return self.attempt(('suite', s.text()), fn)
        st, got = self.sim.in_proc(self.proc, fn)
        check(st == 'ok', 'suite-failed', '{}: {!r}', s.text(), got)

    def op_suite(self):
        self.write_suite(self.sim.c.pick(self.suites), True)

    def op_solvers(self):
        '''The solvers that the prediction error criterion needs'''
        for r in self.requests:
            for case in r.case or []:
                if case in self.solvers:
                    continue
                if not case.t.intact:
                    case.t.write()
                st, got = self.sim.in_proc(self.proc, lambda: case.trainer(
                    DistanceByDTW()).train().save())
                check(st == 'ok', 'train-failed', '{}: {!r}', case.text(), got)
                self.solvers.add(case)
                self.trained.add(case)

    def op_scramble(self):
        c = self.sim.c
        how = c.draw(3)
        if how == 0:
            seed = c.seed() % 2 ** 32
            self.sim.in_proc(self.proc, lambda: np.random.seed(seed))
        elif how == 1:
            n = c.draw(100)
            self.sim.in_proc(self.proc, lambda: np.random.rand(n))
        else:
            random.seed(c.seed())
            random.random()
        self.sim.probe('scrambled')

    def paths(self, r):
        md = r.suite.t.metadata()
        if r.criterion == 'min_distance':
            name = '{}_dist_medoid__{!r}_count{}_seed{}.csv'
            args = ()
        else:
            name = '{}_medoid_min_pred_error__{!r}__tp{}__{}__{!r}_count{}_seed{}.csv'
            args = r.model.parameters(), r.test_len, r.error
        home = r.suite.make().csv_dir('outputs', md, DistanceByDTW())
        return tuple('{}/{}'.format(home, name.format(part, *args, r.suite.make(), r.count,
                                                      r.seed))
                     for part in ('random_point', 'hist'))

    def generate(self, r, threshold, measure):
        TrainDataWithRandomPoints(r.suite.t.metadata(), measure).evaluate_score_of_random_points(
            clustering_suite=r.suite.make(), count=r.count, random_seed=r.seed,
            criterion=r.criterion, threshold=threshold, output_home='outputs',
            model_params=r.model.parameters(), test_len=r.test_len, error_type=r.error)

    def op_generate(self):
        sim, c = self.sim, self.sim.c
        r = c.pick(self.requests)
        threshold = c.pick([0, 0, 1, 2, 5])
        measure = self.new_measure()
        whole = c.chance(0.3)
        medoids = r.suite.make().medoid_series_csv_filepath('outputs', r.suite.t.metadata(),
                                                            DistanceByDTW())
        for path in self.paths(r) + (medoids,) * whole:
            self.files.pop(path, None)
        if whole:
            argv = [r.suite.t.key, r.suite.name, r.suite.ident, r.criterion, '--random', r.count]
            for name, value, default in (
                    ('--random-seed', r.seed, 0), ('--threshold', threshold, 0),
                    ('--tp', r.test_len, 8), ('--error', r.error, 'sMAPE'),
                    ('--auto-arima', [n for n, m in self.models.items() if m is r.model][0],
                     'simple')):
                if value != default or c.chance(0.5):
                    argv += [name, value]
            fn = self.program(command(extraction.processRequest, argv))
        else:
            fn = lambda: self.generate(r, threshold, measure)       # noqa
        st, got, failed = self.attempt(('generate', r.text(), threshold, whole), fn)
        self.check_files()
        if st == 'ok':
            if whole:
                sim.probe('program')
                self.check_medoids(r.suite, medoids)
            self.judge(r, threshold)
        elif st == 'err' and not failed:
            self.excuse(r, threshold, got)

    def excuse(self, r, threshold, err):
        sim = self.sim
        t, available = r.suite.t, r.suite.available()
        if not t.intact:
            sim.probe('no_distances')
        elif available is None or len({o for o, _ in available}) < len(r.suite.parts):
            sim.probe('no_suite')
        elif r.count > t.n - len(set(available.values())):
            sim.probe('too_many')
            if t.n == len(set(available.values())):
                sim.probe('nothing_left')
        elif r.case and not all(case in self.solvers for case in r.case):
            sim.probe('no_solver')
        elif threshold and (len(available) * threshold < r.count or
                            r.case and threshold < r.count):
            check(isinstance(err, ValueError), 'failed', '{} threshold {}: {!r}', r.text(),
                  threshold, err)
            sim.probe('exhausted')
        else:
            fail('failed', '{} threshold {}: {!r}', r.text(), threshold, err)

    def check_files(self):
        for path, text in self.files.items():
            check(self.sim.fs.read(path) == text, 'other-file-changed', '{}', path)

    def scores(self, r, point, available):
        '''label -> distance, or error'''
        t = r.suite.t
        i, j = point
        out = {}
        for (o, a), (x, y) in available.items():
            if r.case is None:
                out[o, a] = t.distances[i * t.y + j, (x - t.rect.x1) * t.y + y - t.rect.y1]
                continue
            case = [k for k in r.case if k.clustering is o][0]
            out[o, a] = case.error_at(i, j) if int(case.labels[i, j]) == a else np.inf
        return out

    def head(self, r, rows):
        md = r.suite.parts[0].metadata()
        head = ['region_id'] + list(md.as_dict()) + ['cluster_index', 'medoid_x', 'medoid_y'] + [
            's{}'.format(i) for i in range(r.suite.t.used.shape[0])]
        check(rows and rows[0] == head, 'header', '{}: {}', r.text(), rows and rows[0])

    def read_label(self, r, row, available):
        '''(label, series) of a row'''
        n = len(r.suite.parts[0].metadata().as_dict())
        what = [str(v) for v in row[1:1 + n]]
        check(row[0] == repr(r.suite.t.metadata()), 'region', '{}: {}', r.text(), row[0])
        found = [o for o in r.suite.parts
                 if [str(v) for v in o.metadata().as_dict().values()] == what]
        check(len(found) == 1, 'label', '{}: {}', r.text(), row)
        label = found[0], int(row[1 + n])
        check(label in available and
              (int(row[2 + n]), int(row[3 + n])) == available[label], 'label', '{}: {} of {}',
              r.text(), row[:4 + n], {(o.text(), a): m for (o, a), m in available.items()})
        return label, tuple(row[4 + n:])

    def judge(self, r, threshold):
        sim = self.sim
        t, available = r.suite.t, r.suite.available()
        check(available is not None, 'bad-suite-accepted', '{}', r.text())
        if len({o for o, _ in available}) < len(r.suite.parts):
            sim.probe('cut_suite')
        paths = self.paths(r)
        rows = solvers.read_rows(sim, paths[0])
        self.head(r, rows)
        check(len(rows) == r.count + 1, 'rows', '{}: {} rows', r.text(), len(rows) - 1)
        taken = collections.Counter()
        seen = set()
        order = []
        medoids = {(x - t.rect.x1, y - t.rect.y1) for x, y in available.values()}
        for row in rows[1:]:
            label, series = self.read_label(r, row, available)
            points = self.texts.get((t, series))
            check(points, 'series', '{}: no point has the series {}', r.text(), series)
            if len(points) > 1:
                return
            point = points[0]
            check(point not in seen, 'not-distinct', '{}: {} again', r.text(), point)
            check(point not in medoids, 'medoid-sampled', '{}: {} is a medoid', r.text(), point)
            seen.add(point)
            scores = self.scores(r, point, available)
            for k in scores:
                if threshold and taken[k] >= threshold:
                    scores[k] = np.inf
            best = min(scores.values())
            check(scores[label] <= best + 1e-9 * (1 + abs(best)), 'not-the-best',
                  '{} threshold {}: {} is labelled {} {} of {}', r.text(), threshold, point,
                  label[0].text(), label[1],
                  {'{} {}'.format(o.text(), a): v for (o, a), v in scores.items()})
            check(np.isfinite(best), 'above-threshold', '{} threshold {}: {}', r.text(),
                  threshold, point)
            taken[label] += 1
            order.append(point)
        hist = solvers.read_rows(sim, paths[1])
        check(hist and hist[0] == ['clustering_repr', 'cluster_index', 'count'], 'histogram',
              '{}: {}', r.text(), hist and hist[:1])
        want = {(repr(o.metadata()), str(a)): str(n) for (o, a), n in taken.items()}
        check(len(hist) == len(want) + 1 and {(h[0], h[1]): h[2] for h in hist[1:]} == want,
              'histogram', '{}: {} expected {}', r.text(), hist[1:], want)
        text = [sim.fs.read(p) for p in paths]
        suite = sim.fs.read(r.suite.path)
        if (r, suite) in {k[:2] for k in self.known}:
            sim.probe('repeated')
            sim.nontrivial = True
        if [k for k in self.known if k[:2] == (r, suite) and k[2] != threshold]:
            sim.probe('other_threshold')
        old = self.known.setdefault((r, suite, threshold), text)
        check(old == text, 'not-reproducible', '{} threshold {}', r.text(), threshold)
        old = self.points.setdefault((suite, r.suite, r.count, r.seed), order)
        check(old == order, 'other-points', '{} threshold {}: {} and {}', r.text(), threshold,
              old, order)
        for p, v in zip(paths, text):
            self.files[p] = v
        sim.probe(r.criterion)
        if threshold:
            sim.probe('threshold')
        if r.count == t.n - len(medoids):
            sim.probe('all_points')
        if t.rect.x1 or t.rect.y1:
            sim.probe('offset')

    def check_medoids(self, s, path):
        rows = solvers.read_rows(self.sim, path)
        available = s.available()
        r = Request(s, 0, 0, None)
        self.head(r, rows)
        check(len(rows) == len(available) + 1, 'medoid-rows', '{}: {} of {}', path, len(rows) - 1,
              len(available))
        seen = set()
        for row in rows[1:]:
            label, series = self.read_label(r, row, available)
            x, y = available[label]
            i, j = x - s.t.rect.x1, y - s.t.rect.y1
            check(label not in seen, 'medoid-rows', '{}: {} again', path, label)
            seen.add(label)
            check((i, j) in self.texts.get((s.t, series), []), 'medoid-series', '{}: {}', path,
                  row)
        self.files[path] = self.sim.fs.read(path)
        self.sim.probe('medoids')

    def op_medoids(self):
        s = self.sim.c.pick(self.suites)
        path = s.make().medoid_series_csv_filepath('outputs', s.t.metadata(), DistanceByDTW())
        self.files.pop(path, None)
        st, got, failed = self.attempt(('medoids', s.text()), lambda: MedoidSeriesFormatter(
            s.t.metadata(), DistanceByDTW(), s.make()).produce_csv('outputs'))
        self.check_files()
        if st == 'ok':
            self.check_medoids(s, path)
        elif st == 'err' and not failed:
            available = s.available()
            check(available is None or len(available) < sum(o.k for o in s.parts), 'failed',
                  '{}: {!r}', s.text(), got)

    def op_damage(self):
        sim, c = self.sim, self.sim.c
        files = [s.path for s in self.suites] * 3 + [t.metadata().distances_filename
                                                     for t in self.targets]
        files += [f for f in sim.fs.files() if f.startswith('pickle/')]
        files = [f for f in files if f in sim.fs.files()]
        if not files:
            return
        f = c.pick(files)
        if c.chance(0.3):
            sim.fs.delete(f)
            sim.probe('deleted')
        else:
            sim.fs.damage(f)
            sim.probe('damaged')
        if f.startswith('pickle/'):
            self.solvers.clear()
        for t in self.targets:
            if t.metadata().distances_filename == f:
                t.intact = False
        self.history.append(('damage', f))

    def op_other_result(self):
        '''The suite has another result from now on'''
        sim, c = self.sim, self.sim.c
        s = c.pick(self.suites)
        if s.path not in sim.fs.files() or not s.available():
            return
        lines = sim.fs.read(s.path).decode('utf-8').splitlines(keepends=True)
        for n, line in enumerate(lines):
            medoids = re.findall(r'\(\d+,\d+\) ', line)
            if len(medoids) < 2 or c.chance(0.3):
                continue
            at = line.index(medoids[0])
            i = c.int(1, len(medoids) - 1)
            lines[n] = line[:at] + ''.join(medoids[i:] + medoids[:i]) + \
                line[at + len(''.join(medoids)):]
            sim.probe('other_result')
        with sim.fs.quiet(), open(s.path, 'wb') as f:
            f.write(''.join(lines).encode('utf-8'))
        self.history.append(('other result', s.text()))

    def op_repair(self):
        for t in self.targets:
            if not t.intact:
                t.write()
        for s in self.suites:
            if s.available() is None or len(s.available()) < sum(o.k for o in s.parts):
                self.write_suite(s)
        if self.sim.c.chance(0.5):
            self.op_solvers()

    def op_threads(self):
        '''Several threads of one process, or several processes'''
        sim, c = self.sim, self.sim.c
        self.op_repair()
        threads = c.chance(0.6)
        jobs, what = [], []
        for i in range(c.int(2, 3)):
            r = c.pick(self.requests)
            threshold = c.pick([0, 0, 2])
            if self.paths(r) in [self.paths(o) for o, _ in what]:
                continue
            measure = DistanceByDTW()
            proc = self.proc if threads else sim.new_proc('c{}'.format(i))
            jobs.append((proc, lambda r=r, threshold=threshold, measure=measure:
                         self.generate(r, threshold, measure)))
            what.append((r, threshold))
            for path in self.paths(r):
                self.files.pop(path, None)
        if not threads:
            sim.fs.split_writes = True
            sim.fs.arm(sim.fs.draw_plan(['crash_write', 'crash_write', 'enospc', 'eio_write'], 12,
                                        0.4))
        outs = sim.concurrently(jobs, preempt=c.pick([2, 6, 20]))
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('threads' if threads else 'processes')
        sim.nontrivial = True
        for (r, threshold), (st, got) in zip(what, outs):
            self.history.append(('concurrent', r.text(), threshold, threads, st))
            if st == 'ok':
                self.judge(r, threshold)
            elif st == 'err' and not failed:
                self.excuse(r, threshold, got)
        self.check_files()


OPS = [Run.op_generate] * 7 + [Run.op_damage, Run.op_repair, Run.op_repair, Run.op_suite,
                               Run.op_scramble, Run.op_scramble, Run.op_medoids, Run.op_threads,
                               Run.op_other_result]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    if not run.requests:
        return
    if c.chance(0.9):
        for s in run.suites:
            run.write_suite(s)
    if c.chance(0.8):
        run.op_solvers()
    for _ in range(c.int(2, 9)):
        c.pick(OPS)(run)
    # in the end, without faults, the same data once more
    if any(st == 'err' for *_, st in run.history):
        sim.probe('after_failure')
    run.restart()
    run.op_repair()
    run.op_solvers()
    for r in run.requests:
        run.op_scramble()
        for threshold in (0, c.pick([1, 2, 5])):
            st, got = sim.in_proc(run.proc, lambda: run.generate(r, threshold, DistanceByDTW()))
            if st == 'ok':
                run.judge(r, threshold)
            else:
                run.excuse(r, threshold, got)
    describe(sim, requests=[r.text() for r in run.requests], history=run.history)
    note_state(sim, run.history, sim.fault_log)
