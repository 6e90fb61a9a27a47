'''P16: predictions driven by a classifier use the labelled model in any history.'''
import json
import os

import numpy as np

import experiments.classifier.solver_dnn as solver_dnn
from sim import neural
from spta.classifier.dnn import ClassifierDNNParams
from spta.classifier.model import SolverFromClassifier
from spta.clustering.suite import ClusteringSuite
from spta.distance.dtw import DistanceByDTW
from spta.region import Point, Region
from .common import check, command, fail, same, short, describe, note_state, tables
from . import solvers
from .p12 import point_of

ID = 'P16'
RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('one run = queries on solvers driven by classifiers, over drawn rectangles, target '
        'regions, labels, models and errors, with solvers reused or made anew, files missing, '
        'torn or restored in between, crashes, disk errors, exceptions at chosen lines and '
        'concurrent training; each answer is compared with the forecast of the labelled medoid; '
        'non-trivial = a fault struck, or a solver was asked again')
STATES = 'distinct (operations in order with parameters and outcome, faults in order)'
REAL = ['spta.classifier.model', 'spta.classifier.dnn', 'spta.solver', 'spta.clustering',
        'spta.model', 'spta.arima', 'spta.region', 'experiments.classifier.solver_dnn', 'pandas',
        'sklearn (normalization)']
STUB = ['keras (a network that depends on its weights file and input)',
        'estimators (pmdarima, statsmodels)', 'file system (scratch directory behind a seam)',
        'process table, scheduler', 'tables of predefined regions, suites, models and classifiers']
PROBES = ['asked_again', 'new_solver', 'other_target', 'no_target', 'target_between', 'scaled',
          'mixed_labels', 'unknown_label', 'crashed', 'disk_error', 'line_error', 'deleted',
          'damaged', 'repaired', 'not_ready', 'after_failure', 'saved', 'other_home', 'program',
          'threads', 'processes', 'answered_while_damaged', 'offset', 'save_failed',
          'other_classifier']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'eio_read', 'eio_read', 'emfile', 'eacces', 'short_read']


class Classifier:
    def __init__(self, sim, i, window, labels):
        self.sim = sim
        self.name, self.window, self.labels = 'c{}'.format(i), window, labels
        self.weights = {'labels': len(labels), 'window': window, 'seed': sim.c.seed() % 2 ** 32}
        self.model_path = 'lstm/model_{}.h5'.format(self.name)
        self.labels_path = 'lstm/labels_{}.csv'.format(self.name)

    def params(self):
        return ClassifierDNNParams(self.name, self.model_path, self.labels_path, self.window)

    def write(self):
        lines = [',label'] + ['{},{}'.format(i, x) for i, x in enumerate(self.labels)]
        with self.sim.fs.quiet():
            os.makedirs('lstm', exist_ok=True)
            with open(self.model_path, 'w') as f:
                json.dump(self.weights, f)
            with open(self.labels_path, 'w') as f:
                f.write('\n'.join(lines) + '\n')

    def label_of(self, series):
        x = np.asarray(series, dtype=float)
        total = np.abs(x).sum()
        return self.labels[int(np.argmax(neural.scores(self.weights,
                                                       x / total if total else x)))]


class Setup:
    '''All parameters of a solver driven by a classifier'''

    def __init__(self, i, t, cases, suite, model, test_len, error, classifier):
        self.t, self.cases, self.suite, self.model = t, cases, suite, model
        self.test_len, self.error, self.classifier = test_len, error, classifier
        self.known = {}

    def text(self):
        return '{} {} {} tp{} {} {}'.format(self.t.key, self.suite, self.model.text(),
                                            self.test_len, self.error, self.classifier.name)

    def place(self):
        '''What decides the names of reports'''
        return self.t.key, self.suite, self.model.text(), self.test_len, self.error

    def make_suite(self):
        ks = sorted({o.clustering.k for o in self.cases.values()})
        seeds = sorted({o.clustering.params['random_seed'] for o in self.cases.values()})
        return ClusteringSuite(self.suite, 'kmedoids', k=ks, random_seed=seeds, mode='lite')

    def make(self):
        params = self.model.parameters()
        return SolverFromClassifier(
            region_metadata=self.t.metadata(), distance_measure=DistanceByDTW(),
            clustering_suite=self.make_suite(),
            model_trainer=self.model.trainer(params, self.t.x, self.t.y), model_params=params,
            classifier_params=self.classifier.params(), test_len=self.test_len,
            error_type=self.error)

    def labels(self, target, rect):
        n = target.used.shape[0]
        return [self.classifier.label_of(target.used[n - self.classifier.window:n, i, j])
                for i in range(rect.x1, rect.x2) for j in range(rect.y1, rect.y2)]

    def case(self, label):
        return self.cases.get(label.rsplit('-', 1)[0])

    def forecast(self, label, i, j):
        key = (label, i, j)
        if key not in self.known:
            case = self.case(label)
            mi, mj = case.medoids[int(label.split('-')[2])]
            whole = self.t.used[:, mi, mj]
            f = self.t.descaled(self.model.forecast(whole, case.cut(whole)[0], self.test_len,
                                                    True), i, j)
            training, test = case.cut(self.t.data[:, i, j])
            self.known[key] = f, float(solvers.ERRORS[self.error](f, test, training)), test
        return self.known[key]

    def rows(self, target, rect):
        labels = self.labels(target, rect)
        out = []
        points = [(i, j) for i in range(rect.x1, rect.x2) for j in range(rect.y1, rect.y2)]
        for (i, j), label in zip(points, labels):
            out.append(((i + self.t.rect.x1, j + self.t.rect.y1), label) +
                       self.forecast(label, i, j))
        return out


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(sim, c.int(1, 3))
        sim.estimators = solvers.Estimators()
        self.proc = sim.restart('p')
        t = self.targets[0]
        mode = 'lite'
        clusterings = {}
        for k in c.shuffle(range(1, min(t.n, 4) + 1))[:c.int(1, 2)]:
            for seed in c.shuffle(range(3))[:c.int(1, 2)]:
                clusterings['{}-{}'.format(k, seed)] = solvers.Clustering(
                    'kmedoids', k, {'random_seed': seed, 'mode': mode})
        self.clusterings = clusterings
        self.classifiers = []
        shortest = min(d.series_len for d in self.datasets)
        for i in range(c.int(1, 2)):
            labels = ['{}-{}'.format(name, a) for name, o in clusterings.items()
                      for a in range(o.k)]
            if c.chance(0.1):
                labels.append('{}-{}-0'.format(c.int(1, 3), 7))
            labels = c.shuffle(labels)
            if c.chance(0.3):
                labels = labels[:c.int(1, len(labels))]
            self.classifiers.append(Classifier(sim, i, c.int(2, min(12, shortest)), labels))
        self.setups = []
        for i in range(c.int(1, 2)):
            self.add_setup(i)
        self.trained = set()
        self.live = {}
        self.answered = set()
        self.reports = {}
        self.history = []
        self.intact = False
        self.results = []

    def add_setup(self, i):
        c = self.sim.c
        t = self.targets[0] if i == 0 or c.chance(0.5) else c.pick(self.targets)
        if self.setups and c.chance(0.6):
            o = self.setups[0]
            t, model, test_len, error, classifier = o.t, o.model, o.test_len, o.error, o.classifier
            how = c.draw(4)
            if how == 0:
                test_len = c.int(2, 5)
            elif how == 1:
                error = c.pick(sorted(solvers.ERRORS))
            elif how == 2:
                model = solvers.draw_model(c)
            else:
                classifier = c.pick(self.classifiers)
        else:
            model, test_len = solvers.draw_model(c), c.int(2, 5)
            error, classifier = c.pick(sorted(solvers.ERRORS)), c.pick(self.classifiers)
        if model.longest(t.data.shape[0] - test_len) < test_len:
            return
        if any(o.k > t.n for o in self.clusterings.values()):
            return
        cases = {name: solvers.Case(self.sim, t, o, model, test_len, error)
                 for name, o in self.clusterings.items()}
        setup = Setup(i, t, cases, 's{}'.format(c.draw(2)), model, test_len, error, classifier)
        if setup.text() not in [o.text() for o in self.setups]:
            self.setups.append(setup)

    # --- state
    def restart(self):
        self.proc = self.sim.restart('p')
        self.live.clear()

    def instance(self, s, fresh=False):
        '''A function that gives the solver (made in the process of the query)'''
        def body():
            if fresh or s not in self.live:
                self.live[s] = s.make()
            return self.live[s]
        return body

    def repair(self):
        for d in self.datasets:
            if not d.intact:
                d.write()
        for t in self.targets:
            if not t.intact:
                t.write()
        for o in self.classifiers:
            o.write()
        for s in self.setups:
            for case in s.cases.values():
                st, got = self.sim.in_proc(self.sim.new_proc('train'), lambda: case.trainer(
                    DistanceByDTW()).train().save())
                check(st == 'ok', 'train-failed', '{}: {!r}', case.text(), got)
                self.trained.add((s.text(), case))
        self.intact = True
        self.sim.probe('repaired')

    def attempt(self, fn, p=0.3, kinds=()):
        sim, c = self.sim, self.sim.c
        plan = sim.fs.draw_plan(FAULTS + list(kinds), 12, p)
        exc = None
        if plan is None and c.chance(0.12):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 900)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return fn()
            finally:
                sim.clear_line_fault()
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        if failed:
            sim.probe('disk_error')
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
            failed = True
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        return st, got, failed

    def draw_query(self, s):
        '''(target or None, rectangle)'''
        c = self.sim.c
        target = c.pick(self.targets) if c.chance(0.5) else None
        x, y = s.t.x, s.t.y
        if target is not None:
            x, y = min(x, target.x), min(y, target.y)
        x1, y1 = c.draw(x), c.draw(y)
        return target, Region(x1, c.int(x1 + 1, x), y1, c.int(y1 + 1, y))

    # --- judging
    def answerable(self, s, target, rect):
        return all(s.case(label) is not None for label in s.labels(target or s.t, rect))

    def judge(self, got, s, target, rect):
        sim = self.sim
        what = '{} of {} for {}'.format(s.text(), tuple(rect), target and target.key)
        labels = s.labels(target or s.t, rect)
        for label in labels:
            check(s.case(label) is not None, 'answered-without-solver', '{}: label {}', what, label)
        points = [(int(p.x), int(p.y)) for p in got]
        want = [(i, j) for i in range(rect.x2 - rect.x1) for j in range(rect.y2 - rect.y1)]
        check(points == want, 'points', '{}: {} expected {}', what, points, want)
        for (i, j), row in zip(want, s.rows(target or s.t, rect)):
            coords, label, forecast, error, test = row
            mine = got.result_tuple_for_point(Point(i, j))
            check(len(mine) == 5, 'columns', '{}: {}', what, mine)
            check(tuple(int(v) for v in mine[0]) == coords, 'coordinates', '{}: {} expected {}',
                  what, mine[0], coords)
            check(mine[1] == label, 'label', '{} at {}: {} expected {}', what, coords, mine[1],
                  label)
            check(same(mine[3], forecast, 1e-6), 'forecast', '{} at {} label {}: {} expected {}',
                  what, coords, label, short(mine[3]), short(forecast))
            check(solvers.near(mine[2], error) and
                  same(got.prediction_error_at(Point(i, j)), error, 1e-6), 'error',
                  '{} at {} label {}: {} expected {}', what, coords, label, mine[2], error)
            check(same(mine[4], test, 1e-6), 'test', '{} at {}: {} expected {}', what, coords,
                  short(mine[4]), short(test))
        text = got.lines_for_point(Point(0, 0))
        check(labels[0] in text[0], 'text', '{}: {} does not name {}', what, text[0], labels[0])
        summary = dict(zip(got.summary_header(), got.summary_tuple()))
        mse = np.mean([r[3] ** 2 for r in s.rows(target or s.t, rect)])
        check(str(summary.get('tp')) == str(s.test_len) and solvers.near(summary['mse'], mse),
              'summary', '{}: {} expected {}', what, summary, mse)
        if len(set(labels)) > 1:
            sim.probe('mixed_labels')
        if s.t.scaled:
            sim.probe('scaled')
        if s.t.rect.x1:
            sim.probe('offset')
        if target is None:
            sim.probe('no_target')
        elif target is not s.t:
            sim.probe('other_target')

    def outcome(self, s, target, rect, st, got, failed, what):
        sim = self.sim
        text = '{} of {} for {}'.format(s.text(), tuple(rect), target and target.key)
        self.history.append((what, text, st))
        if st == 'ok':
            self.judge(got, s, target, rect)
            if not self.intact:
                sim.probe('answered_while_damaged')
            return True
        if st == 'crash' or failed:
            return False
        check(st == 'err', 'no-answer', '{}: {}', text, st)
        if not self.answerable(s, target, rect):
            sim.probe('unknown_label')
        elif not self.intact:
            sim.probe('not_ready')
        else:
            fail('query-failed', '{}: {!r}', text, got)
        return False

    def query(self, s, target, rect, fresh, home, faults=0.3):
        def body():
            return self.instance(s, fresh)().predict(
                rect, tp=s.classifier.window,
                out_of_sample_region=None if target is None else target.metadata(),
                output_home=home)
        st, got, failed = self.attempt(body, faults)
        if self.outcome(s, target, rect, st, got, failed, 'query'):
            self.results.append((got, s, target, rect, home))
            return got
        return None

    # --- reports
    def rows_equal(self, path, s, target, rect):
        got = solvers.read_rows(self.sim, path)
        want = s.rows(target or s.t, rect)
        if not got or len(got) != len(want) + 1 or got[0] != [
                'Point', 'label', 'error', 'forecast_series', 'test_series']:
            return False
        for row, (coords, label, forecast, error, test) in zip(got[1:], want):
            try:
                if len(row) != 5 or point_of(row[0]) != coords or row[1] != label or \
                        not solvers.near(row[2], error):
                    return False
            except ValueError:
                return False
            if not solvers.series_equal(row[3], forecast) or \
                    not solvers.series_equal(row[4], test):
                return False
        return True

    def check_reports(self, besides=None):
        for key, (path, what) in self.reports.items():
            if key != besides:
                check(self.rows_equal(path, *what), 'report-changed', '{}', path)

    def op_save(self, result=None):
        sim, c = self.sim, self.sim.c
        if not self.results:
            return self.op_query()
        got, s, target, rect, home = result or c.pick(self.results)
        key = s.place(), tuple(rect), home
        what = '{} of {} for {} at {}'.format(s.text(), tuple(rect), target and target.key, home)
        st, err, failed = self.attempt(got.save_as_csv, 0.4, ['enospc', 'eio_write'])
        self.history.append(('save', what, st))
        self.check_reports(key)
        if st != 'ok':
            self.reports.pop(key, None)
            sim.probe('save_failed')
            check(failed or st == 'crash', 'save-failed', '{}: {!r}', what, err)
            return
        owned = {p for k, (p, _) in self.reports.items() if k != key}
        files = [f for f in sim.fs.files() if f.startswith(home + '/') and f.endswith('.csv') and
                 f not in owned]
        mine = [f for f in files if self.rows_equal(f, s, target, rect)]
        check(mine, 'no-report', '{}: {}', what,
              [(f, sim.fs.read(f).decode('utf-8', 'replace')[:300]) for f in files][:2])
        # of several equal ones, the one it had
        old = self.reports.get(key, ('',))[0]
        self.reports[key] = (old if old in mine else mine[0]), (s, target, rect)
        if len(mine) > 1:
            self.reports.pop(key)       # it is not known which one
        sim.probe('saved')
        if home != 'outputs':
            sim.probe('other_home')

    # --- operations
    def op_query(self):
        sim, c = self.sim, self.sim.c
        s = c.pick(self.setups)
        target, rect = self.draw_query(s)
        fresh = c.chance(0.15)
        if s in self.live and not fresh:
            sim.probe('asked_again')
            sim.nontrivial = True
            if [k for k in self.answered if k[0] is s and k[1] is not target]:
                sim.probe('target_between')
        else:
            sim.probe('new_solver')
        if [k for k in self.answered if k[0].t is s.t and k[0].classifier is not s.classifier]:
            sim.probe('other_classifier')
        home = 'outputs' if c.chance(0.7) else 'else/where'
        if self.query(s, target, rect, fresh, home) is not None:
            self.answered.add((s, target))
            if c.chance(0.3):
                self.op_save(self.results[-1])
        else:
            # once everything is there again, the same query succeeds
            sim.probe('after_failure')
            if c.chance(0.5):
                if not self.intact:
                    self.repair()
                self.query(s, target, rect, False, home, 0)

    def op_damage(self):
        sim, c = self.sim, self.sim.c
        kinds = [[f for f in sim.fs.files() if f.startswith(p)]
                 for p in ('pickle/', 'pickle/', 'lstm/', 'raw/')]
        files = c.pick(kinds)
        if not files:
            return
        for f in c.shuffle(files)[:c.pick([1, 1, 2, 100])]:
            if c.chance(0.4):
                sim.fs.delete(f)
                sim.probe('deleted')
            else:
                sim.fs.damage(f)
                sim.probe('damaged')
            for d in self.datasets:
                d.intact = d.intact and d.path != f
            for t in self.targets:
                t.intact = t.intact and t.metadata().distances_filename != f
            self.history.append(('damage', f))
        self.intact = False

    def op_repair(self):
        if not self.intact:
            self.repair()

    def op_restart(self):
        self.restart()

    def op_program(self):
        '''The program for queries'''
        sim, c = self.sim, self.sim.c
        s = c.pick([o for o in self.setups])
        target, rect = self.draw_query(s)
        argv = [s.t.key, 'x', s.classifier.name, rect.x1, rect.x2, rect.y1, rect.y2]
        for name, value, default in (('--out-of-sample', target and target.key, None),
                                     ('--error', s.error, 'sMAPE'), ('--tf', s.test_len, 8)):
            if value != default or value is not None and c.chance(0.5):
                argv += [name, value]
        if s.model.kind != 'auto':
            return
        from experiments.metadata.arima_clustering import AutoArimaCluster

        def body():
            with tables(self.sim,
                        predefined_regions=lambda: {t.key: t.metadata() for t in self.targets},
                        auto_arima_clustering_experiments=lambda: {
                            'x': AutoArimaCluster('m', 'kmedoids', s.suite, 'dtw')},
                        predefined_auto_arima=lambda: {'m': s.model.parameters()},
                        kmedoids_suites=lambda: {s.suite: s.make_suite()},
                        classifier_experiments=lambda: {o.name: o.params()
                                                        for o in self.classifiers}):
                return command(solver_dnn.call_parser, argv)()
        st, err, failed = self.attempt(body)
        key = s.place(), tuple(rect), 'outputs'
        self.check_reports(key)
        self.reports.pop(key, None)
        what = '{} of {} for {}'.format(s.text(), tuple(rect), target and target.key)
        self.history.append(('program', what, st))
        sim.probe('program')
        if st == 'ok':
            check(self.answerable(s, target, rect), 'answered-without-solver', '{}', what)
            files = [f for f in sim.fs.files() if f.startswith('outputs/') and f.endswith('.csv')]
            check([f for f in files if self.rows_equal(f, s, target, rect)], 'no-report',
                  'program {}: {}', what, files)
        elif st == 'err' and not failed and self.intact and self.answerable(s, target, rect):
            fail('program-failed', '{}: {!r}', what, err)

    def op_concurrent(self):
        '''Queries of several threads or processes, also while solvers are trained'''
        sim, c = self.sim, self.sim.c
        threads = c.chance(0.5)
        jobs, what = [], []
        for i in range(c.int(2, 3)):
            s = c.pick(self.setups)
            target, rect = self.draw_query(s)
            proc = self.proc if threads else sim.new_proc('c{}'.format(i))
            jobs.append((proc, lambda s=s, target=target, rect=rect: s.make().predict(
                rect, tp=s.classifier.window,
                out_of_sample_region=None if target is None else target.metadata())))
            what.append((s, target, rect))
        train = not threads and c.chance(0.6)
        if train:
            s = c.pick(self.setups)
            case = c.pick([s.cases[k] for k in sorted(s.cases)])
            jobs.append((sim.new_proc('t'), lambda: case.trainer(DistanceByDTW()).train().save()))
            sim.fs.split_writes = True
            sim.fs.arm(sim.fs.draw_plan(['crash_write', 'enospc', 'eio_write'], 20, 0.3))
        outs = sim.concurrently(jobs, preempt=c.pick([2, 6, 20]))
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        if train:
            # a reader may have found a half-written file
            self.intact, intact = False, self.intact
            failed = failed or outs[-1][0] != 'ok'
        sim.probe('threads' if threads else 'processes')
        sim.nontrivial = True
        for (s, target, rect), (st, got) in zip(what, outs):
            self.outcome(s, target, rect, st, got, failed, 'concurrent')
        if train and not failed:
            self.intact = intact


OPS = [Run.op_query] * 7 + [Run.op_damage, Run.op_repair, Run.op_restart, Run.op_save, Run.op_save,
                            Run.op_program, Run.op_program, Run.op_concurrent]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    if not run.setups:
        return
    if c.chance(0.9):
        run.repair()
    for _ in range(c.int(2, 10)):
        c.pick(OPS)(run)
    run.check_reports()
    run.op_repair()
    # in the end, without faults, from the solvers there are and from new ones
    for s in run.setups:
        for fresh in (False, True):
            target, rect = run.draw_query(s)
            run.query(s, target, rect, fresh, 'outputs', 0)
    run.check_reports()
    describe(sim, setups=[s.text() for s in run.setups], history=run.history)
    note_state(sim, run.history, sim.fault_log)
