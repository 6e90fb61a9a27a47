'''P21: a program run from the command line produces the results of its arguments.'''
import contextlib
import io
import os
import re

import numpy as np

import experiments.arima.forecast as arima_forecast
import experiments.arima.training_error_analysis as arima_training_error
import experiments.auto_arima.distance_errors as distance_errors
import experiments.auto_arima.error_between_medoids as error_between_medoids
import experiments.auto_arima.solver as auto_solver
import experiments.auto_arima.solver_each as auto_solver_each
import experiments.auto_arima.training_error_analysis as auto_training_error
import experiments.baseline.solver_knn_each as knn_solver_each
import experiments.baseline.solver_knn_medoids as knn_solver
import experiments.baseline.solver_mean_past as mean_solver
import experiments.clustering.find_elbows as find_elbows
import experiments.clustering.medoid_distances as medoid_distances
import experiments.clustering.partition_analysis as partition_analysis
import experiments.region.distance as region_distance
from experiments.metadata.arima_clustering import ArimaWithClusters, AutoArimaCluster
from sim.estimators import Estimators
from spta.arima import ArimaPDQ
from spta.region import Point
from .common import check, command, fail, same, describe, note_state, tables
from . import p05, p12, p14, p20, solvers

ID = 'P21'
RUNS = {'quick': 1500, 'thorough': 30000}
RULE = ('one run = a history of programs (solvers trained and queried, models at each point, '
        'error analyses, distances, clusterings of a suite) with drawn arguments on shared '
        'datasets and stores, each in a new process, some with workers under a drawn schedule, '
        'with crashes, disk errors, exceptions at chosen lines and lost or damaged files; what '
        'is printed and every report is compared with an independent computation; non-trivial = '
        'a fault struck, or a program found files of another one')
STATES = 'distinct (programs in order with outcome, faults in order)'
REAL = ['experiments.* (programs, arguments)', 'spta.solver', 'spta.model', 'spta.arima',
        'spta.clustering', 'spta.kmedoids', 'spta.region', 'spta.distance', 'spta.util', 'numpy',
        'tslearn', 'argparse', 'csv']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'multiprocessing Pool/Array/Lock', 'estimators (statsmodels ARIMA, pmdarima auto_arima)',
        'tables of predefined regions, models and suites', 'dataset (synthetic values)']
PROBES = ['train', 'predict', 'each', 'training_error', 'distance_errors', 'between_medoids',
          'distances', 'forecast', 'elbows', 'analysis', 'medoid_distances', 'refused',
          'crashed', 'disk_error', 'line_error', 'deleted', 'damaged', 'parallel', 'failed_fit',
          'not_trained', 'no_distances', 'default_arguments', 'same_files', 'again',
          'known_centroid', 'searched_centroid', 'several_models', 'concurrent']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'crash', 'enospc', 'eio_write', 'eio_read', 'emfile', 'eacces',
          'short_write', 'short_read']


class Group:
    '''Points of a target whose models are compared'''

    def __init__(self, t, members, centroid):
        self.t, self.members, self.centroid = t, members, centroid

    def error(self, kind, f, q, test_len):
        s = self.t.data[:, q[0], q[1]]
        with np.errstate(all='ignore'):
            return float(solvers.ERRORS[kind](self.t.descaled(f, *q), s[-test_len:],
                                              s[:-test_len]))


class Costs(p14.Run):
    '''Figures of a clustering'''

    def __init__(self, sim):
        self.sim = sim


class Job:
    '''A program and what it has to do'''

    def __init__(self, program, entry, argv, t, text, pieces=(), printed=None, possible=True,
                 distances=True):
        self.program, self.entry, self.argv, self.t, self.text = program, entry, argv, t, text
        self.pieces = list(pieces)      # (key, whether a file is right)
        self.printed = printed          # judges what is printed
        self.possible, self.distances = possible, distances
        self.train = self.predict = self.saves = None
        self.others = set()             # keys of files that it may write all the same
        self.refused = False            # its arguments make no sense

    def keys(self):
        return {k for k, _ in self.pieces} | self.others


def dicts(sim, path):
    rows = solvers.read_rows(sim, path)
    if not rows or any(len(r) != len(rows[0]) for r in rows):
        return None
    return [dict(zip(rows[0], r)) for r in rows[1:]]


def is_near(text, value, step=0.0005):
    try:
        return solvers.near(text, value, step)
    except ValueError:
        return False


class Run:
    few_single = False

    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.costs = Costs(sim)
        self.datasets, self.targets = solvers.draw_targets(
            sim, c.int(1, 2), ((2, 2), (2, 3), (3, 2), (1, 4), (3, 3), (4, 1), (2, 5)), 18)
        self.est = sim.estimators = Estimators()
        smallest = min(t.n for t in self.targets)
        self.autos = {}
        for i in range(c.int(1, 2)):
            self.autos['a{}'.format(i)] = solvers.Model('auto', (
                c.draw(2), c.draw(2), c.int(2, 4), c.int(2, 4), c.pick([None, 0, 1])))
        self.arimas = {}
        for i in range(2):
            self.arimas['s{}'.format(i)] = [
                tuple(c.shuffle(range(3))[:c.pick([1, 1, 2])]) for _ in range(3)]
        pool = self.pool = {}
        self.suites = []
        for i, name in enumerate(['kmedoids', c.pick(['kmedoids', 'regular'])]):
            low = 2 if self.few_single and c.chance(0.9) else 1     # figures need two clusters
            ks = sorted(c.shuffle(range(low, min(smallest, 5) + 1))[:c.int(1, 4)])
            if name == 'regular':
                ks = sorted(c.shuffle([1, 2, 4][low - 1:])[:c.int(1, 2)])
            seeds = c.shuffle([0, 1, 2, 10])[:c.int(1, 2)]
            self.suites.append(p14.Suite(name, 'suite{}'.format(i if name == 'kmedoids' else 0),
                                         ks, seeds, 'lite', pool))
        self.failures = c.chance(0.25)
        if self.failures:
            self.draw_failures()
        for o in list(pool.values()):
            for t in self.targets:
                o.reference(sim, t)         # while the distances are there
        self.cases = []
        for _ in range(0 if self.failures else c.int(1, 3)):
            self.draw_case(smallest)
        self.known = {}
        for t in self.targets:
            if c.chance(0.3):
                self.known[t.key, 'DistanceByDTW'] = (c.draw(t.x), c.draw(t.y))
        self.trained = {}
        self.owner = {}             # path -> keys of the run that made it
        self.verified = {}          # path -> keys it is right for
        self.places = {}            # key -> path
        self.rights = {}            # key -> whether a file is right
        self.history = []
        self.touched = set()

    def draw_failures(self):
        c = self.sim.c
        for t in self.targets:
            for _ in range(c.int(1, t.n)):
                s = t.used[:, c.draw(t.x), c.draw(t.y)][:-8]
                exc = c.pick([ValueError, np.linalg.LinAlgError])
                if c.chance(0.3):
                    self.est.bad_search[p05.key_of(s)] = exc
                else:
                    self.est.bad_series[p05.key_of(s)] = exc
        self.sim.probe('failed_fit')

    def draw_case(self, smallest):
        c = self.sim.c
        for _ in range(8):
            if self.cases and c.chance(0.7):
                o = c.pick(self.cases)
                t, g, m, tp, e = o.t, o.clustering, o.model, o.test_len, o.error
            else:
                o = None
                t, g, m, tp, e = self.draw_parts(smallest)
            if o is not None:
                parts = self.draw_parts(smallest)
                how = c.draw(5)
                t, g, m, tp, e = [parts[i] if i == how else v
                                  for i, v in enumerate((t, g, m, tp, e))]
            if m.kind == 'knn' and m.longest(t.data.shape[0] - tp) < tp:
                continue
            if g.reference(self.sim, t) is None:
                continue
            case = solvers.Case(self.sim, t, g, m, tp, e)
            if case.text() not in [x.text() for x in self.cases]:
                self.cases.append(case)
                return

    def draw_parts(self, smallest):
        c = self.sim.c
        if self.pool and c.chance(0.6):
            g = c.pick(sorted(self.pool.values(), key=lambda o: o.text()))
        elif c.chance(0.3):
            g = solvers.Clustering('regular', c.pick([1, 2, 4]), {})
        else:
            g = solvers.Clustering('kmedoids', c.int(1, min(3, smallest)),
                                   {'random_seed': c.pick([0, 1, 1, 2]), 'mode': 'lite'})
        g = self.pool.setdefault(g.text(), g)
        kind = c.pick(['auto', 'mean', 'knn'])
        if kind == 'auto':
            m = self.autos[c.pick(sorted(self.autos))]
        elif kind == 'mean':
            m = solvers.Model('mean', c.pick([1, 3, 10, 10]))
        else:
            m = solvers.Model('knn', c.pick([1, 2, 3]))
        return c.pick(self.targets), g, m, c.pick([2, 3, 5, 8, 8]), c.pick(
            sorted(solvers.ERRORS) + ['sMAPE'])

    # --- expected
    def expected(self, t, members, centroid, kind, params, test_len):
        fc = {}
        for i, j in members:
            s = t.used[:-test_len, i, j]
            e = p05.expect(kind, params, s, self.est)
            fc[i, j] = p05.expected_forecast(e, test_len)
            if fc[i, j] is None:
                fc[i, j] = solvers.knn_forecast(s, params.k, test_len)
        return p20.Expected(Group(t, members, centroid), fc, test_len)

    def clusters(self, o, t):
        '''(members, medoid) of each cluster'''
        labels, medoids = o.reference(self.sim, t)
        return [([(i, j) for i in range(t.x) for j in range(t.y) if labels[i, j] == a], m)
                for a, m in enumerate(medoids)]

    def same_errors(self, row, exp, error, step=0.0005):
        '''The errors that a row has are right'''
        each, alle = exp.each(error), exp.all(error)
        good = [v for v in alle.values() if not np.isnan(v)]
        if 'error_each' in row and not is_near(row['error_each'], p20.rms(list(each.values())),
                                               step):
            return False
        if not is_near(row['error_medoid'], alle[exp.d.centroid], step):
            return False
        if not good:
            return True
        local = min(v for v in each.values() if not np.isnan(v))
        may = [alle[p] for p in each if each[p] <= local + 1e-9 * (1 + abs(local))]
        return any(is_near(row['error_min_local'], v, step) for v in may) and (
            'error_min' not in row or is_near(row['error_min'], min(good), step) and
            is_near(row['error_max'], max(good), step))

    # --- arguments
    def options(self, positional, **options):
        '''A command line; options that are the default may be left out'''
        c = self.sim.c
        out = list(positional)
        for name, (value, default) in options.items():
            if value == default and c.chance(0.5):
                self.sim.probe('default_arguments')
                continue
            name = ('-' if len(name) == 1 else '--') + name
            pair = [name, str(value)]
            out = pair + out if c.chance(0.4) else out + pair
        if c.chance(0.2):
            out += ['--log', c.pick(['WARN', 'INFO', 'DEBUG'])]
        return out

    def tables(self):
        return dict(
            predefined_regions=lambda: {t.key: t.metadata() for t in self.targets},
            predefined_auto_arima=lambda: {k: m.parameters() for k, m in self.autos.items()},
            predefined_arima_suites=lambda: {k: list(v) for k, v in self.arimas.items()},
            auto_arima_clustering_experiments=lambda: {
                '{}_{}'.format(a, i): AutoArimaCluster(a, s.name, s.identifier, 'dtw')
                for a in self.autos for i, s in enumerate(self.suites)},
            experiments_for_arima_with_clusters=lambda: {
                '{}_{}'.format(a, i): ArimaWithClusters(a, s.name, s.identifier, 'dtw')
                for a in self.arimas for i, s in enumerate(self.suites)},
            precalculated_centroids=lambda: {k: Point(*v) for k, v in self.known.items()},
            kmedoids_suites=lambda: {s.identifier: s.make(1) for s in self.suites
                                     if s.name == 'kmedoids'},
            regular_suites=lambda: {s.identifier: s.make(1) for s in self.suites
                                    if s.name == 'regular'})

    # --- programs
    def case_argv(self, case):
        g, m = case.clustering, case.model
        entry = {'auto': auto_solver, 'mean': mean_solver, 'knn': knn_solver}[m.kind]
        options = {'k': (g.k, None), 'error': (case.error, 'sMAPE'),
                   'tp' if m.kind == 'auto' else 'test': (case.test_len, 8)}
        if g.name == 'kmedoids':
            options['seed'] = (g.params['random_seed'], 1)
        args = [case.t.key]
        if m.kind == 'auto':
            args.append([a for a in sorted(self.autos) if self.autos[a] is m][0])
        args.append(g.name)
        if m.kind == 'knn':
            args.append(str(m.params))
        if m.kind == 'mean':
            options['past'] = (m.params, 10)
        return entry.processRequest, args, options

    def job_train(self):
        case = self.sim.c.pick(self.cases)
        entry, args, options = self.case_argv(case)
        job = Job('train', entry, ['train'] + self.options(args, **options), case.t, case.text())
        job.train = case
        return job

    def trained_key(self, case):
        return case.text()

    def job_predict(self):
        c = self.sim.c
        cases = [o for o in self.cases if self.trained.get(self.trained_key(o)) == 'yes']
        case = c.pick(cases if cases and c.chance(0.8) else self.cases)
        rect, n = case.draw_query(c)
        entry, args, options = self.case_argv(case)
        args = args + [str(v) for v in (rect.x1, rect.x2, rect.y1, rect.y2)]
        options['tf'] = (n, 0)
        key = ('predict', case.text(), tuple(rect), n)
        pieces = [
            (key + ('rows',), lambda path: p12.Run.rows_equal(self, path, case, rect, n)),
            (key + ('summary',), lambda path: p12.Run.summary_equal(self, path, case, rect))]
        job = Job('predict', entry, ['predict'] + self.options(args, **options), case.t,
                  '{} {} {}'.format(case.text(), tuple(rect), n), pieces,
                  lambda out: self.printed_rows(out, case.rows(rect, n), case.error))
        job.predict = case
        return job

    def printed_rows(self, out, rows, error_type):
        '''What is printed for each point'''
        blocks = [b for b in out.split('*' * 33) if 'Point:' in b]
        check(len(blocks) == len(rows), 'printed', '{} points printed, {} expected: {}',
              len(blocks), len(rows), out[-500:])
        for text, (coords, label, error, forecast, test) in zip(blocks, rows):
            m = re.search(r'Point: Point\(x=(-?\d+), y=(-?\d+)\)(?: \(cluster (\d+)\))?', text)
            check(m and (int(m[1]), int(m[2])) == coords, 'printed', '{}: {}', coords, text)
            check(label is None or m[3] == str(label), 'printed', 'cluster {}: {}', label, text)
            m = re.search(r'Error \((\w+)\): (\S+)', text)
            check(m and m[1] == error_type and is_near(m[2], error), 'printed', 'error {}: {}',
                  error, text)
            for word, series in (('Forecast', forecast), ('Test', test)):
                m = re.search(word + r'[^\[]*?:\s*(\[[^\]]*\])', text)
                check((m is not None) == (series is not None), 'printed', '{}: {}', word, text)
                if m:
                    check(solvers.series_equal(m[1], series), 'printed', '{} {}: {}', word,
                          series, text)

    def job_each(self):
        '''Own models at each point of a rectangle'''
        c = self.sim.c
        t = c.pick(self.targets)
        x1, y1 = c.draw(t.x), c.draw(t.y)
        x2, y2 = c.int(x1 + 1, t.x), c.int(y1 + 1, t.y)
        tf, error = c.pick([2, 3, 5, 8, 8]), c.pick(sorted(solvers.ERRORS) + ['sMAPE'])
        if c.chance(0.5):
            a = c.pick(sorted(self.autos))
            name, entry, arg = 'auto', auto_solver_each.call_parser, a
            params = self.autos[a].parameters()
            text = self.autos[a].text()
        else:
            k = c.int(1, 2)
            if solvers.Model('knn', k).longest(t.data.shape[0] - tf) < tf:
                tf = 2
            name, entry, arg = 'knn', knn_solver_each.call_parser, str(k)
            params = solvers.Model('knn', k).parameters()
            text = 'knn{}'.format(k)
        members = [(i, j) for i in range(x1, x2) for j in range(y1, y2)]
        exp = self.expected(t, members, None, name, params, tf)
        errors = exp.each(error)
        rows = [((i + t.rect.x1, j + t.rect.y1), None, errors[i, j],
                 t.descaled(exp.fc[i, j], i, j), t.data[-tf:, i, j]) for i, j in members]

        def rows_right(path):
            got = solvers.read_rows(self.sim, path)
            if not got or len(got) != len(rows) + 1 or \
                    got[0] != ['Point', 'error', 'forecast_series', 'test_series']:
                return False
            return all(len(g) == 4 and p12.point_of(g[0]) == coords and is_near(g[1], err) and
                       solvers.series_equal(g[2], f) and solvers.series_equal(g[3], test)
                       for g, (coords, _, err, f, test) in zip(got[1:], rows))

        def summary_right(path):
            got = dicts(self.sim, path)
            sq = [e * e for e in errors.values() if not np.isnan(e)]
            return bool(got) and len(got) == 1 and set(got[0]) == {'tp', 'mse'} and \
                got[0]['tp'] == str(tf) and is_near(got[0]['mse'],
                                                    np.mean(sq) if sq else np.nan)
        key = ('each', name, text, t.key, (x1, x2, y1, y2), tf, error)
        argv = self.options([t.key, arg] + [str(v) for v in (x1, x2, y1, y2)],
                            error=(error, 'sMAPE'), tf=(tf, 8))
        return Job('each', entry, argv, t, str(key), [(key + ('rows',), rows_right),
                                                      (key + ('summary',), summary_right)],
                   lambda out: self.printed_rows(out, rows, error), distances=False)

    def draw_suite(self, t):
        i = self.sim.c.draw(len(self.suites))
        s = self.suites[i]
        return i, s, all(o.k <= t.n and o.reference(self.sim, t) is not None for o in s.parts)

    def job_training_error(self):
        '''Errors of the models of each cluster'''
        c = self.sim.c
        t = c.pick(self.targets)
        i, s, possible = self.draw_suite(t)
        error = c.pick(sorted(solvers.ERRORS) + ['sMAPE'])
        auto = c.chance(0.5)
        name = c.pick(sorted(self.autos if auto else self.arimas))
        workers = c.pick([None, None, None, 1, 2, 3])
        if auto:
            models = [self.autos[name].parameters()]
        else:
            ps, ds, qs = self.arimas[name]
            models = [ArimaPDQ(p, d, q) for p in ps for d in ds for q in qs]
            if len(models) > 1:
                self.sim.probe('several_models')
        pieces = []
        for o in s.parts if possible else []:
            exps = [(a, m, self.expected(t, members, medoid, 'auto' if auto else 'arima', m, 8))
                    for a, (members, medoid) in enumerate(self.clusters(o, t)) for m in models]
            key = ('training_error', auto, name, t.key, o.text(), error)

            def right(path, exps=exps):
                got = dicts(self.sim, path)
                if got is None or len(got) != len(exps):
                    return False
                try:
                    return all(self.training_row(g, a, m, exp, error, t, auto)
                               for g, (a, m, exp) in zip(got, exps))
                except (KeyError, ValueError):
                    return False
            pieces.append((key, right))
        argv = self.options([t.key, '{}_{}'.format(name, i)], error=(error, 'sMAPE'))
        if workers:
            argv += ['--parallel', str(workers)]
            self.sim.probe('parallel')
            self.sim.worker_preempt = c.pick([0, 0, 3])
        entry = (auto_training_error if auto else arima_training_error).processRequest
        return Job('training_error', entry, argv, t, '{} {} {} {} {}'.format(
            name, t.key, s.text(), error, workers), pieces, possible=possible)

    def training_row(self, g, a, m, exp, error, t, auto):
        failed = sum(1 for f in exp.fc.values() if np.all(np.isnan(f)))
        if g['cluster'] != str(a) or g['size'] != str(len(exp.d.members)) or \
                g['failed'] != str(failed):
            return False
        if auto:
            medoid = exp.d.centroid
            e = p05.expect('auto', m, t.used[:-8, medoid[0], medoid[1]], self.est)
            if e is not None:
                found = [int(float(g[k])) for k in ('p_medoid', 'd_medoid', 'q_medoid')]
                aic = float(np.sum(e[2])) + 7.0 * e[1][0] + 3.0 * e[1][1] + e[1][2]
                if tuple(found) != e[1] or not is_near(g['aic_medoid'], aic):
                    return False
        elif (int(g['p']), int(g['d']), int(g['q'])) != tuple(m):
            return False
        return self.same_errors(g, exp, error)

    def job_distance_errors(self):
        '''Distances to the medoid and errors of its model'''
        c = self.sim.c
        t = c.pick(self.targets)
        i, s, possible = self.draw_suite(t)
        a = c.pick(sorted(self.autos))
        params = self.autos[a].parameters()
        error, flen = c.pick(sorted(solvers.ERRORS) + ['sMAPE']), c.pick([2, 4, 8, 8])
        pieces = []
        missing = False
        for o in s.parts if possible else []:
            for n, (members, medoid) in enumerate(self.clusters(o, t)):
                exp = self.expected(t, members, medoid, 'auto', params, flen)
                missing = missing or bool(np.all(np.isnan(exp.fc[medoid])))
                errors = exp.single(medoid, error)
                mi = medoid[0] * t.y + medoid[1]
                rows = [((p[0] + t.rect.x1, p[1] + t.rect.y1), t.distances[mi][p[0] * t.y + p[1]],
                         errors[p]) for p in members]

                def right(path, rows=rows):
                    got = solvers.read_rows(self.sim, path)
                    return bool(got) and len(got) == len(rows) + 1 and all(
                        len(g) == 3 and p12.point_of(g[0]) == coords and is_near(g[1], d) and
                        is_near(g[2], e) for g, (coords, d, e) in zip(got[1:], rows))
                pieces.append((('distance_errors', self.autos[a].text(), t.key, o.text(), n,
                                error), right))
        argv = self.options([t.key, '{}_{}'.format(a, i)], error=(error, 'sMAPE'),
                            flen=(flen, 8))
        return Job('distance_errors', distance_errors.processRequest, argv, t,
                   '{} {} {} {} {}'.format(a, t.key, s.text(), error, flen), pieces,
                   possible=possible and not missing)

    def job_between_medoids(self):
        '''Errors of the model of each medoid at the other ones'''
        c = self.sim.c
        t = c.pick(self.targets)
        i, s, possible = self.draw_suite(t)
        a = c.pick(sorted(self.autos))
        params = self.autos[a].parameters()
        error, flen = c.pick(sorted(solvers.ERRORS) + ['sMAPE']), c.pick([2, 4, 8, 8])
        pieces = []
        for o in s.parts if possible else []:
            medoids = o.reference(self.sim, t)[1]
            exp = self.expected(t, medoids, None, 'auto', params, flen)
            want = [[exp.single(m, error)[q] for q in medoids] for m in medoids]

            def right(path, want=want):
                got = solvers.read_rows(self.sim, path)
                n = len(want)
                return bool(got) and len(got) == n + 1 and got[0][1:] == [
                    str(v) for v in range(n)] and all(
                    len(g) == n + 1 and g[0] == str(r) and all(
                        is_near(v, w) for v, w in zip(g[1:], want[r]))
                    for r, g in enumerate(got[1:]))
            pieces.append((('between_medoids', self.autos[a].text(), t.key, o.text(), error),
                           right))
        argv = self.options([t.key, '{}_{}'.format(a, i)], error=(error, 'sMAPE'),
                            flen=(flen, 8))
        return Job('between_medoids', error_between_medoids.processRequest, argv, t,
                   '{} {} {} {} {}'.format(a, t.key, s.text(), error, flen), pieces,
                   possible=possible)

    def job_distances(self):
        '''The distance matrix of a region'''
        c = self.sim.c
        t = c.pick(self.targets)
        argv = self.options([t.key, 'dtw'])
        workers = c.pick([None, 1, 2, 3, 5])
        if workers:
            argv += ['--parallel', str(workers)]
            self.sim.worker_preempt = c.pick([0, 0, 3])
        job = Job('distances', region_distance.processRequest, argv, t,
                  '{} {}'.format(t.key, workers), distances=False)
        job.saves = t
        return job

    def job_forecast(self):
        '''Errors of ARIMA models in a whole region'''
        c = self.sim.c
        t = c.pick(self.targets)
        name = c.pick(sorted(self.arimas))
        ps, ds, qs = self.arimas[name]
        models = [ArimaPDQ(p, d, q) for p in ps for d in ds for q in qs]
        members = [(i, j) for i in range(t.x) for j in range(t.y)]
        known = self.known.get((t.key, 'DistanceByDTW'))
        if known is not None:
            self.sim.probe('known_centroid')
            centroids = [known]
        else:
            self.sim.probe('searched_centroid')
            sums = t.distances.sum(axis=1)
            centroids = [members[i] for i in range(t.n)
                         if sums[i] <= sums.min() + 1e-9 * (1 + sums.min())]
        argv = self.options([t.key, name])
        workers = c.pick([None, None, 2])
        if workers:
            argv += ['--parallel', str(workers)]
            self.sim.worker_preempt = c.pick([0, 0, 3])

        def printed(out):
            lines = re.findall(r'p=(\d+), d=(\d+), q=(\d+)\).*each=(\S+), min_local=(\S+), '
                               r'centroid=(\S+)', out)
            check([tuple(int(v) for v in a[:3]) for a in lines] == [tuple(m) for m in models],
                  'printed-models', '{} expected {}', out, models)
            for m, (_, _, _, each, local, centroid) in zip(models, lines):
                row = dict(error_each=each, error_min_local=local, error_medoid=centroid)
                check(any(self.same_errors(row, self.expected(t, members, q, 'arima', m, 8),
                                           'MASE', 0.005) for q in centroids),
                      'printed-errors', '{} at {}: {}', m, centroids, out)
        return Job('forecast', arima_forecast.processRequest, argv, t,
                   '{} {} {}'.format(t.key, name, workers), printed=printed, distances=False)

    def job_elbows(self):
        c = self.sim.c
        t = c.pick(self.targets)
        s = self.suites[0]
        possible = all(o.k <= t.n for o in s.parts) and len(s.ks) >= 3

        def printed(out):
            found = re.findall(r'\*+ Seed (\d+) \*+\s+Values of k: (\[.*?\])\s+Elbow found for '
                               r'k=(.*)', out)
            check(sorted(int(f[0]) for f in found) == sorted(s.seeds), 'elbow-per-seed', '{}', out)
            for seed, ks, elbow in found:
                check(ks == str(sorted(s.ks)), 'elbow-ks', '{} expected {}', out, s.ks)
                values = self.costs.elbow_values(s, t, int(seed))
                best = max(values.values())
                tiny = 1e-9 * (1 + max(self.costs.cost(o, t) for o in s.parts))
                k = int(re.search(r'(?:k=|k|^)(\d+)', elbow.strip())[1])
                check(k in values and values[k] >= best - tiny, 'other-elbow',
                      'seed {}: {} of {}', seed, elbow, values)
        return Job('elbows', find_elbows.call_parser, self.options([t.key, s.identifier]), t,
                   '{} {}'.format(t.key, s.text()), printed=printed, possible=possible)

    def job_analysis(self):
        '''Costs and medoids of a suite'''
        t = self.sim.c.pick(self.targets)
        _, s, possible = self.draw_suite(t)

        def right(path):
            rows = solvers.read_rows(self.sim, path)
            if not rows or len(rows) != len(s.parts) + 1:
                return False
            for row, o in zip(rows[1:], s.parts):
                if len(row) != 3 or row[0] != repr(o.metadata()):
                    return False
                total = sum(float(np.sum(d)) for d in self.costs.distances_of(o, t))
                found = [tuple(int(v) for v in p)
                         for p in re.findall(r'\((\d+),(\d+)\)', row[2])]
                if not is_near(row[1], total) or found != self.costs.absolute(o, t):
                    return False
            return True
        return Job('analysis', partition_analysis.processRequest,
                   self.options([t.key, s.name, s.identifier]), t,
                   '{} {}'.format(t.key, s.text()),
                   [(('analysis', t.key, s.name, s.identifier), right)] if possible else [],
                   possible=possible)

    def job_medoid_distances(self):
        t = self.sim.c.pick(self.targets)
        _, s, possible = self.draw_suite(t)
        pieces = []
        for o in s.parts if possible else []:
            at = [x * t.y + y for x, y in o.reference(self.sim, t)[1]]

            def right(path, at=at, k=o.k):
                rows = solvers.read_rows(self.sim, path)
                return bool(rows) and len(rows) == k + 1 and all(
                    len(r) == k + 1 and r[0] == str(i) and all(
                        is_near(v, t.distances[at[i], at[j]]) for j, v in enumerate(r[1:]))
                    for i, r in enumerate(rows[1:]))
            pieces.append((('medoid_distances', t.key, o.text()), right))
        return Job('medoid_distances', medoid_distances.processRequest,
                   self.options([t.key, s.name, s.identifier]), t,
                   '{} {}'.format(t.key, s.text()), pieces, possible=possible)

    # --- running them
    def reports(self):
        return {f: self.sim.fs.read(f) for f in self.sim.fs.files()
                if f.startswith('outputs/') and f.endswith('.csv')}

    def body(self, job, out, line=None):
        def fn():
            np.set_printoptions(**p12.DEFAULT_PRINT)
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(io.StringIO()), \
                    tables(self.sim, **self.tables()):
                if line is not None:
                    self.sim.raise_at_line(*line)
                try:
                    command(job.entry, job.argv)()
                finally:
                    self.sim.clear_line_fault()
        return fn

    def run(self, job, faults=True):
        sim, c = self.sim, self.sim.c
        sim.probe(job.program)
        before = self.reports()
        pickles = [f for f in sim.fs.files() if f.startswith('pickle/')]
        plan = sim.fs.draw_plan(FAULTS, 14, 0.4) if faults else None
        line = None
        if faults and plan is None and c.chance(0.15):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            line = (c.small(0, 3000), exc)
        proc = sim.restart('p')
        out = io.StringIO()
        sim.fs.arm(plan)
        st, got = sim.in_proc(proc, self.body(job, out, line))
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        np.set_printoptions(**p12.DEFAULT_PRINT)
        if failed:
            sim.probe('disk_error')
        if line is not None and getattr(line[1], 'injected', False):
            sim.probe('line_error')
            failed = True
        if st == 'crash':
            sim.probe('crashed')
        self.history.append((job.program, job.text, st))
        if any(t[0] == job.t.key and t[1] != job.program for t in self.touched) and \
                st == 'ok' and pickles:
            sim.probe('same_files')
            sim.nontrivial = True
        self.touched.add((job.t.key, job.program))
        self.after(job, before)
        if st == 'ok':
            self.done(job, out.getvalue())
        else:
            self.not_done(job, st, got, failed)

    def after(self, job, before):
        '''Reports of others are as they were'''
        keys = job.keys()
        self.rights.update(job.pieces)
        now = self.reports()
        for path, data in now.items():
            if before.get(path) == data:
                continue
            of = self.verified.get(path)
            check(of is None or of & keys, 'report-changed', '{} of {} after {} {}: {}', path,
                  of, job.program, job.text, (data or b'')[:500])
            if path not in self.owner or path not in before:
                self.owner[path] = set(keys)
        for path in before:
            if path in self.verified and path not in now:
                fail('report-lost', '{} after {} {}', path, job.program, job.text)

    def done(self, job, out):
        sim = self.sim
        what = '{} {}'.format(job.program, job.argv)
        check(not job.refused, 'not-refused', '{}', what)
        if job.printed is not None:
            job.printed(out)
        if job.train is not None:
            self.trained[self.trained_key(job.train)] = 'yes'
        if job.predict is not None and self.trained_key(job.predict) not in self.trained:
            fail('not-trained', '{} answered', what)
        if job.saves is not None:
            t = job.saves
            try:
                with sim.fs.quiet():
                    m = np.load(t.metadata().distances_filename)
            except (OSError, ValueError, EOFError) as e:
                fail('distances', '{} succeeded: {!r}', what, e)
            check(same(m, t.distances, 1e-9), 'distances', '{}: {} expected {}', what, m,
                  t.distances)
            t.write()       # to the last bit
        self.find_all(job, what)

    def find_all(self, job, what):
        '''Each piece is in a file of its own'''
        reports = sorted(self.reports())
        right_for = {}

        def candidates(i):
            key = job.pieces[i][0]
            known = self.places.get(key)
            if known in reports:
                yield known
            for p in reports:
                if p != known and (p not in self.verified or key in self.verified[p]) and \
                        (p not in self.owner or key in self.owner[p]):
                    yield p

        def is_right(i, path):
            if (i, path) not in right_for:
                right_for[i, path] = bool(job.pieces[i][1](path))
            return right_for[i, path]
        of = {}             # path -> piece

        def place(i, seen):
            later = []
            for path in candidates(i):
                if path in seen or not is_right(i, path):
                    continue
                if path not in of:
                    of[path] = i
                    return True
                later.append(path)
            for path in later:
                if path not in seen:
                    seen.add(path)
                    if place(of[path], seen):
                        of[path] = i
                        return True
            return False
        for i, (key, _) in enumerate(job.pieces):
            if not place(i, set()):
                paths = [self.places[key]] if key in self.places else list(candidates(i))
                texts = [(p, (self.sim.fs.read(p) or b'').decode('utf-8', 'replace')[:400])
                         for p in paths[:3]]
                fail('no-report', '{}: {} is not in {}', what, key, texts)
        for path, i in sorted(of.items(), key=lambda pair: pair[1]):
            key = job.pieces[i][0]      # the file of another one may have the same content
            if self.places.get(key) == path:
                self.sim.probe('again')
            self.places[key] = path
            self.verified[path] = {key} | {k for k, other in self.rights.items()
                                           if k[0] == key[0] and k != key and other(path)}
            self.owner[path] = set(self.verified[path])

    def not_done(self, job, st, got, failed):
        sim = self.sim
        for key in job.keys():
            for path in [p for p, of in self.verified.items() if key in of]:
                del self.verified[path]
        if job.saves is not None:
            job.saves.intact = False
        if job.train is not None:
            o = job.train       # the models are those of other errors too
            for case in self.cases:
                if (case.t, case.clustering, case.model.text(), case.test_len) == (
                        o.t, o.clustering, o.model.text(), o.test_len) and (
                        case is o or self.trained_key(case) in self.trained):
                    self.trained[self.trained_key(case)] = 'maybe'
        if st == 'crash' or failed:
            return
        if not job.possible or not job.t.dataset.intact:
            return
        if job.distances and not job.t.intact:
            sim.probe('no_distances')
            return
        if job.predict is not None and \
                self.trained.get(self.trained_key(job.predict)) != 'yes':
            sim.probe('not_trained')
            return
        fail('failed', '{} {}: {} {!r} after {}', job.program, job.argv, st, got, self.history)

    # --- other operations
    def draw_job(self):
        c = self.sim.c
        jobs = [self.job_each, self.job_training_error, self.job_training_error,
                self.job_distance_errors, self.job_between_medoids, self.job_distances,
                self.job_forecast, self.job_elbows, self.job_analysis,
                self.job_medoid_distances]
        if self.cases:
            jobs += [self.job_train] * 4 + [self.job_predict] * 6
        return c.pick(jobs)()

    def op_run(self):
        if not self.history and self.cases and self.sim.c.chance(0.6):
            return self.run(self.job_train())
        self.last = self.draw_job()
        self.run(self.last)
        if self.sim.c.chance(0.15):
            self.run(self.last)

    def op_refused(self):
        '''Wrong arguments: nothing is done'''
        sim, c = self.sim, self.sim.c
        job = self.draw_job()
        if not job.argv:
            return
        words = [i for i, a in enumerate(job.argv) if a in (
            job.t.key, 'kmedoids', 'regular') or a in self.autos or a in self.arimas]
        how = c.draw(3)
        argv = list(job.argv)
        if how == 0 and words:
            argv[c.pick(words)] = 'unknown'
        elif how == 1:
            argv += ['--unknown', '1']
        else:
            argv += ['surplus']
        job.argv = argv
        before = {f: sim.fs.read(f) for f in sim.fs.files()}
        st, got = sim.in_proc(sim.restart('p'), self.body(job, io.StringIO()))
        check(st == 'err', 'not-refused', '{} {}: {}', job.program, argv, st)
        check(before == {f: sim.fs.read(f) for f in sim.fs.files()}, 'refused-but-done', '{} {}',
              job.program, argv)
        sim.probe('refused')

    def op_damage(self):
        sim, c = self.sim, self.sim.c
        files = [f for f in sim.fs.files() if f.startswith(('pickle/', 'outputs/'))]
        if c.chance(0.2):
            files = [t.metadata().distances_filename for t in self.targets if t.intact]
        if not files:
            return
        f = c.pick(sorted(files))
        if c.chance(0.5):
            sim.fs.delete(f)
            sim.probe('deleted')
        else:
            sim.fs.damage(f)
            sim.probe('damaged')
        self.verified.pop(f, None)
        if f.startswith('pickle/'):
            self.trained = {k: 'maybe' for k in self.trained}
        for t in self.targets:
            if t.metadata().distances_filename == f:
                t.intact = False
        self.history.append(('damage', f))

    def op_concurrent(self):
        '''Two programs at the same time, on other reports'''
        sim, c = self.sim, self.sim.c
        jobs = []
        for _ in range(2):
            job = self.draw_job()
            if job.program in ('each', 'predict', 'distances', 'forecast', 'save_region') or \
                    '--parallel' in job.argv or not job.possible:
                continue
            if job.train is not None and any(
                    o.train is not None and self.trained_key(o.train) ==
                    self.trained_key(job.train) for o in jobs):
                continue
            if any(o.keys() & job.keys() for o in jobs):
                continue
            jobs.append(job)
        if len(jobs) < 2:
            return
        for t in self.targets:
            if not t.intact:
                t.write()
        before = self.reports()
        tasks = [(sim.new_proc('c{}'.format(i)), command(job.entry, job.argv))
                 for i, job in enumerate(jobs)]
        sim.fs.split_writes = True
        sim.fs.arm(sim.fs.draw_plan(['crash_write', 'crash', 'enospc', 'eio_write'], 20, 0.3))
        with contextlib.redirect_stdout(io.StringIO()), tables(sim, **self.tables()):
            outs = sim.concurrently(tasks)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('concurrent')
        sim.nontrivial = True
        both = Job('concurrent', None, [j.argv for j in jobs], jobs[0].t,
                   ' and '.join(j.text for j in jobs), [p for j in jobs for p in j.pieces])
        self.after(both, before)
        for job, (st, got) in zip(jobs, outs):
            self.history.append(('concurrent', job.program, job.text, st))
            job.printed = None
            if st == 'ok':
                self.done(job, '')
            else:
                self.not_done(job, st, got, failed)


OPS = [Run.op_run] * 9 + [Run.op_refused, Run.op_damage, Run.op_concurrent]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    run.text_of = lambda path: sim.fs.read(path)
    for _ in range(c.int(2, 8)):
        c.pick(OPS)(run)
    # without faults
    for t in run.targets:
        if not t.intact:
            t.write()
    for case in run.cases[:2]:
        if run.trained.get(run.trained_key(case)) == 'maybe':
            run.cases = [case]
            run.run(run.job_train(), False)
            run.run(run.job_predict(), False)
    if getattr(run, 'last', None) is not None and run.last.program != 'predict':
        run.run(run.last, False)
    describe(sim, cases=[o.text() for o in run.cases], history=run.history)
    note_state(sim, run.history, sim.fault_log)
