'''Solvers on synthetic datasets and what they have to answer (P10, P11, P12, P16).'''
import csv
import io
import os

import numpy as np
from tslearn.metrics import dtw

from sim.estimators import Estimators, fake_forecast, fake_order
from spta.region import Point, Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.distance.dtw import DistanceByDTW
from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
from spta.arima import ArimaPDQ, AutoArimaParams
from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.knn import KNNParams, TrainerKNN
from spta.solver.metadata import SolverMetadataBuilder
from spta.solver.model import SolverPickler
from spta.solver.train import SolverTrainer
from .common import check, fail, same, short

DATASET = 'raw/SouthAmerica_{}_{}_{}spd.npy'


# ------------------------------------------------------------------------------- datasets

class Dataset:
    '''The values of all coordinates in a year, in the file that the code reads'''

    def __init__(self, sim, year, spd, series_len, shape):
        self.sim, self.year, self.spd, self.series_len = sim, year, spd, series_len
        rs = np.random.RandomState(sim.c.seed())
        t = np.arange(series_len).reshape(-1, 1, 1)
        self.data = rs.uniform(5, 40, (1,) + shape) + rs.uniform(1, 6, (1,) + shape) * np.sin(
            t / 2.0 + rs.uniform(0, 6, (1,) + shape)) + rs.normal(0, 0.4, (series_len,) + shape)
        if sim.c.chance(0.3):
            self.data -= 30
        self.path = DATASET.format(year, year, spd)
        self.write()

    def write(self):
        with self.sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
            np.save(self.path, self.data)
        self.intact = True


class Target:
    '''A region of a dataset'''

    def __init__(self, sim, name, dataset, region, scaled):
        self.sim, self.dataset, self.rect, self.scaled = sim, dataset, region, scaled
        self.x, self.y = region.x2 - region.x1, region.y2 - region.y1
        self.n = self.x * self.y
        self.name = name
        self.key = '{}-{}-{}{}'.format(name, dataset.year, dataset.spd, 's' if scaled else '')
        self.data = dataset.data[:, region.x1:region.x2, region.y1:region.y2]
        self.low, self.high = self.data.min(axis=0), self.data.max(axis=0)
        self.used = (self.data - self.low) / (self.high - self.low) if scaled else self.data
        st, region = sim.in_proc(sim.new_proc('ref'), lambda: np.array(
            self.metadata().create_instance().as_numpy))
        check(st == 'ok', 'failed', 'region {}: {!r}', self.key, region)
        check(same(region, self.used), 'bad-region', '{}: {} expected {}', self.key,
              short(region), short(self.used))
        self.used = region      # to the last bit
        series = region.reshape(region.shape[0], -1).T
        self.distances = np.array([[dtw(a, b) for b in series] for a in series])
        self.write()

    def metadata(self):
        return SpatioTemporalRegionMetadata(self.name, self.rect, self.dataset.year,
                                            self.dataset.year, self.dataset.spd,
                                            scaled=self.scaled)

    def write(self):
        with self.sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
            np.save(self.metadata().distances_filename, self.distances)
        self.intact = True

    def ready(self):
        return self.intact and self.dataset.intact

    def descaled(self, series, i, j):
        if not self.scaled:
            return series
        return series * (self.high[i, j] - self.low[i, j]) + self.low[i, j]


def draw_targets(sim, n, shapes=((2, 2), (2, 3), (3, 2), (1, 4), (3, 3), (4, 1)), max_len=20):
    c = sim.c
    full = (7, 8)
    datasets = [Dataset(sim, 2000, 1, c.int(14, max_len), full)]
    if c.chance(0.5):
        how = c.draw(2)
        datasets.append(Dataset(sim, 2000 + how, 4 - 3 * how, c.int(14, max_len), full))
    targets = []
    for i in range(n):
        d = c.pick(datasets)
        if i and c.chance(0.5):     # the same coordinates, in another form
            rect = targets[0].rect
        else:
            x, y = c.pick(shapes)
            x1, y1 = c.draw(full[0] - x + 1), c.draw(full[1] - y + 1)
            rect = Region(x1, x1 + x, y1, y1 + y)
        name = c.pick(['reg', 'reg', 'reg_b'])
        scaled = c.chance(0.5)
        for k in range(9):
            key = '{}-{}-{}{}'.format(name, d.year, d.spd, 's' if scaled else '')
            if key not in [t.key for t in targets]:
                break
            name = 'r{}{}'.format(i, k)
        targets.append(Target(sim, name, d, rect, scaled))
    return datasets, targets


# --------------------------------------------------------------------------------- models

class Model:
    def __init__(self, kind, params):
        self.kind, self.params = kind, params

    def parameters(self):
        if self.kind == 'mean':
            return MeanOfPastParams(self.params)
        if self.kind == 'knn':
            return KNNParams(self.params, DistanceByDTW())
        if self.kind == 'arima':
            return ArimaPDQ(*self.params)
        return AutoArimaParams(*self.params, stepwise=True)

    def trainer(self, params, x, y):
        cls = {'mean': TrainerMeanOfPast, 'knn': TrainerKNN, 'arima': TrainerArimaPDQ,
               'auto': TrainerAutoArima}[self.kind]
        return cls(params, x, y)

    def forecast(self, whole, training, n, in_sample):
        '''Forecast of the model at a medoid'''
        series = training if in_sample else whole
        if self.kind == 'mean':
            return np.repeat(np.mean(series[-self.params:]), n)
        if self.kind == 'knn':
            return knn_forecast(series, self.params, n)
        order = self.params if self.kind == 'arima' else fake_order(training, self.params)
        return fake_forecast(series, order, n)

    def longest(self, series_len):
        '''The longest forecast possible'''
        if self.kind != 'knn':
            return 10 ** 6
        n = 0
        while series_len - (n + 1) + 1 - 1 >= self.params:
            n += 1
        return n

    def text(self):
        return '{}{}'.format(self.kind, self.params).replace(' ', '')


def knn_forecast(series, k, n):
    windows = [series[i:i + n] for i in range(len(series) - n + 1)]
    last, others = windows[-1], windows[:-1]
    best = sorted(range(len(others)), key=lambda i: dtw(last, others[i]))[:k]
    return np.mean([others[i] for i in best], axis=0)


def draw_model(c):
    kind = c.pick(['mean', 'auto', 'knn', 'arima', 'auto'])
    if kind == 'mean':
        return Model('mean', c.pick([1, 3, 8]))
    if kind == 'knn':
        return Model('knn', c.pick([1, 2, 3]))
    if kind == 'arima':
        return Model('arima', (c.draw(3), c.draw(2), c.draw(3)))
    return Model('auto', (c.draw(2), c.draw(2), c.int(2, 4), c.int(2, 4), c.pick([None, 0, 1])))


# ----------------------------------------------------------------------------- clusterings

class Clustering:
    def __init__(self, name, k, params):
        self.name, self.k, self.params = name, k, params
        self.ref = {}

    def metadata(self):
        return ClusteringMetadataFactory().instance(self.name, self.k, **dict(self.params))

    def text(self):
        return '{}{}{}'.format(self.name[0], self.k, ''.join(
            ',{}'.format(v) for v in self.params.values()))

    def reference(self, sim, t):
        '''(labels, medoids), or None if the region cannot be partitioned like this'''
        if t not in self.ref:
            def body():
                measure = DistanceByDTW()
                measure.load_distance_matrix_2d(t.metadata().distances_filename, t.rect)
                return ClusteringFactory(measure).instance(self.metadata()).partition(
                    t.metadata().create_instance(), with_medoids=True)
            st, got = sim.in_proc(sim.new_proc('ref'), body)
            if st == 'ok':
                self.ref[t] = np.array(got.as_numpy).reshape(t.x, t.y), \
                    [(int(p.x), int(p.y)) for p in got.medoids]
            else:
                check(self.name == 'regular', 'failed', '{} of {}: {!r}', self.text(), t.key, got)
                self.ref[t] = None
        return self.ref[t]

    def as_dict(self):
        if self.name == 'regular':
            return {'k': self.k}
        return {'k': self.k, 'seed': self.params['random_seed']}


def draw_clustering(c, smallest):
    if c.chance(0.3):
        return Clustering('regular', c.pick([1, 2, 4]), {})
    return Clustering('kmedoids', c.int(1, min(3, smallest)),
                      {'random_seed': c.pick([0, 1, 2]), 'mode': c.pick(['lite', 'robust'])})


# ----------------------------------------------------------------------------------- cases

ERRORS = {
    'sMAPE': lambda f, o, t: np.mean(200 * np.abs(f - o) / (f + o)),
    'MSE': lambda f, o, t: np.mean((f - o) ** 2),
    'MASE': lambda f, o, t: np.mean(np.abs(f - o)) / np.mean(np.abs(np.diff(t))),
}


class Case:
    '''All parameters of a solver, and what it answers'''

    def __init__(self, sim, target, clustering, model, test_len, error):
        self.sim, self.t, self.clustering, self.model = sim, target, clustering, model
        self.test_len, self.error = test_len, error
        self.labels, self.medoids = clustering.reference(sim, target)
        self.known = {}

    def text(self):
        return '{} {} {} tp{} {}'.format(self.t.key, self.clustering.text(), self.model.text(),
                                         self.test_len, self.error)

    def place(self):
        '''What decides the directory'''
        return self.t.key, self.clustering.text()

    def cut(self, series):
        return series[:-self.test_len], series[-self.test_len:]

    def forecast(self, i, j, n, in_sample):
        key = (i, j, n, in_sample)
        if key not in self.known:
            mi, mj = self.medoids[int(self.labels[i, j])]
            whole = self.t.used[:, mi, mj]
            f = self.model.forecast(whole, self.cut(whole)[0], n, in_sample)
            self.known[key] = self.t.descaled(f, i, j)
        return self.known[key]

    def error_at(self, i, j):
        key = ('error', i, j)
        if key not in self.known:
            training, test = self.cut(self.t.data[:, i, j])
            f = self.forecast(i, j, self.test_len, True)
            self.known[key] = float(ERRORS[self.error](f, test, training))
        return self.known[key]

    # --- the code under test
    def metadata(self, measure):
        return SolverMetadataBuilder(
            region_metadata=self.t.metadata(), model_params=self.model.parameters(),
            test_len=self.test_len, error_type=self.error).with_clustering(
                clustering_metadata=self.clustering.metadata(), distance_measure=measure).build()

    def trainer(self, measure):
        params = self.model.parameters()
        return SolverTrainer(region_metadata=self.t.metadata(),
                             clustering_metadata=self.clustering.metadata(),
                             distance_measure=measure,
                             model_trainer=self.model.trainer(params, self.t.x, self.t.y),
                             model_params=params, test_len=self.test_len, error_type=self.error)

    def pickler(self, measure):
        return SolverPickler(self.metadata(measure))

    # --- queries
    def draw_query(self, c, long_ones=False):
        x1, y1 = c.draw(self.t.x), c.draw(self.t.y)
        rect = Region(x1, c.int(x1 + 1, self.t.x), y1, c.int(y1 + 1, self.t.y))
        if c.chance(0.5):
            return rect, 0
        if long_ones and c.chance(0.1) and self.model.kind != 'knn':
            return rect, c.pick([999, 1001, 1200])
        return rect, min(c.pick([1, 2, 3, 6, 11]), self.model.longest(self.t.data.shape[0]))

    def rows(self, rect, n):
        '''For each point of the rectangle: coordinates, cluster, error, forecast, test'''
        in_sample = n == 0
        out = []
        for i in range(rect.x1, rect.x2):
            for j in range(rect.y1, rect.y2):
                test = self.cut(self.t.data[:, i, j])[1] if in_sample else None
                out.append(((i + self.t.rect.x1, j + self.t.rect.y1), int(self.labels[i, j]),
                            self.error_at(i, j),
                            self.forecast(i, j, n or self.test_len, in_sample), test))
        return out

    def summary(self, rect):
        '''(clusters, distance to the medoids, mean squared error)'''
        labels = sorted({int(a) for a in self.labels[rect.x1:rect.x2, rect.y1:rect.y2].flat})
        test = self.t.used[-self.test_len:]
        sums = []
        for a in labels:
            mi, mj = self.medoids[a]
            sums.append(sum(dtw(test[:, mi, mj], test[:, i, j])
                            for i in range(rect.x1, rect.x2) for j in range(rect.y1, rect.y2)))
        errors = [self.error_at(i, j) for i in range(rect.x1, rect.x2)
                  for j in range(rect.y1, rect.y2)]
        return len(labels), np.mean(np.square(sums)) ** 0.5, np.mean(np.square(errors))

    def judge(self, got, rect, n, what, summary=True):
        '''An answer is the right one'''
        what = '{}: {} forecast {}: {}'.format(self.text(), tuple(rect), n, what)
        points = [(int(p.x), int(p.y)) for p in got]
        want = [(i, j) for i in range(rect.x2 - rect.x1) for j in range(rect.y2 - rect.y1)]
        check(points == want, 'points', '{}: {} expected {}', what, points, want)
        for (i, j), (coords, label, error, forecast, test) in zip(want, self.rows(rect, n)):
            point = Point(i, j)
            row = got.result_tuple_for_point(point)
            check(tuple(int(v) for v in row[0]) == coords, 'coordinates', '{}: {} expected {}',
                  what, row[0], coords)
            check(int(row[1]) == label, 'cluster', '{} at {}: {} expected {}', what, coords,
                  row[1], label)
            check(near(float(row[2]), error), 'error', '{} at {}: {} expected {}', what, coords,
                  row[2], error)
            check(same(got.prediction_error_at(point), error, 1e-6), 'error',
                  '{} at {}: {} expected {}', what, coords, got.prediction_error_at(point), error)
            check(same(row[3], forecast, 1e-6), 'forecast', '{} at {}: {} expected {}', what,
                  coords, short(row[3]), short(forecast))
            check((len(row) == 5) == (test is not None), 'columns', '{}: {}', what, len(row))
            if test is not None:
                check(same(row[4], test, 1e-6), 'test', '{} at {}: {} expected {}', what, coords,
                      short(row[4]), short(test))
        if summary:
            self.judge_summary(dict(zip(got.summary_header(), got.summary_tuple())), rect, what)

    def judge_summary(self, got, rect, what):
        clusters, distance, mse = self.summary(rect)
        want = dict(self.clustering.as_dict(), clusters=clusters, tp=self.test_len)
        for k, v in want.items():
            check(str(got.get(k)) == str(v), 'summary', '{}: {} is {} instead of {}', what, k,
                  got.get(k), v)
        check(near(got['dtw_r_m'], distance, 0.005), 'summary', '{}: dtw_r_m is {} instead of {}',
              what, got['dtw_r_m'], distance)
        check(near(got['mse'], mse), 'summary', '{}: mse is {} instead of {}', what, got['mse'],
              mse)


def near(text, value, step=0.0005):
    '''A rounded figure'''
    v = float(text)
    if np.isnan(v) or np.isnan(value):
        return bool(np.isnan(v)) and bool(np.isnan(value))
    return abs(v - value) <= step * 1.01 + 1e-6 * abs(value)


def draw_cases(sim, targets, n):
    '''Solvers that differ in one parameter or in several'''
    c = sim.c
    sim.estimators = Estimators()
    smallest = min(t.n for t in targets)
    cases = []
    for _ in range(n * 3):
        if len(cases) == n:
            break
        if cases and c.chance(0.75):
            o = c.pick(cases)
            t, g, m, tp, e = o.t, o.clustering, o.model, o.test_len, o.error
            how = c.draw(5)
        else:
            t, g, m = c.pick(targets), draw_clustering(c, smallest), draw_model(c)
            tp, e = c.int(2, 5), c.pick(sorted(ERRORS))
            how = None
        if how == 0:
            tp = c.int(2, 5)
        elif how == 1:
            e = c.pick(sorted(ERRORS))
        elif how == 2:
            m = draw_model(c)
        elif how == 3:
            g = draw_clustering(c, smallest)
        elif how == 4:
            t = c.pick(targets)
        for o in cases:     # one object per clustering
            if o.clustering.text() == g.text():
                g = o.clustering
        if g.reference(sim, t) is None or m.longest(t.data.shape[0] - tp) < tp:
            continue
        case = Case(sim, t, g, m, tp, e)
        if case.text() not in [o.text() for o in cases]:
            cases.append(case)
    return cases


# ----------------------------------------------------------------------------------- reports

def read_rows(sim, path):
    try:
        data = sim.fs.read(path)
    except FileNotFoundError:
        return None
    try:
        return list(csv.reader(io.StringIO(data.decode('utf-8', 'replace'), newline=''),
                               delimiter=' ', quotechar='|'))
    except csv.Error:
        return None


def numbers(cell):
    '''The series in a cell of a report, None if it is not one'''
    cell = cell.strip()
    if not (cell.startswith('[') and cell.endswith(']')):
        return None
    try:
        return [float(v) for v in cell[1:-1].split()]
    except ValueError:
        return None


def series_equal(cell, series):
    got = numbers(cell)
    return got is not None and len(got) == len(series) and all(
        near(a, b) for a, b in zip(got, series))
