'''P20: an analysis of forecasts reports the errors of the region it is asked about.'''
import numpy as np

from sim.estimators import Estimators
from spta.model.forecast import ForecastAnalysis
from spta.model.train import NoTrainer, TrainAtRepresentatives
from spta.region import Point
from spta.region.partition import PartitionRegionCrisp
from spta.util import arrays as arrays_util
from .common import (check, fail, same, short, draw_shape, draw_data, memory_layout, scaled_of,
                     describe, note_state, draw_partition)
from .solvers import ERRORS, knn_forecast
from . import p03, p05
from spta.region.temporal import SpatioTemporalRegion

ID = 'P20'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a history of analyses over one or two regions (plain, scaled, clusters) by '
        'one or two analysis objects: whole analyses, and single steps (training, forecasts at '
        'each point, one model for the region, all models) in any order, serial or with workers '
        'under a drawn schedule, some of them aborted; every number compared with a model; '
        'non-trivial = a fault struck, or one object saw two regions')
STATES = 'distinct (trainer, shape, kinds of regions, workers, operations)'
REAL = ['spta.model.forecast', 'spta.model.error', 'spta.model.error_parallel',
        'spta.model.train', 'spta.model.mean', 'spta.model.knn', 'spta.arima.train',
        'spta.arima.model', 'spta.region.*']
STUB = ['statsmodels ARIMA and pmdarima auto_arima (deterministic estimator whose fits fail on '
        'demand)', 'multiprocessing Pool/Array/Lock (simulated scheduler)', 'clocks',
        'file system (scratch directory behind a seam)']
PROBES = ['arima', 'auto', 'mean', 'knn', 'representatives', 'failed_fit', 'cluster', 'scaled',
          'whole_analysis', 'each', 'single', 'all', 'parallel', 'aborted', 'two_regions',
          'switched_region', 'centroid', 'no_centroid', 'steps_without_each', 'repeat_after_abort',
          'refused', 'ready_models']


class Data(p05.Data):
    '''A region, its series as they are and in their original scale'''

    def __init__(self, sim, x, y, n, part):
        c = sim.c
        data = draw_data(c, n, x, y)
        data = data - data.min() + 20.0
        data += np.random.RandomState(c.seed()).uniform(0, 0.01, data.shape)
        self.original = data
        self.x, self.y = x, y
        self.lo, self.hi = data.min(axis=0), data.max(axis=0)
        self.region = SpatioTemporalRegion(memory_layout(c, data.copy()))
        self.kind = 'plain'
        if c.chance(0.4):
            sim.probe('scaled')
            self.kind = 'scaled'
            self.region = scaled_of(self.region)
        self.members = [(i, j) for i in range(x) for j in range(y)]
        if part is not None:
            sim.probe('cluster')
            self.kind += '_cluster'
            p, idx, m = part
            self.members = [q for q in self.members if m[q] == idx]
            self.region = p.create_spt_cluster(self.region, idx)
        self.centroid = None
        if c.chance(0.6):
            sim.probe('centroid')
            self.centroid = c.pick(self.members)
            self.region.centroid = Point(*self.centroid)
        else:
            sim.probe('no_centroid')
        self.state = np.array(self.region.as_numpy, copy=True)

    def at(self, f, q):
        '''A forecast in the original scale of a point'''
        i, j = q
        if self.kind.startswith('scaled'):
            return f * (self.hi[i, j] - self.lo[i, j]) + self.lo[i, j]
        return f

    def error(self, kind, f, q, test_len):
        s = self.original[:, q[0], q[1]]
        with np.errstate(all='ignore'):
            return float(ERRORS[kind](self.at(f, q), s[-test_len:], s[:-test_len]))

    def unchanged(self):
        check(np.array_equal(self.state, np.array(self.region.as_numpy)), 'region-changed')
        check(self.region.centroid == (None if self.centroid is None else
                                       Point(*self.centroid)), 'centroid-changed')


def rms(values):
    v = np.array(values, dtype=float)
    v = v[~np.isnan(v)]
    return float(np.sqrt(np.mean(v * v))) if len(v) else np.nan


class Expected:
    '''What the models of a region forecast, and the errors.'''

    def __init__(self, d, forecasts, test_len):
        self.d, self.fc, self.test_len = d, forecasts, test_len
        self.known = {}

    def each(self, kind):
        return {p: self.d.error(kind, self.fc[p], p, self.test_len) for p in self.d.members}

    def single(self, p, kind):
        return {q: self.d.error(kind, self.fc[p], q, self.test_len) for q in self.d.members}

    def all(self, kind):
        if kind not in self.known:
            self.known[kind] = {p: rms(list(self.single(p, kind).values()))
                                for p in self.d.members}
        return self.known[kind]


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = self.c = sim.c
        self.proc = sim.new_proc('main')
        self.est = sim.estimators = Estimators()
        self.kind = c.pick(['arima', 'auto', 'mean', 'mean', 'knn'])
        sim.probe(self.kind)
        x, y = draw_shape(c, 9, 4)
        self.shape = (x, y)
        part = None
        if c.chance(0.4) and x * y > 1:
            k, m = draw_partition(c, x, y)
            part = (PartitionRegionCrisp.from_membership_array(m, x, y), c.draw(k),
                    m.reshape(x, y))
        self.test_len = c.int(1, 3)
        self.regions = [Data(sim, x, y, c.int(10, 13), part)]
        if c.chance(0.6):
            sim.probe('two_regions')
            self.regions.append(Data(sim, x, y, c.int(10, 13), part))
        self.params = p05.draw_trainer(c, self.kind)
        self.trainer = self.used = p05.TRAINERS[self.kind](self.params, x, y)
        self.reps = None
        if c.chance(0.3):
            sim.probe('representatives')
            members = self.regions[0].members
            self.reps = sorted({c.pick(members) for _ in range(c.int(1, 3))})
            self.used = TrainAtRepresentatives(self.trainer, [Point(*p) for p in self.reps])
        if c.chance(0.5) and self.kind in ('arima', 'auto'):
            self.draw_failures()
        if self.reps is None and len(self.regions) == 1 and c.chance(0.2):
            # models that are there already
            from spta.model.train import SplitTrainingAndTestLast
            sim.probe('ready_models')
            training, _ = SplitTrainingAndTestLast(self.test_len).split(self.regions[0].region)
            self.used = NoTrainer(self.trainer.apply_to(training))
        self.workers = c.pick([None, None, 1, 2, 3])
        if self.workers:
            sim.worker_preempt = c.pick([0, 0, 3, 8])
        self.struck = False
        self.ops = []

    def draw_failures(self):
        c, est = self.c, self.est
        for d in self.regions:
            for _ in range(c.draw(len(d.members)) + 1):
                p = c.pick(d.members)
                s = d.series(p)[:-self.test_len]
                exc = c.pick([ValueError, np.linalg.LinAlgError])
                if self.kind == 'auto' and c.chance(0.5):
                    est.bad_search[p05.key_of(s)] = exc
                else:
                    est.bad_series[p05.key_of(s)] = exc
                self.sim.probe('failed_fit')

    def expected(self, d, test_len):
        out = {}
        for p in d.members:
            s = d.series(p)[:-test_len]
            e = None if self.reps is not None and p not in self.reps else \
                p05.expect(self.kind, self.params, s, self.est)
            f = p05.expected_forecast(e, test_len)
            if f is None:
                f = knn_forecast(s, self.params.k, test_len)
            out[p] = np.asarray(f, dtype=float)
        return Expected(d, out, test_len)

    # ------------------------------------------------------------------------ comparisons
    def compare_points(self, got, ref, sig, what):
        got = {(p.x, p.y): v for p, v in got}
        check(sorted(got) == sorted(ref), sig + '-points', '{}: points {} instead of {}', what,
              sorted(got), sorted(ref))
        for p in ref:
            check(same(got[p], ref[p], 1e-7), sig, '{}: at {} {} instead of {}', what, p, got[p],
                  ref[p])

    def compare_errors(self, got, exp, error, what):
        each, alle = exp.each(error), exp.all(error)
        check(same(got.each, rms(list(each.values())), 1e-7), 'overall-each',
              '{}: {} instead of {}', what, got.each, rms(list(each.values())))
        good = [v for v in alle.values() if not np.isnan(v)]
        if good:
            check(same(got.minimum, min(good), 1e-7), 'minimum', '{}: {} instead of {}', what,
                  got.minimum, min(good))
            check(same(got.maximum, max(good), 1e-7), 'maximum', '{}: {} instead of {}', what,
                  got.maximum, max(good))
            local = min(v for v in each.values() if not np.isnan(v))
            may = [alle[p] for p in each if each[p] <= local + 1e-9 * (1 + abs(local))]
            check(any(same(got.min_local, v, 1e-7) for v in may), 'min-local',
                  '{}: {} instead of {}', what, got.min_local, may)
        else:
            check(not np.isfinite(got.minimum) and not np.isfinite(got.maximum), 'no-models',
                  '{}: {}', what, got)
        ref = np.nan if exp.d.centroid is None else alle[exp.d.centroid]
        check(same(got.centroid, ref, 1e-7), 'centroid-error', '{}: {} instead of {}', what,
              got.centroid, ref)

    # ------------------------------------------------------------------------- operations
    def call(self, fn, fault):
        sim, c = self.sim, self.c
        off = None
        if fault:
            if self.workers and c.chance(0.5):
                _, off = p03.arm(sim, self.workers, 'parallel')
            else:
                off = p05.abort(sim, self.est, self.kind)

        def strikes():
            return sum(v for k, v in sim.counters.items()
                       if k.startswith('fault:') and k != 'fault:fit_failed')
        before = strikes()
        st, got = sim.in_proc(self.proc, fn)
        if off is not None:
            off()
        sim.line_faults = {}
        sim.on_submit = None
        sim.fs.disarm()
        struck = fault and strikes() > before
        if struck:
            self.struck = True
            sim.probe('aborted')
        return st, got, struck

    def analysis(self):
        return dict(obj=ForecastAnalysis(self.used, self.workers), state=None, may=[], each=False)

    def trained(self, a, d, test_len, exp, st):
        '''The training of an analysis has ended (or not)'''
        if st == 'ok':
            if a['state'] is not None and a['state'].d is not d:
                self.sim.probe('switched_region')
                a['switched'] = True
            a['state'], a['may'], a['each'] = exp, [exp], False
        else:
            a['may'] = a['may'] + [exp]
            a['state'] = None

    def scenario(self):
        c, sim = self.c, self.sim
        objs = [self.analysis() for _ in range(1 + c.chance(0.25))]
        describe(sim, trainer=self.kind, params=str(self.params), shape=self.shape,
                 regions=[d.kind for d in self.regions], representatives=self.reps,
                 workers=self.workers, failures=len(self.est.bad_series) +
                 len(self.est.bad_search), test_len=self.test_len)
        for _ in range(c.int(1, 5)):
            a = c.pick(objs)
            d = c.pick(self.regions)
            error = c.pick(sorted(ERRORS))
            fault = c.chance(0.15)
            op = c.pick(['whole', 'train', 'each', 'single', 'all', 'each', 'single', 'all'])
            if op in ('each', 'single', 'all') and a['state'] is None and not a['may'] \
                    and c.chance(0.8):
                op = c.pick(['whole', 'train'])
            self.ops.append(op)
            getattr(self, 'op_' + op)(a, d, error, fault)
            if objs and any(o.get('dead') for o in objs):
                self.proc = sim.restart()
                objs = [self.analysis() for _ in objs]
        for d in self.regions:
            d.unchanged()
        if self.workers:
            sim.probe('parallel')
        sim.nontrivial = self.struck or any(o.get('switched') for o in objs)
        note_state(sim, self.kind, self.shape, [d.kind for d in self.regions], self.workers,
                   self.ops)

    def problem(self, a, st, got, struck, what):
        '''An operation did not end well'''
        check(struck, 'failed-without-fault', '{}: {} {!r}', what, st, got)
        self.sim.probe('repeat_after_abort')
        if st == 'hang':
            a['dead'] = True

    def op_whole(self, a, d, error, fault):
        self.sim.probe('whole_analysis')
        exp = self.expected(d, self.test_len)
        st, got, struck = self.call(lambda: a['obj'].analyze_errors(d.region, error,
                                                                    self.test_len), fault)
        what = 'analysis of {} by {}'.format(d.kind, error)
        self.trained(a, d, self.test_len, exp, st)
        if st != 'ok':
            return self.problem(a, st, got, struck, what)
        self.compare_errors(got[0], exp, error, what)
        a['each'] = True

    def op_train(self, a, d, error, fault):
        test_len = self.test_len
        exp = self.expected(d, test_len)
        st, got, struck = self.call(lambda: a['obj'].train_models(d.region, test_len), fault)
        self.trained(a, d, test_len, exp, st)
        if st != 'ok':
            return self.problem(a, st, got, struck, 'training')

    def judge(self, a, st, got, struck, what, one):
        '''one(exp) raises a violation if the result is not what exp says'''
        if st != 'ok':
            if a['state'] is None:
                self.sim.probe('refused')
                if st == 'hang':
                    a['dead'] = True
                return
            return self.problem(a, st, got, struck, what)
        if a['state'] is not None:
            return one(a['state'])
        # trained once, and the last training failed: all of one region, or nothing
        check(a['may'], 'forecast-without-models', what)
        from sim.kernel import Violation
        last = None
        for exp in a['may']:
            try:
                return one(exp)
            except Violation as e:
                last = e
        raise last

    def op_each(self, a, d, error, fault):
        self.sim.probe('each')
        st, got, struck = self.call(lambda: a['obj'].forecast_at_each_point(self.test_len, error),
                                    fault)
        what = 'forecasts at each point, {}'.format(error)

        def one(exp):
            forecasts, errors, _ = got
            pts = [(p.x, p.y) for p, _ in forecasts]
            check(sorted(pts) == sorted(exp.d.members), 'forecast-points', '{}: {}', what, pts)
            for p in pts:
                f = np.asarray(forecasts.series_at(Point(*p)), dtype=float)
                check(same(f, exp.fc[p], 1e-7), 'forecast', '{}: at {} {} instead of {}', what,
                      p, f, exp.fc[p])
            self.compare_points(errors, exp.each(error), 'error-each', what)
            check(same(errors.overall_error, rms(list(exp.each(error).values())), 1e-7),
                  'overall-each', '{}: {}', what, errors.overall_error)
        self.judge(a, st, got, struck, what, one)
        if st == 'ok':
            a['each'] = True

    def op_single(self, a, d, error, fault):
        self.sim.probe('single')
        members = a['state'].d.members if a['state'] is not None else d.members
        p = self.c.pick(members)
        if not a['each'] and a['state'] is not None:
            self.sim.probe('steps_without_each')
        st, got, struck = self.call(lambda: a['obj'].forecast_whole_region_with_single_model(
            Point(*p), self.test_len, error), fault)
        what = 'the model at {} for the whole region, {}'.format(p, error)

        def one(exp):
            self.compare_points(got, exp.single(p, error), 'error-single', what)
            check(same(got.overall_error, exp.all(error)[p], 1e-7), 'overall-single',
                  '{}: {} instead of {}', what, got.overall_error, exp.all(error)[p])
        self.judge(a, st, got, struck, what, one)

    def op_all(self, a, d, error, fault):
        self.sim.probe('all')
        if not a['each'] and a['state'] is not None:
            self.sim.probe('steps_without_each')
        st, got, struck = self.call(lambda: a['obj'].forecast_whole_region_with_all_models(
            self.test_len, error), fault)
        what = 'all models for the whole region, {}'.format(error)

        def one(exp):
            self.compare_points(got, exp.all(error), 'error-all', what)
        self.judge(a, st, got, struck, what, one)


def scenario(sim):
    Run(sim).scenario()
