'''P05: a training failure at one point affects that point only.'''
import numpy as np

from sim.estimators import Estimators, fake_forecast, fake_order, key_of
from sim.kernel import InjectedError
from spta.arima import ArimaPDQ, AutoArimaParams
from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima
from spta.distance.dtw import DistanceByDTW
from spta.model.forecast import ForecastAnalysis
from spta.model.knn import KNNParams, TrainerKNN
from spta.model.mean import MeanOfPastParams, TrainerMeanOfPast
from spta.model.train import TrainAtRepresentatives
from spta.region import Point
from spta.region.partition import PartitionRegionCrisp
from spta.region.temporal import SpatioTemporalRegion
from .common import (check, fail, same, short, draw_shape, draw_data, distinct_series,
                     memory_layout, scaled_of, describe, note_state, draw_partition)

ID = 'P05'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a history of training passes (ARIMA, auto ARIMA, mean, k-NN; all points or '
        'representatives; whole regions, scaled regions, clusters; refitting) with drawn fit '
        'failures and aborted passes, each result compared point by point with a model of '
        'training; non-trivial = some fit failed or a pass was aborted')
STATES = 'distinct (trainer, shape, kind of region, failed points, representatives, aborted)'
REAL = ['spta.model.train', 'spta.model.base', 'spta.model.mean', 'spta.model.knn',
        'spta.model.forecast', 'spta.arima.train', 'spta.arima.model', 'spta.region.*',
        'statsmodels and pmdarima in a few runs']
STUB = ['statsmodels ARIMA and pmdarima auto_arima (replaced by a deterministic estimator whose '
        'fits fail on demand) in most runs']
PROBES = ['arima', 'auto', 'mean', 'knn', 'representatives', 'refit', 'failed_fit',
          'failed_search', 'aborted', 'repeat_after_abort', 'cluster', 'scaled', 'analysis',
          'real_estimator', 'two_regions', 'refit_failed', 'shared_trainer']


def draw_trainer(c, kind):
    if kind == 'arima':
        return ArimaPDQ(c.draw(3), c.draw(2), c.draw(3))
    if kind == 'auto':
        return AutoArimaParams(c.draw(2), c.draw(2), c.int(1, 3), c.int(1, 3),
                               c.pick([None, 0, 1]), c.chance(0.5))
    if kind == 'mean':
        return MeanOfPastParams(c.int(1, 4))
    return KNNParams(c.int(1, 2), DistanceByDTW())


TRAINERS = {'arima': TrainerArimaPDQ, 'auto': TrainerAutoArima, 'mean': TrainerMeanOfPast,
            'knn': TrainerKNN}


class Data:
    '''A region, its members and the series it is trained on.'''

    def __init__(self, sim, x, y, n, part=None):
        c = sim.c
        data = draw_data(c, n, x, y) + 20.0
        data += np.random.RandomState(c.seed()).uniform(0, 0.01, data.shape)
        self.region = SpatioTemporalRegion(memory_layout(c, data))
        self.kind = 'plain'
        self.data = data
        if c.chance(0.3):
            sim.probe('scaled')
            self.kind = 'scaled'
            lo, hi = data.min(axis=0), data.max(axis=0)
            self.data = (data - lo) / (hi - lo)
            self.region = scaled_of(self.region)
        self.members = [(i, j) for i in range(x) for j in range(y)]
        if part is not None:
            sim.probe('cluster')
            self.kind += '_cluster'
            p, idx, m = part
            self.members = [q for q in self.members if m[q] == idx]
            self.region = p.create_spt_cluster(self.region, idx)

    def series(self, p):
        '''as the region itself has it (scaling in floating point has more than one rounding)'''
        return np.array(self.region.series_at(Point(*p)), dtype=float)

    def right(self):
        for p in self.members:
            check(same(self.series(p), self.data[:, p[0], p[1]], 1e-9), 'series', '{}', p)


def expect_fit(series, order, bad):
    '''Reference of one ARIMA fit: None or what it forecasts.'''
    if key_of(series) in bad:
        return None
    return ('arima', tuple(order), np.array(series))


def expect(kind, params, series, est):
    if kind == 'arima':
        return expect_fit(series, params, est.bad_series)
    if kind == 'auto':
        if key_of(series) in est.bad_search:
            return None
        order = fake_order(series, (params.start_p, params.start_q, params.max_p, params.max_q,
                                    params.d))
        return expect_fit(series, order, est.bad_series)
    if kind == 'mean':
        return ('mean', np.mean(series[-params.past:]))
    return ('knn', params, np.array(series))


def expected_forecast(e, n, direct=None):
    if e is None:
        return np.full(n, np.nan)
    if e[0] == 'arima':
        return fake_forecast(e[2], e[1], n)
    if e[0] == 'mean':
        return np.repeat(e[1], n)
    return None


def check_models(sim, what, models, region, exp, members, n_forecast, missing=None):
    '''The models of a region, against the expected ones: presence, and what they forecast.'''
    for p in members:
        m = models.value_at(Point(*p))
        check((m is None) == (exp[p] is None), 'model-presence',
              '{}: at {} the model is {} and should be {}', what, p, m,
              'missing' if exp[p] is None else 'there')
        if exp[p] is not None and exp[p][0] == 'knn':
            check(m.model_params.k == exp[p][1].k and same(m.training_series, exp[p][2], 1e-12),
                  'model-series', '{}: the k-NN model at {} is of another series', what, p)
    got = models.apply_to(region.empty_region_2d(), n_forecast)
    for p in members:
        f = np.array(got.series_at(Point(*p)))
        ref = expected_forecast(exp[p], n_forecast)
        if ref is None:
            check(not np.any(np.isnan(f)), 'forecast-nan', '{}: at {}: {}', what, p, f)
            continue
        check(same(f, ref, 1e-9), 'forecast', '{}: at {} forecast {}, expected {}', what, p, f,
              ref)
    if missing is not None:
        want = sum(1 for p in members if exp[p] is None)
        check(missing == want, 'missing-count', '{}: {} missing models counted, {} are missing',
              what, missing, want)


def draw_failures(sim, est, kind, data):
    '''Some points whose fit fails.'''
    c = sim.c
    n = len(data.members)
    how = c.draw(4)
    if kind not in ('arima', 'auto') or how == 0:
        return
    count = n if how == 3 and c.chance(0.3) else c.int(1, max(1, n // 2))
    for _ in range(count):
        p = c.pick(data.members)
        exc = c.pick([ValueError, np.linalg.LinAlgError])
        if kind == 'auto' and c.chance(0.5):
            est.bad_search[key_of(data.series(p))] = exc
            sim.probe('failed_search')
        else:
            est.bad_series[key_of(data.series(p))] = exc
            sim.probe('failed_fit')


def abort(sim, est, kind):
    '''Arrange that the next pass is aborted. Returns a function that removes it.'''
    c = sim.c
    if kind in ('arima', 'auto') and c.chance(0.5):
        exc = c.pick([InjectedError, MemoryError, RuntimeError])('abort')
        est.bad_call = (est.calls + 1 + c.small(0, 12), exc)

        def off():
            est.bad_call = None
    else:
        exc = c.pick([MemoryError, KeyboardInterrupt, InjectedError])('abort')
        sim.raise_at_line(c.small(0, 1500), exc)
        off = sim.clear_line_fault
    return off


def real_run(sim):
    '''The real estimator, a small region.'''
    from statsmodels.tsa.arima.model import ARIMA
    c = sim.c
    sim.probe('real_estimator')
    sim.estimators = None
    x, y = draw_shape(c, 4, 3)
    data = np.cumsum(np.random.RandomState(c.seed()).normal(0, 1, (16, x, y)), axis=0)
    region = SpatioTemporalRegion(data)
    order = c.pick([(0, 0, 0), (1, 0, 0), (0, 1, 1)])
    nan_at = (c.draw(x), c.draw(y)) if c.chance(0.4) else None
    trainer = TrainerArimaPDQ(ArimaPDQ(*order), x, y)
    models = trainer.apply_to(region)
    got = models.apply_to(region.empty_region_2d(), 3)
    for i in range(x):
        for j in range(y):
            ref = ARIMA(data[:, i, j], order=order, seasonal_order=(0, 0, 0, 0)).fit() \
                .forecast(3)
            check(same(got.series_at(Point(i, j)), ref, 1e-6), 'forecast-real',
                  'at {}: {} expected {}', (i, j), got.series_at(Point(i, j)), ref)
    describe(sim, real=True, shape=(x, y), order=order, nan=nan_at)


def scenario(sim):
    c = sim.c
    if c.draw(60) == 1:
        return real_run(sim)
    est = sim.estimators = Estimators()
    kind = c.pick(['arima', 'auto', 'arima', 'auto', 'mean', 'knn'])
    sim.probe(kind)
    x, y = draw_shape(c, 14, 5)
    n = c.int(8, 12)
    part = None
    if c.chance(0.35):
        k, m = draw_partition(c, x, y)
        part = (PartitionRegionCrisp.from_membership_array(m, x, y), c.draw(k),
                m.reshape(x, y))
    regions = [Data(sim, x, y, n, part)]
    if c.chance(0.4):
        sim.probe('two_regions')
        regions.append(Data(sim, x, y, c.int(8, 12), part))
    if not all(distinct_series(d.data) for d in regions):
        sim.count('same_series')
    params = draw_trainer(c, kind)
    trainer = TRAINERS[kind](params, x, y)
    users = []          # what trains: the trainer, or some representatives with it
    while not users or c.chance(0.3):
        reps = None
        used = trainer
        if c.chance(0.4):
            sim.probe('representatives')
            members = regions[0].members
            reps = sorted({c.pick(members) for _ in range(c.int(1, 3))})
            used = TrainAtRepresentatives(trainer, [Point(*p) for p in reps])
        users.append((used, reps))
    if len(users) > 1:
        sim.probe('shared_trainer')
    for d in regions:
        draw_failures(sim, est, kind, d)
    describe(sim, trainer=kind, params=params, shape=(x, y), regions=[d.kind for d in regions],
             representatives=[r for _, r in users],
             failures=len(est.bad_series) + len(est.bad_search))
    aborted = False
    made = []           # (models, data, expected): they must stay as they are
    n_forecast = 3

    def expected(d):
        return {p: (None if reps is not None and p not in reps else
                    expect(kind, params, d.series(p), est)) for p in d.members}

    for step in range(c.int(1, 4)):
        d = c.pick(regions)
        used, reps = c.pick(users)
        exp = expected(d)
        if c.chance(0.4):
            sim.probe('aborted')
            off = abort(sim, est, kind)
            st, got = sim.in_proc(sim.root, lambda: used.apply_to(d.region))
            off()
            if st == 'ok':
                check_models(sim, 'pass', got, d.region, exp, d.members, n_forecast)
            else:
                aborted = True
                sim.probe('repeat_after_abort')
        analysis = None
        if c.chance(0.25) and d.region.series_len > 7:
            # through the analysis: trained on all but the last samples
            sim.probe('analysis')
            test_len = n_forecast
            analysis = ForecastAnalysis(used)
            cut = d.region.series_len - test_len
            models = analysis.train_models(d.region, test_len)
            exp = {p: (None if reps is not None and p not in reps else
                       expect(kind, params, d.series(p)[:cut], est)) for p in d.members}
        else:
            models = used.apply_to(d.region)
        missing = getattr(models, 'missing_count', None) if kind in ('arima', 'auto') \
            else used.missing_count
        check(used.missing_count == sum(1 for p in d.members if exp[p] is None),
              'missing-count', 'trainer: {} of {}', used.missing_count, exp.keys())
        check_models(sim, 'trained', models, d.region, exp, d.members, n_forecast, missing)
        if kind in ('arima', 'auto'):
            for p in d.members:
                aic = models.aic_region.value_at(Point(*p))
                ref = np.nan if exp[p] is None else float(
                    np.sum(exp[p][2])) + 7.0 * exp[p][1][0] + 3.0 * exp[p][1][1] + exp[p][1][2]
                check(same(aic, ref), 'aic', 'at {}: {} expected {}', p, aic, ref)
        made.append((models, d, exp))
        if c.chance(0.5):
            models2, exp2 = refit(sim, c, kind, used, models, d, exp, regions, est, reps, part)
            made.append((models2[0], models2[1], exp2))
        if c.chance(0.5):
            note_state(sim, kind, (x, y), d.kind, sum(1 for e in exp.values() if e is None),
                       reps, aborted)
    for models, d, exp in made:
        check_models(sim, 'later', models, d.region, exp, d.members, c.int(1, 4)
                     if kind != 'knn' else 3)


def refit(sim, c, kind, used, models, d, exp, regions, est, reps, part):
    '''New data, the hyper-parameters that each point has.'''
    sim.probe('refit')
    target = c.pick(regions)
    own = used.decorated if reps is not None and c.chance(0.7) and kind == 'auto' else used
    refitter = own.create_refitter(models)
    if c.chance(0.3):
        off = abort(sim, est, kind)
        st, got = sim.in_proc(sim.root, lambda: refitter.apply_to(target.region))
        off()
    models2 = refitter.apply_to(target.region)
    exp2 = {}
    params = None
    for p in target.members:
        s = target.series(p)
        e = exp.get(p)
        if kind == 'auto' and own is not used or kind == 'auto' and reps is None:
            # the order of the point, whatever a new search would find
            exp2[p] = None if e is None else expect_fit(s, e[1], est.bad_series)
        else:
            # the trainer itself
            params = own_params(own)
            exp2[p] = None if reps is not None and own is used and p not in reps \
                else expect(kind, params, s, est)
        if e is None:
            sim.probe('refit_failed')
    check_models(sim, 'refit', models2, target.region, exp2, target.members, 3)
    return (models2, target), exp2


def own_params(trainer):
    return trainer.model_params_and_shape[0]
