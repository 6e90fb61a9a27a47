'''P02: parallel overall forecast errors equal the serial ones under every schedule.'''
import numpy as np

from spta.model import error as error_mod
from spta.region import Point
from spta.region.partition import PartitionRegionCrisp
from spta.region.temporal import SpatioTemporalRegion
from spta.util import arrays as arrays_util
from .common import (check, fail, same, short, draw_shape, draw_data, memory_layout, metadata,
                     scaled_of, describe, note_state, draw_partition)
from .p01 import schedule_probes

ID = 'P02'
RUNS = {'quick': 1600, 'thorough': 30000}
RULE = ('one run = one to four parallel error calculations (some at once) over drawn regions or clusters with a '
        'drawn number of workers, missing forecasts and schedule, compared with the serial one '
        'and with the composition point by point; non-trivial = at least two workers took '
        'chunks, or a worker was preempted inside a task')
STATES = 'distinct (shape, workers, cluster, assignment of chunks to workers in order)'
REAL = ['spta.model.error', 'spta.model.error_parallel', 'spta.region.*', 'spta.util.error']
STUB = ['multiprocessing Pool/Array/Lock (simulated scheduler, real pickling of tasks)',
        'file system (scratch directory behind a seam)', 'os.getpid']
PROBES = ['two_workers', 'preempted', 'cluster', 'scaled', 'nan_forecast', 'partial_nan_forecast',
          'three_chunks', 'second_op', 'at_once']
WARM = False


def descaled(arr, lo, hi):
    return arr * (hi - lo) + lo


def draw_problem(c, sim, max_points=30):
    '''Forecast, observation and training regions, members, and the data in original scale.'''
    x, y = draw_shape(c, max_points, 6)
    n_test, n_train = c.int(1, 4), c.int(3, 8)
    data = draw_data(c, n_train + n_test, x, y) + 30.0
    data += np.linspace(0, 1, n_train + n_test).reshape(-1, 1, 1)   # no constant series
    if c.chance(0.15):      # a point without observations
        data[:, c.draw(x), c.draw(y)] = np.nan
    forecast = draw_data(c, n_test, x, y) + 25.0
    nan_kind = c.draw(3)
    if nan_kind == 1:
        for _ in range(c.int(1, 3)):
            forecast[:, c.draw(x), c.draw(y)] = np.nan
        sim.probe('nan_forecast')
    elif nan_kind == 2:
        forecast[c.draw(n_test), c.draw(x), c.draw(y)] = np.nan
        sim.probe('partial_nan_forecast')
    scaled = c.chance(0.4)
    whole = SpatioTemporalRegion(memory_layout(c, data), region_metadata=metadata(c, x, y))
    lo, hi = np.zeros((x, y)), np.ones((x, y))
    if scaled:
        sim.probe('scaled')
        with np.errstate(all='ignore'):
            lo, hi = np.nanmin(data, axis=0), np.nanmax(data, axis=0)
        whole = scaled_of(whole)
        forecast = (forecast - np.nanmin(forecast)) / 10.0
    members = np.ones((x, y), dtype=bool)
    if c.chance(0.5) and x * y > 1:
        sim.probe('cluster')
        k, m = draw_partition(c, x, y)
        part = PartitionRegionCrisp.from_membership_array(m, x, y)
        idx = c.draw(k)
        whole = part.create_spt_cluster(whole, idx)
        members = (m.reshape(x, y) == idx)
    from spta.region import TimeInterval
    train = whole.interval_subset(TimeInterval(0, n_train))
    test = whole.interval_subset(TimeInterval(n_train, n_train + n_test))
    fc_region = test.new_spatio_temporal_region(forecast.copy())
    return dict(x=x, y=y, train=train, test=test, forecast=fc_region, fc=forecast, data=data,
                n_train=n_train, lo=lo, hi=hi, members=members, scaled=scaled)


def reference(p, error_type):
    '''Composition of the error at each point.'''
    func = error_mod.get_error_func(error_type)
    out = {}
    pts = [(i, j) for i in range(p['x']) for j in range(p['y']) if p['members'][i, j]]
    with np.errstate(all='ignore'):
        for (i, j) in pts:
            f = p['fc'][:, i, j]
            if np.isnan(f).all():
                out[i, j] = np.nan
                continue
            errors = []
            for (a, b) in pts:
                fab = f
                if p['scaled']:
                    fab = descaled(f, p['lo'][a, b], p['hi'][a, b])
                series = p['data'][:, a, b]
                errors.append(func(fab, series[p['n_train']:], series[:p['n_train']]))
            out[i, j] = arrays_util.root_mean_squared(errors)
    return out


def read_result(region):
    out = {}
    order = []
    for point, value in region:
        out[point.x, point.y] = float(value)
        order.append((point.x, point.y))
    return out, order


def compare(got, ref, sig, what):
    check(sorted(got) == sorted(ref), sig + '-points', '{}: points {} expected {}', what,
          sorted(got), sorted(ref))
    for k in ref:
        check(same(got[k], ref[k], 1e-6), sig, '{} at {}: {} expected {}', what, k, got[k],
              ref[k])


def at_once(sim, proc, p, ref, error_type, analysis, workers):
    c = sim.c
    q = draw_problem(c, sim)
    other_type = c.pick(['MASE', 'sMAPE', 'MSE'])
    n = c.pick([None, 1, 2, 3])
    want = reference(q, other_type)
    sim.probe('at_once')
    sim.nontrivial = True

    def one():
        return analysis(workers).overall_with_each_forecast(p['forecast'], error_type)

    def two():
        return error_mod.ErrorAnalysis(q['test'], q['train'], parallel_workers=n) \
            .overall_with_each_forecast(q['forecast'], other_type)
    procs = [proc, proc if c.chance(0.6) else sim.new_proc('other')]
    outs = sim.concurrently(list(zip(procs, [one, two])), preempt=sim.worker_preempt)
    for (st, res), r, t in zip(outs, [ref, want], [error_type, other_type]):
        check(st == 'ok', 'error-at-once-failed', '{}: {!r}', st, res)
        got, _ = read_result(res)
        compare(got, r, 'errors-at-once-differ', t)


def scenario(sim):
    c = sim.c
    proc = sim.new_proc('main')
    ops = 1 + c.draw(2)
    for n_op in range(ops):
        if n_op:
            sim.probe('second_op')
        p = draw_problem(c, sim)
        error_type = c.pick(['MASE', 'sMAPE', 'MSE'])
        workers = c.int(1, 5)
        sim.worker_preempt = c.pick([0, 0, 3, 8])
        training = p['train']
        if error_type != 'MASE' and c.chance(0.3):
            training = None
        describe(sim, op=n_op, error=error_type, shape=(p['x'], p['y']), workers=workers,
                 members=int(p['members'].sum()), scaled=p['scaled'],
                 training=training is not None)
        ref = reference(p, error_type)

        def analysis(n):
            return error_mod.ErrorAnalysis(p['test'], training, parallel_workers=n)
        if c.chance(0.2):       # another calculation at the same time
            at_once(sim, proc, p, ref, error_type, analysis, workers)
        order = [0, 1] if c.chance(0.5) else [1, 0]
        for which in order:
            if which == 0:
                st, res = sim.in_proc(proc, lambda: analysis(None).overall_with_each_forecast(
                    p['forecast'], error_type))
                check(st == 'ok', 'serial-error-failed', '{}: {!r}', st, res)
                serial, pts = read_result(res)
                compare(serial, ref, 'serial-errors-differ', error_type)
            else:
                st, res = sim.in_proc(proc, lambda: analysis(workers).overall_with_each_forecast(
                    p['forecast'], error_type))
                check(st == 'ok', 'parallel-error-failed', '{}: {!r}', st, res)
                par, pts = read_result(res)
                compare(par, ref, 'parallel-errors-differ', '{} workers {}'.format(
                    error_type, workers))
                par2, pts2 = read_result(res)
                check(pts2 == pts and same(list(par.values()), list(par2.values()), 0),
                      'result-not-stable')
                takes = schedule_probes(sim)
                if len(takes) > 2:
                    sim.probe('three_chunks')
            check(pts == sorted(pts), 'result-order', '{}', pts)
            for i in range(p['x']):
                for j in range(p['y']):
                    if not p['members'][i, j]:
                        try:
                            v = res.value_at(Point(i, j))
                        except ValueError:
                            continue
                        fail('outsider-has-value', 'point {} outside of the cluster: {}',
                             (i, j), v)
        for (i, j), v in par.items():
            check(same(v, serial[i, j], 1e-9), 'parallel-differs-from-serial',
                  '{} at {}: {} serial {}', error_type, (i, j), v, serial[i, j])
        note_state(sim, p['x'], p['y'], workers, p['members'].tobytes(), takes)
