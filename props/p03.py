'''P03: a failed parallel task is never published as a result.'''
import numpy as np

from sim.kernel import InjectedError
from spta.distance.dtw import DistanceByDTW
from spta.distance.dtw_parallel import DistanceByDTWParallel
from spta.model import error as error_mod
from spta.model.error_parallel import ParallelForecastError
from spta.region import Point
from spta.util import parallel as parallel_util
from .common import check, same, short, describe, note_state
from . import p01, p02

ID = 'P03'
RUNS = {'quick': 2000, 'thorough': 40000}
RULE = ('one run = a parallel (or serial) distance or error calculation with one fault, then the '
        'same calculation again without it; non-trivial = the fault struck during the calculation')
STATES = 'distinct (kind of calculation, shape, workers, fault kind, outcome)'
REAL = ['spta.util.parallel', 'spta.distance.dtw*', 'spta.model.error*', 'spta.region.*',
        'tslearn dtw']
STUB = p01.STUB
PROBES = ['retry_same_process', 'retry_new_process', 'failed', 'hang', 'survived', 'dtw',
          'generic', 'overall', 'serial', 'function']
ASSUMPTIONS = ['a pool whose worker died with a task never finishes, as with the real Pool.map']

ERRORS = {'error': InjectedError, 'value': ValueError, 'memory': MemoryError, 'os': OSError,
          'stop': StopIteration, 'assert': AssertionError, 'key': KeyError, 'type': TypeError,
          'division': ZeroDivisionError, 'arithmetic': FloatingPointError, 'index': IndexError,
          'runtime': RuntimeError, 'attribute': AttributeError, 'eof': EOFError}


class FailingTask:
    '''Fails at one pair.'''

    def __init__(self, i, j, kind):
        self.i, self.j, self.kind = i, j, kind

    def __call__(self, region, i, j):
        if (i, j) == (self.i, self.j):
            raise ERRORS[self.kind]('x')
        return p01.pair_task(region, i, j)


class FailingFunction:
    '''An error of each point, fails at one'''

    def __init__(self, at=None, kind=None):
        self.at, self.kind = at, kind

    def __call__(self, point, forecast, observation, training):
        if (point.x, point.y) == self.at:
            raise ERRORS[self.kind]('x')
        series = [observation.series_at(point), training.series_at(point)]
        return float(100 * point.x + point.y + np.nansum(forecast) + np.nansum(series[0]) +
                     3 * np.nansum(series[1]))


def arm(sim, workers, proc_kind):
    '''Draw one fault for the next calculation. Returns a function that removes it.'''
    c = sim.c
    kind = c.pick(['line', 'kill', 'fs', 'fs'] if proc_kind == 'parallel' else ['main_line'])
    exc = ERRORS[c.pick(sorted(set(ERRORS) - {'stop'}))]('injected')
    if kind == 'line':
        w = 1 + c.draw(workers)
        # worker names restart with every pool
        sim.line_faults = {'w{}'.format(w): (1 + c.small(0, 600), exc)}

        def off():
            sim.line_faults = {}
    elif kind == 'kill':
        after = c.small(0, 25)
        only_busy = c.chance(0.7)

        def on_submit(pool):
            def reaper():
                for _ in range(after):
                    pool.sched.yield_('reaper')
                for _ in range(60):
                    busy = [w for w in pool.workers if w.busy is not None or not only_busy]
                    if busy and not pool.closed:
                        pool.kill_worker(busy[c.draw(len(busy))])
                        return
                    if pool.closed:
                        return
                    pool.sched.yield_('reaper')
            pool.sched.spawn('reaper', pool.owner, reaper)
        sim.on_submit = on_submit

        def off():
            sim.on_submit = None
    elif kind == 'fs':
        from sim.fs import Plan
        plan = Plan(c.pick(['emfile', 'eacces', 'enospc', 'eio_write']), c.small(0, 40))
        plan.sticky = c.chance(0.4)
        sim.fs.arm(plan)

        def off():
            sim.fs.disarm()
    else:
        sim.raise_at_line(1 + c.small(0, 4000), exc)

        def off():
            sim.clear_line_fault()
    return kind, off


def scenario(sim):
    c = sim.c
    proc = sim.new_proc('main')
    what = c.pick(['dtw', 'generic', 'overall', 'dtw', 'function'])
    mode = 'serial' if what not in ('generic', 'function') and c.chance(0.15) else 'parallel'
    workers = c.int(1, 4)
    sim.worker_preempt = c.pick([0, 2, 6])
    sim.probe(what)
    if mode == 'serial':
        sim.probe('serial')
    measure = None
    task = None
    holder = {}
    if what == 'function':
        p = p02.draw_problem(c, sim, 24)
        points = [(i, j) for i in range(p['x']) for j in range(p['y']) if p['members'][i, j]]
        ref = {q: FailingFunction()(Point(*q), p['forecast'].series_at(Point(*q)), p['test'],
                                    p['train']) for q in points}
        task = FailingFunction(c.pick(points), c.pick(sorted(ERRORS))) if c.chance(0.5) else None

        def calc():
            op = ParallelForecastError(workers, p['forecast'], p['test'], p['train'])
            return p02.read_result(op.operate(holder.get('task') or FailingFunction()))[0]

        def right(got):
            return sorted(got) == sorted(ref) and all(same(got[k], ref[k], 1e-6) for k in ref)
        shape = (p['x'], p['y'])
    elif what == 'overall':
        p = p02.draw_problem(c, sim, 24)
        etype = c.pick(['MASE', 'sMAPE', 'MSE'])
        ref = p02.reference(p, etype)
        n = workers if mode == 'parallel' else None

        def calc():
            res = error_mod.ErrorAnalysis(p['test'], p['train'], parallel_workers=n) \
                .overall_with_each_forecast(p['forecast'], etype)
            return p02.read_result(res)[0]

        def right(got):
            return sorted(got) == sorted(ref) and all(same(got[k], ref[k], 1e-6) for k in ref)
        shape = (p['x'], p['y'])
    else:
        region, data = p01.draw_region(c, sim, 12, 4)
        s, x, y = data.shape
        shape = (x, y)
        if what == 'dtw':
            ref = p01.dtw_reference(data)
            measure = DistanceByDTWParallel(workers) if mode == 'parallel' else DistanceByDTW()
            if c.chance(0.3):       # it already has the matrix
                st, _ = sim.in_proc(proc, lambda: measure.compute_distance_matrix(region))
                check(st == 'ok', 'first-calculation-failed', '{!r}', _)

            def calc():
                return np.array(measure.compute_distance_matrix(region))

            def right(got):
                return p01.equal_matrix(got, ref, data)
        else:
            rows = [data[:, i, j] for i in range(x) for j in range(y)]
            ref = np.array([[p01.pair_value(i, j, rows[i], rows[j]) for j in range(x * y)]
                            for i in range(x * y)])
            chunk = c.pick([1, 3, 7, 50])
            task = FailingTask(c.draw(x * y), c.draw(x * y),
                               c.pick(sorted(ERRORS))) \
                if c.chance(0.4) else None

            def calc():
                op = parallel_util.InterPointsOperation(workers, region, chunksize=chunk)
                return np.array(op.operate(holder.get('task') or p01.pair_task))

            def right(got):
                return same(got, ref)
    before = None if measure is None or measure.distance_matrix is None \
        else np.array(measure.distance_matrix)
    describe(sim, what=what, mode=mode, shape=shape, workers=workers,
             task=None if task is None else task.kind)
    kind = None

    def faulty():
        nonlocal kind
        off = None
        if task is not None:
            holder['task'] = task
            kind = 'task'
            sim.fault('task_error', task.kind)
        else:
            kind, off = arm(sim, workers, mode)
        try:
            return calc()
        finally:
            if off is not None:
                off()
            if task is not None:
                holder.clear()
    st, got = sim.in_proc(proc, faulty)
    sim.line_faults = {}
    sim.on_submit = None
    sim.fs.disarm()
    struck = any(k.startswith('fault:') for k in sim.counters)
    if st == 'ok':
        sim.probe('survived')
        check(task is None, 'failed-task-swallowed', 'task failed with {} but the operation '
              'returned a matrix', task.kind if task else '')
        check(right(got), 'incomplete-result-published',
              '{} with fault {} returned\n{}\nexpected\n{}', what, sim.fault_log,
              got if isinstance(got, dict) else short(got),
              ref if isinstance(ref, dict) else short(ref))
    elif st == 'err':
        sim.probe('failed')
        check(struck, 'failed-without-fault', '{!r}', got)
    elif st == 'hang':
        sim.probe('hang')
        check(struck, 'hang-without-fault', '{!r}', got)
    if measure is not None and st != 'hang':
        m = measure.distance_matrix
        if m is not None:
            check(right(np.array(m)), 'incomplete-matrix-stored',
                  'after {} with {} the measure holds\n{}\nexpected\n{}', st, sim.fault_log,
                  short(m), short(ref))
        if st == 'err' and before is not None:
            check(m is not None, 'stored-matrix-lost')
    # again, with the fault gone
    if st == 'hang':
        sim.probe('retry_new_process')
        proc = sim.restart()
        if measure is not None:
            measure = DistanceByDTWParallel(workers)
    else:
        sim.probe('retry_same_process')
    st2, got2 = sim.in_proc(proc, calc)
    check(st2 == 'ok', 'retry-failed', '{}: {!r} after {}', st2, got2, sim.fault_log)
    check(right(got2), 'retry-wrong', 'after {}: got\n{}\nexpected\n{}', sim.fault_log,
          got2 if isinstance(got2, dict) else short(got2),
          ref if isinstance(ref, dict) else short(ref))
    sim.nontrivial = struck
    note_state(sim, what, shape, workers, sorted(set(sim.fault_log)), st)
