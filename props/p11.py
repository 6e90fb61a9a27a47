'''P11: a prediction does not depend on the queries asked before it.'''
import numpy as np

from spta.distance.dtw import DistanceByDTW
from spta.region import Region
from .common import check, fail, describe, note_state
from . import solvers

ID = 'P11'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a history of in-sample and out-of-sample queries on one or two solvers, with '
        'failing queries (disk errors, missing dataset, model failures, exceptions at chosen '
        'lines, queries outside of the region) and reloads in between; every answer, at once and '
        'again at the end, is compared with an independent computation; non-trivial = a query '
        'was answered after another one of the same solver')
STATES = 'distinct (queries in order with outcome, faults in order)'
REAL = ['spta.solver', 'spta.model', 'spta.arima', 'spta.clustering', 'spta.region',
        'spta.distance', 'spta.dataset.temp_brazil', 'numpy', 'tslearn', 'pickle']
STUB = ['file system (scratch directory behind a seam)', 'process table',
        'estimators (statsmodels ARIMA, pmdarima auto_arima)', 'dataset (synthetic values)']
PROBES = ['mean', 'knn', 'arima', 'auto', 'scaled', 'unscaled', 'in_sample', 'out_of_sample',
          'failed_query', 'line_error', 'disk_error', 'no_dataset', 'model_failure', 'odd_query',
          'reloaded', 'kept_result', 'after_failure', 'in_after_out', 'out_after_in',
          'iterated_halfway', 'two_solvers', 'longer', 'shorter', 'queried_again']
WARM = True
QUICK_S = 240


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(sim, c.int(1, 2))
        self.cases = solvers.draw_cases(sim, self.targets, c.int(1, 2))
        self.proc = sim.restart('p')
        self.solvers = {}
        self.kept = []              # results that have to stay as they are
        self.last = {}
        self.history = []
        self.measure = DistanceByDTW()
        for case in self.cases:
            sim.probe(case.model.kind)
            sim.probe('scaled' if case.t.scaled else 'unscaled')
            m = self.measure if c.chance(0.5) else DistanceByDTW()
            st, got = sim.in_proc(self.proc, lambda: case.trainer(m).train())
            check(st == 'ok', 'train-failed', '{}: {!r}', case.text(), got)
            self.solvers[case] = got
        if len(self.cases) > 1:
            sim.probe('two_solvers')

    def op_query(self):
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        solver = self.solvers[case]
        rect, n = case.draw_query(c)
        last = self.last.get(case)
        if last is not None and c.chance(0.3):
            rect, n = last[:2]
            sim.probe('queried_again')
        plan = None
        exc = None
        bad = None
        how = c.draw(6)
        if how == 4:
            plan = sim.fs.draw_plan(['eio_read', 'emfile', 'eacces', 'short_read'], 2, 0.8)
        elif how == 5:
            if c.chance(0.5):
                exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
                at = c.small(0, 400)
            else:
                bad = self.fail_forecast(case, solver)
        sim.fs.arm(plan)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return solver.predict(rect, n, plot=False)
            finally:
                sim.clear_line_fault()
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed()) or getattr(exc, 'injected', False)
        if sim.fs.failed():
            sim.probe('disk_error')
        sim.fs.disarm()
        if bad is not None:
            failed = bad() or failed
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
        self.history.append((case.text(), tuple(rect), n, st))
        sim.probe('out_of_sample' if n else 'in_sample')
        if st == 'ok':
            if last is not None:
                sim.nontrivial = True
                sim.probe({(0, 0): 'queried_again', (1, 0): 'in_after_out',
                           (0, 1): 'out_after_in'}.get((int(last[1] > 0), int(n > 0)), 'longer')
                          if not (last[1] and n) else ('longer' if n > last[1] else 'shorter'))
                if last[2] != 'ok':
                    sim.probe('after_failure')
            self.judge(got, case, rect, n, 'at once')
            if c.chance(0.7):
                self.kept.append((got, case, rect, n))
        else:
            sim.probe('failed_query')
            if not failed:
                check(not case.t.dataset.intact, 'query-failed', '{} {} {}: {!r}', case.text(),
                      tuple(rect), n, got)
                sim.probe('no_dataset')
        self.last[case] = rect, n, st

    def fail_forecast(self, case, solver):
        '''A model fails while it makes a forecast'''
        sim = self.sim
        regions = [solver.model_region_training, solver.model_region_whole]
        n = [sim.c.int(0, 4)]
        hit = []
        saved = [r.forecast_from_model for r in regions]

        def failing(real):
            def forecast_from_model(*args, **kwargs):
                n[0] -= 1
                if n[0] < 0:
                    hit.append(1)
                    sim.fault('model_failure')
                    raise np.linalg.LinAlgError('injected')
                return real(*args, **kwargs)
            return forecast_from_model
        # predict() works on a part of the region: patch the class
        classes = {type(r): type(r).__dict__.get('forecast_from_model') for r in regions}
        if any(f is None for f in classes.values()):
            return lambda: False
        for cls, f in classes.items():
            cls.forecast_from_model = failing(f)

        def undo():
            for cls, f in classes.items():
                cls.forecast_from_model = f
            if hit:
                sim.probe('model_failure')
            return bool(hit)
        return undo

    def judge(self, got, case, rect, n, what):
        st, err = self.sim.in_proc(self.proc, lambda: case.judge(got, rect, n, what,
                                                                 self.sim.c.chance(0.5)))
        if st != 'ok':
            if type(err).__name__ == 'Violation':
                raise err
            fail('query-failed', '{} {}: {!r}', what, case.text(), err)

    def op_odd(self):
        '''A query that makes no sense: whatever it gives, the next ones are right'''
        c = self.sim.c
        case = c.pick(self.cases)
        how = c.draw(4)
        rect, n = Region(0, case.t.x, 0, case.t.y), c.pick([0, 2])
        if how == 0:
            rect = Region(0, case.t.x + 2, 0, case.t.y + 1)
        elif how == 1:
            rect = Region(1, 1, 0, 1)
        elif how == 2:
            rect = None
        else:
            n = c.pick([10 ** 4, -1, 2.5]) if case.model.kind == 'knn' else c.pick([-3, 'x', 2.5])
        st, got = self.sim.in_proc(self.proc, lambda: self.solvers[case].predict(rect, n,
                                                                                 plot=False))
        self.sim.probe('odd_query')
        self.history.append((case.text(), 'odd', how, st))
        self.last[case] = (Region(0, 1, 0, 1), 0, 'odd')

    def op_reload(self):
        '''Save and load, in the same process or in another one'''
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        if not case.t.ready():
            return
        st, got = sim.in_proc(self.proc, self.solvers[case].save)
        check(st == 'ok', 'save-failed', '{}: {!r}', case.text(), got)
        m = self.measure if c.chance(0.5) else DistanceByDTW()
        st, got = sim.in_proc(self.proc, lambda: case.pickler(m).load_solver())
        check(st == 'ok', 'not-loaded', '{}: {!r}', case.text(), got)
        self.solvers[case] = got
        self.history.append((case.text(), 'reload'))
        self.last.pop(case, None)
        sim.probe('reloaded')

    def op_dataset(self):
        d = self.sim.c.pick(self.datasets)
        if d.intact:
            (self.sim.fs.delete if self.sim.c.chance(0.5) else self.sim.fs.damage)(d.path)
            d.intact = False
        else:
            d.write()
        self.history.append(('dataset', d.intact))

    def op_iterate(self):
        '''Read part of a result'''
        sim = self.sim
        if not self.kept:
            return
        got, case, rect, n = sim.c.pick(self.kept)
        it = iter(got)
        for _ in range(sim.c.int(0, 3)):
            if next(it, None) is None:
                break
        sim.probe('iterated_halfway')

    def op_again(self):
        if not self.kept:
            return
        self.judge(*self.sim.c.pick(self.kept), what='again')
        self.sim.probe('kept_result')


OPS = [Run.op_query] * 8 + [Run.op_odd, Run.op_reload, Run.op_dataset, Run.op_iterate,
                            Run.op_again]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    if not run.cases:
        return
    for _ in range(c.int(2, 14)):
        c.pick(OPS)(run)
    for d in run.datasets:
        if not d.intact:
            d.write()
    for got, case, rect, n in run.kept:
        run.judge(got, case, rect, n, 'at the end')
    for case in run.cases:
        for n in (0, 1):
            rect = Region(0, case.t.x, 0, case.t.y)
            st, got = sim.in_proc(run.proc, lambda: run.solvers[case].predict(rect, n,
                                                                              plot=False))
            check(st == 'ok', 'query-failed', 'at the end {}: {!r}', case.text(), got)
            run.judge(got, case, rect, n, 'asked at the end')
    describe(sim, cases=[o.text() for o in run.cases], history=run.history)
    note_state(sim, run.history, sim.fault_log)
