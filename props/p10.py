'''P10: a saved solver is restored exactly, or loading it fails.'''
from spta.distance.dtw import DistanceByDTW
from spta.clustering.factory import ClusteringFactory
from .common import check, fail, describe, note_state
from . import solvers

ID = 'P10'
RUNS = {'quick': 2500, 'thorough': 50000}
RULE = ('one run = solvers with parameters that differ in one or several values are trained, '
        'saved and loaded in a drawn order by several processes, with drawn crashes, disk errors, '
        'exceptions at chosen lines, file damage and partitions cached by others; every answer of '
        'a solver is compared with an independent computation; non-trivial = a fault struck, or a '
        'solver was loaded after others were saved at the same place')
STATES = 'distinct (operations in order with parameters and outcome, faults in order)'
REAL = ['spta.solver', 'spta.model', 'spta.clustering', 'spta.kmedoids', 'spta.region',
        'spta.distance', 'spta.dataset.temp_brazil', 'spta.util', 'numpy', 'tslearn', 'pickle']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'estimators (statsmodels ARIMA, pmdarima auto_arima)', 'dataset (synthetic values)']
PROBES = ['mean', 'knn', 'arima', 'auto', 'scaled', 'unscaled', 'kmedoids', 'regular', 'crashed',
          'disk_error', 'line_error', 'damaged', 'deleted', 'loaded', 'load_failed',
          'load_disk_error', 'not_saved', 'same_place', 'only_test_len', 'only_error',
          'without_medoids', 'no_distances', 'no_dataset', 'model_error', 'concurrent',
          'shared_measure', 'new_process', 'train_failed', 'partition_lost', 'saved_again']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'crash', 'enospc', 'eio_write', 'eio_read', 'emfile', 'eacces',
          'short_write', 'short_read']


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(sim, c.int(1, 3))
        self.cases = solvers.draw_cases(sim, self.targets, c.int(1, 4))
        self.proc = sim.restart('p')
        self.measure = DistanceByDTW()
        self.solvers = {}       # case -> solver in memory
        self.intact = set()     # cases that can be loaded for sure
        self.saved = set()      # cases that were saved at some time
        self.history = []
        for i, a in enumerate(self.cases):
            for b in self.cases[:i]:
                if a.place() == b.place() and a.model.text() == b.model.text():
                    if a.error == b.error:
                        sim.probe('only_test_len')
                    elif a.test_len == b.test_len:
                        sim.probe('only_error')

    def new_measure(self):
        if self.sim.c.chance(0.3):
            self.sim.probe('shared_measure')
            return self.measure
        return DistanceByDTW()

    def restart(self):
        self.proc = self.sim.restart('p')
        self.solvers = {}
        self.measure = DistanceByDTW()

    def spoil(self, case):
        '''Something at the place of this case may have been cut'''
        for o in list(self.intact):
            if o.place() == case.place():
                self.intact.discard(o)

    def ask(self, solver, case, what, queries=2):
        '''Answers, without faults'''
        if not case.t.dataset.intact:
            return
        for _ in range(queries):
            rect, n = case.draw_query(self.sim.c)
            st, got = self.sim.in_proc(self.proc, lambda: solver.predict(rect, n, plot=False))
            check(st == 'ok', 'query-failed', '{} {} {} {}: {!r}', what, case.text(), tuple(rect),
                  n, got)
            st, err = self.sim.in_proc(self.proc, lambda: case.judge(got, rect, n, what))
            if st != 'ok':
                if type(err).__name__ == 'Violation':
                    raise err
                fail('query-failed', '{} {}: {!r}', what, case.text(), err)

    def op_train(self):
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        sim.probe(case.model.kind)
        sim.probe(case.clustering.name)
        sim.probe('scaled' if case.t.scaled else 'unscaled')
        measure = self.new_measure()
        plan = sim.fs.draw_plan(FAULTS, 12, 0.45)
        exc = None
        est = sim.estimators
        est.bad_call = None
        if plan is None and c.chance(0.15):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 1500)
        elif plan is None and c.chance(0.1) and case.model.kind in ('arima', 'auto'):
            est.bad_call = (est.calls + c.int(1, 6), MemoryError('injected'))
        calls = est.bad_call
        sim.fs.arm(plan)
        done = []

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                solver = case.trainer(measure).train(output_home='outputs')
                done.append(solver)
                solver.save()
                return solver
            finally:
                sim.clear_line_fault()
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        model_error = calls is not None and est.bad_call is None
        est.bad_call = None
        if failed:
            sim.probe('disk_error')
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
        if model_error:
            sim.probe('model_error')
        failed = failed or getattr(exc, 'injected', False) or model_error
        self.history.append(('train', case.text(), st))
        if st == 'ok':
            if case in self.saved:
                sim.probe('saved_again')
            if failed:          # an error that was met and dealt with
                self.spoil(case)
            self.ask(got, case, 'trained', 1)
            self.solvers[case] = got
            self.saved.add(case)
            self.intact.add(case)
            return
        self.spoil(case)
        sim.probe('train_failed')
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        elif not failed:
            check(not case.t.ready(), 'train-failed', '{}: {!r}', case.text(), got)
            if not case.t.dataset.intact:
                sim.probe('no_dataset')
            elif not case.t.intact:
                sim.probe('no_distances')
        elif done and c.chance(0.5):
            self.solvers[case] = done[0]
            if case.t.dataset.intact:
                self.ask(done[0], case, 'trained but not saved', 1)

    def op_save(self):
        '''Save again a solver that is in memory'''
        sim, c = self.sim, self.sim.c
        if not self.solvers:
            return self.op_train()
        case = c.pick(sorted(self.solvers, key=lambda o: o.text()))
        solver = self.solvers[case]
        sim.fs.arm(sim.fs.draw_plan(FAULTS, 5, 0.5))
        st, got = sim.in_proc(self.proc, solver.save)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        self.history.append(('save', case.text(), st))
        if failed:
            sim.probe('disk_error')
        if st == 'ok':
            if failed:
                self.spoil(case)
            self.saved.add(case)
            # the partition is not saved with the solver
            return
        self.spoil(case)
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        else:
            check(failed, 'save-failed', '{}: {!r}', case.text(), got)

    def op_load(self):
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        if self.saved and c.chance(0.7):
            case = c.pick(sorted(self.saved, key=lambda o: o.text()))
        if c.chance(0.5):
            self.restart()
            sim.probe('new_process')
        measure = self.new_measure()
        plan = sim.fs.draw_plan(['eio_read', 'short_read', 'emfile', 'eacces', 'crash', 'enospc'],
                                6, 0.25)
        if plan is not None and case not in self.intact:
            # a partition may be written
            self.spoil(case)
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, lambda: case.pickler(measure).load_solver())
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        self.history.append(('load', case.text(), st))
        if failed:
            sim.probe('load_disk_error')
        if st == 'ok':
            sim.probe('loaded')
            if any(o is not case and o.place() == case.place() for o in self.saved):
                sim.probe('same_place')
                sim.nontrivial = True
            self.solvers[case] = got
            self.ask(got, case, 'loaded')
            return
        sim.probe('load_failed')
        if case not in self.saved:
            sim.probe('not_saved')
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
            self.spoil(case)
            return
        if not failed:
            check(case not in self.intact or not case.t.ready(), 'not-loaded', '{}: {!r}',
                  case.text(), got)

    def op_others(self):
        '''Other programs use the same cache of partitions'''
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        if not case.t.ready():
            return
        with_medoids = c.chance(0.3)
        if not with_medoids:
            sim.probe('without_medoids')
        if c.chance(0.5):
            files = [f for f in sim.fs.files() if f.startswith('pickle/') and 'partition' in f]
            if files:
                sim.fs.delete(c.pick(sorted(files)))
                sim.probe('partition_lost')
                sim.nontrivial = True
        measure = self.new_measure()
        st, got = sim.in_proc(self.proc, lambda: ClusteringFactory(measure).instance(
            case.clustering.metadata()).partition(case.t.metadata().create_instance(),
                                                  with_medoids=with_medoids,
                                                  pickle_home='pickle'))
        self.history.append(('others', case.place(), with_medoids, st))
        check(st == 'ok', 'partition-failed', '{}: {!r}', case.text(), got)

    def op_damage(self):
        sim, c = self.sim, self.sim.c
        files = [f for f in sim.fs.files() if f.startswith('pickle/')]
        if not files:
            return
        f = c.pick(sorted(files))
        if c.chance(0.4):
            sim.fs.delete(f)
            sim.probe('deleted')
        else:
            sim.fs.damage(f)
            sim.probe('damaged')
        self.history.append(('damage', f))
        self.intact.clear()

    def op_inputs(self):
        '''The dataset or the distances go and come back'''
        sim, c = self.sim, self.sim.c
        o = c.pick(self.targets + self.datasets)
        lost = [a for a in self.targets + self.datasets if not a.intact]
        if lost and c.chance(0.6):
            o = lost[0]
        if not o.intact:
            o.write()
        else:
            path = o.path if isinstance(o, solvers.Dataset) else o.metadata().distances_filename
            if c.chance(0.5):
                sim.fs.damage(path)
            else:
                sim.fs.delete(path)
            o.intact = False
        self.history.append(('inputs', o.intact))

    def op_concurrent(self):
        '''Training and saving while others load'''
        sim, c = self.sim, self.sim.c
        if not all(t.ready() for t in self.targets):
            return
        first = c.pick(self.cases)
        jobs, what = [], []
        for i in range(c.int(2, 3)):
            case = first if c.chance(0.6) else c.pick(self.cases)
            proc = sim.new_proc('c{}'.format(i))
            measure = DistanceByDTW()
            train = not i or c.chance(0.5)

            def body(case=case, train=train, measure=measure):
                if not train:
                    return case.pickler(measure).load_solver()
                solver = case.trainer(measure).train()
                solver.save()
                return solver
            jobs.append((proc, body))
            what.append((case, train))
        sim.fs.split_writes = True
        plan = sim.fs.draw_plan(['crash_write', 'crash_write', 'enospc', 'eio_write'], 10, 0.4)
        sim.fs.arm(plan)
        outs = sim.concurrently(jobs)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('concurrent')
        sim.nontrivial = True
        for (case, train), (st, got) in zip(what, outs):
            self.history.append(('concurrent', case.text(), train, st))
            if st == 'ok':
                self.ask(got, case, 'trained' if train else 'loaded', 1)
            elif not failed and st == 'err':
                check(not train, 'train-failed', '{}: {!r}', case.text(), got)
            self.spoil(case)
        for (case, train), (st, got) in zip(what, outs):
            if train and st == 'ok' and not failed:
                self.saved.add(case)


OPS = [Run.op_train] * 4 + [Run.op_load] * 4 + [Run.op_save, Run.op_others, Run.op_damage,
                                                Run.op_inputs, Run.op_concurrent]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    if not run.cases:
        return
    for _ in range(c.int(2, 10)):
        c.pick(OPS)(run)
    # in the end, without faults, every solver can be trained, saved and loaded
    for o in run.datasets + run.targets:
        if not o.intact:
            o.write()
    run.restart()
    order = c.shuffle(run.cases)
    for case in order:
        st, got = sim.in_proc(run.proc, lambda: case.trainer(DistanceByDTW()).train().save())
        check(st == 'ok', 'train-failed', 'at the end {}: {!r}', case.text(), got)
    for case in c.shuffle(order):
        run.restart()
        st, got = sim.in_proc(run.proc, lambda: case.pickler(DistanceByDTW()).load_solver())
        check(st == 'ok', 'not-loaded', 'at the end {}: {!r}', case.text(), got)
        run.ask(got, case, 'loaded at the end')
    describe(sim, cases=[o.text() for o in run.cases], history=run.history)
    note_state(sim, run.history, sim.fault_log)
