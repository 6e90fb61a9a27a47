'''P12: a prediction report that was saved without error is complete and correct.'''
import copy

import numpy as np

from spta.distance.dtw import DistanceByDTW
from .common import check, fail, describe, note_state
from . import solvers

ID = 'P12'
RUNS = {'quick': 3000, 'thorough': 60000}
RULE = ('one run = a history of prediction queries whose reports are saved, in a drawn order and '
        'repeatedly, with drawn crashes, disk errors and exceptions at chosen lines, by processes '
        'that print numbers in different ways; every report on disk is compared with an '
        'independent computation after every operation; non-trivial = a fault struck, or a report '
        'was saved next to others')
STATES = 'distinct (operations in order with outcome, faults in order)'
REAL = ['spta.solver', 'spta.model', 'spta.clustering', 'spta.region', 'spta.distance',
        'spta.util', 'numpy', 'tslearn', 'csv']
STUB = ['file system (scratch directory behind a seam)', 'process table',
        'estimators (statsmodels ARIMA, pmdarima auto_arima)', 'dataset (synthetic values)']
PROBES = ['in_sample', 'out_of_sample', 'saved', 'saved_again', 'save_failed', 'crashed',
          'disk_error', 'line_error', 'after_failure', 'print_options', 'long_series',
          'other_home', 'iterated_halfway', 'clustered_between', 'single_point', 'two_solvers',
          'reloaded', 'legal_fault', 'asked_again', 'concurrent']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'crash', 'enospc', 'eio_write', 'emfile', 'eacces', 'short_write']
DEFAULT_PRINT = dict(edgeitems=3, threshold=1000, floatmode='maxprec', precision=8,
                     suppress=False, linewidth=75, nanstr='nan', infstr='inf', sign='-',
                     formatter=None)


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.datasets, self.targets = solvers.draw_targets(sim, c.int(1, 2))
        self.cases = solvers.draw_cases(sim, self.targets, c.int(1, 2))
        self.solvers = {}
        self.results = []           # (result, case, rect, n, home)
        self.reports = {}           # key -> paths of rows and summary
        self.pending = set()        # keys whose last save failed
        self.history = []
        self.restart()
        if len(self.cases) > 1:
            sim.probe('two_solvers')

    def restart(self):
        sim, c = self.sim, self.sim.c
        self.proc = sim.restart('p')
        self.results = []
        for case in self.cases:
            def body():
                if case in self.solvers:
                    sim.probe('reloaded')
                    return case.pickler(DistanceByDTW()).load_solver()
                solver = case.trainer(DistanceByDTW()).train()
                solver.save()
                return solver
            st, got = sim.in_proc(self.proc, body)
            check(st == 'ok', 'no-solver', '{}: {!r}', case.text(), got)
            self.solvers[case] = got

    # --- what is on disk
    def rows_equal(self, path, case, rect, n):
        got = solvers.read_rows(self.sim, path)
        if not got:
            return False
        head = ['Point', 'cluster_index', 'error', 'forecast_series'] + \
            (['test_series'] if n == 0 else [])
        want = case.rows(rect, n)
        if got[0] != head or len(got) != len(want) + 1:
            return False
        for row, (coords, label, error, forecast, test) in zip(got[1:], want):
            try:
                if len(row) != len(head) or point_of(row[0]) != coords or \
                        row[1] != str(label) or not solvers.near(row[2], error):
                    return False
            except ValueError:
                return False
            if not solvers.series_equal(row[3], forecast):
                return False
            if test is not None and not solvers.series_equal(row[4], test):
                return False
        return True

    def summary_equal(self, path, case, rect):
        got = solvers.read_rows(self.sim, path)
        if not got or len(got) != 2 or len(got[0]) != len(got[1]):
            return False
        try:
            case.judge_summary(dict(zip(*got)), rect, path)
        except Exception:
            return False
        return True

    def text_of(self, path):
        data = self.sim.fs.read(path)
        return None if data is None else data.decode('utf-8', 'replace')[:600]

    def check_others(self, *saved):
        key = saved[0] if saved else None
        for k, (rows, summary) in self.reports.items():
            if k not in saved:
                case, rect, n, home = k
                check(self.rows_equal(rows, case, rect, n), 'report-changed', '{} after {}: {}',
                      rows, key and (key[0].text(),) + key[1:], self.text_of(rows))
                check(self.summary_equal(summary, case, rect), 'report-changed',
                      '{} after {}: {}', summary, key and (key[0].text(),) + key[1:],
                      self.text_of(summary))

    def check_saved(self, key, what):
        case, rect, n, home = key
        if key not in self.reports:
            # the files that are not of other queries
            owned = {p for pair in self.reports.values() for p in pair}
            files = sorted(f for f in self.sim.fs.files()
                           if f.startswith(home + '/') and f.endswith('.csv') and f not in owned)
            rows = [f for f in files if self.rows_equal(f, case, rect, n)]
            check(rows, 'no-report', '{}: {}', what,
                  [(f, self.text_of(f)) for f in files if 'result' in f][:2])
            summaries = [f for f in files if self.summary_equal(f, case, rect)]
            # of several equal ones, the one that has most in common with the rows
            check(summaries, 'no-summary', '{}: {}', what,
                  [(f, self.text_of(f)) for f in files if 'summary' in f][:2])
            best = max(summaries, key=lambda f: (common(f, rows[0]), f))
            self.reports[key] = rows[0], best
        rows, summary = self.reports[key]
        check(self.rows_equal(rows, case, rect, n), 'bad-report', '{}: {}', what,
              self.text_of(rows))
        check(self.summary_equal(summary, case, rect), 'bad-summary', '{}: {}', what,
              self.text_of(summary))

    # --- operations
    def op_query(self):
        sim, c = self.sim, self.sim.c
        case = c.pick(self.cases)
        rect, n = case.draw_query(c, long_ones=True)
        home = c.pick(['outputs', 'outputs', 'else/where'])
        if self.reports and c.chance(0.3):
            case, rect, n, home = c.pick(sorted(self.reports, key=lambda k: (
                k[0].text(),) + k[1:]))
            sim.probe('asked_again')
        if n >= 1000:
            sim.probe('long_series')
        if home != 'outputs':
            sim.probe('other_home')
        if (rect.x2 - rect.x1) * (rect.y2 - rect.y1) == 1:
            sim.probe('single_point')
        sim.probe('out_of_sample' if n else 'in_sample')
        st, got = sim.in_proc(self.proc, lambda: self.solvers[case].predict(
            rect, n, output_home=home, plot=False))
        check(st == 'ok', 'query-failed', '{}: {!r}', case.text(), got)
        self.results.append((got, case, rect, n, home))
        self.history.append(('query', case.text(), tuple(rect), n, home))
        if c.chance(0.3):
            self.op_save(self.results[-1])

    def op_save(self, result=None, faults=True):
        sim, c = self.sim, self.sim.c
        if not self.results:
            return self.op_query()
        got, case, rect, n, home = result or c.pick(self.results)
        key = case, rect, n, home
        plan = sim.fs.draw_plan(FAULTS, 10, 0.5) if faults else None
        exc = None
        if plan is None and faults and c.chance(0.2):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 300)
        sim.fs.arm(plan)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                got.save_as_csv()
            finally:
                sim.clear_line_fault()
        st, err = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed()) or getattr(exc, 'injected', False)
        if sim.fs.fired() and not failed:
            sim.probe('legal_fault')
        if sim.fs.failed():
            sim.probe('disk_error')
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
        sim.fs.disarm()
        what = '{} {} forecast {} at {}'.format(case.text(), tuple(rect), n, home)
        self.history.append(('save', case.text(), tuple(rect), n, home, st))
        self.check_others(key)
        if st == 'ok':
            if len(self.reports) > (key in self.reports):
                sim.nontrivial = True
            sim.probe('saved_again' if key in self.reports else 'saved')
            if key in self.pending:
                sim.probe('after_failure')
            self.check_saved(key, what)
            self.pending.discard(key)
            return
        sim.probe('save_failed')
        self.pending.add(key)
        self.reports.pop(key, None)
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        else:
            check(failed, 'save-failed', '{}: {!r}', what, err)

    def op_concurrent(self):
        '''Results of different queries saved by different processes at once'''
        sim, c = self.sim, self.sim.c
        todo = {}
        for result in self.results:
            todo[result[1:]] = result
        if len(todo) < 2:
            return self.op_query()
        keys = sorted(todo, key=lambda k: (k[0].text(),) + k[1:])
        first = c.pick(keys)
        near = [k for k in keys if k != first and k[0] is first[0] and k[1] == first[1]] or \
            [k for k in keys if k != first]
        chosen = [first, c.pick(near)]
        if len(keys) > 2 and c.chance(0.3):
            chosen.append(c.pick([k for k in keys if k not in chosen]))
        plan = sim.fs.draw_plan(['crash', 'enospc', 'eio_write'], 10, 0.25)
        jobs = [(sim.new_proc('c{}'.format(i)), copy.deepcopy(todo[k][0]).save_as_csv)
                for i, k in enumerate(chosen)]
        sim.fs.split_writes = True
        sim.fs.arm(plan)
        outs = sim.concurrently(jobs)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('concurrent')
        sim.nontrivial = True
        self.check_others(*chosen)
        for key, (st, err) in zip(chosen, outs):
            case, rect, n, home = key
            what = '{} {} forecast {} at {} with others'.format(case.text(), tuple(rect), n, home)
            self.history.append(('save', case.text(), tuple(rect), n, home, st))
            if st == 'ok':
                self.check_saved(key, what)
                self.pending.discard(key)
            else:
                self.pending.add(key)
                self.reports.pop(key, None)
                check(failed, 'save-failed', '{}: {!r}', what, err)

    def op_print(self):
        '''Other code in the process changes how numbers are printed'''
        c = self.sim.c
        options = c.pick([
            dict(precision=1), dict(threshold=2), dict(linewidth=30), dict(suppress=True),
            dict(formatter={'float': lambda x: '{:.1f}'.format(x)}), dict(sign='+'),
            dict(threshold=3, edgeitems=1, precision=2), DEFAULT_PRINT])
        self.sim.in_proc(self.proc, lambda: np.set_printoptions(**options))
        self.sim.probe('print_options')
        self.history.append(('print',))

    def op_iterate(self):
        if self.results:
            it = iter(self.sim.c.pick(self.results)[0])
            for _ in range(self.sim.c.int(0, 3)):
                if next(it, None) is None:
                    break
            self.sim.probe('iterated_halfway')

    def op_cluster(self):
        '''The region is clustered again in the same process'''
        c = self.sim.c
        case = c.pick(self.cases)
        st, got = self.sim.in_proc(self.proc, lambda: case.trainer(DistanceByDTW()).train())
        check(st == 'ok', 'no-solver', '{}: {!r}', case.text(), got)
        self.sim.probe('clustered_between')


def point_of(cell):
    '''Coordinates in a cell: Point(x=1, y=2)'''
    import re
    return tuple(int(v) for v in re.findall(r'-?\d+', cell))


def common(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    m = 0
    while m < min(len(a), len(b)) and a[-1 - m] == b[-1 - m]:
        m += 1
    return n + m


OPS = [Run.op_query] * 4 + [Run.op_save] * 5 + [Run.op_concurrent] * 2 + [Run.op_print,
                                                Run.op_iterate, Run.op_cluster]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    if not run.cases:
        return
    for _ in range(c.int(2, 14)):
        c.pick(OPS)(run)
        if c.chance(0.05):
            run.restart()
    run.check_others()
    for result in run.results[-4:]:
        run.op_save(result, faults=False)
    run.check_others()
    describe(sim, cases=[o.text() for o in run.cases], history=run.history)
    note_state(sim, run.history, sim.fault_log)
