'''P01: the parallel distance matrix equals the serial one under every schedule.'''
import numpy as np
from tslearn.metrics import dtw

from spta.distance.dtw import DistanceByDTW
from spta.distance.dtw_parallel import DistanceByDTWParallel
from spta.region.temporal import SpatioTemporalRegion
from spta.util import parallel as parallel_util
from .common import (check, same, short, draw_shape, draw_data, put_nans, memory_layout,
                     metadata, scaled_of, describe, note_state)

ID = 'P01'
RUNS = {'quick': 2400, 'thorough': 40000}
RULE = ('one run = one to four parallel calculations (some at once) over drawn regions with a drawn number of '
        'workers, chunk sizes and schedule; non-trivial = at least two workers took chunks, or '
        'a worker was preempted inside a task')
STATES = 'distinct (shape, workers, assignment of chunks to workers in order of completion)'
REAL = ['spta.util.parallel', 'spta.distance.dtw', 'spta.distance.dtw_parallel', 'spta.region.*',
        'tslearn dtw', 'numpy views of shared memory']
STUB = ['multiprocessing Pool/Array/RawArray/Lock (simulated scheduler, real pickling of tasks)',
        'file system (scratch directory behind a seam)', 'os.getpid']
PROBES = ['two_workers', 'preempted', 'nan_region', 'row_region', 'many_chunks', 'generic',
          'second_op', 'scaled', 'at_once']


def pair_value(i, j, a, b):
    return 1000.0 * i + j + float(np.sum(a)) * 0.5 - float(np.nansum(b * np.arange(len(b))))


def pair_task(region, i, j):
    '''An operation that is not symmetric and not zero on the diagonal.'''
    s = region.as_2d
    return pair_value(i, j, s[i], s[j])


def dtw_reference(data):
    n_s, x, y = data.shape
    rows = [np.array(data[:, i, j], dtype=float) for i in range(x) for j in range(y)]
    n = len(rows)
    out = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            if np.isnan(rows[i]).any() or np.isnan(rows[j]).any():
                d = np.nan
            else:
                d = dtw(rows[i], rows[j])
            out[i, j] = out[j, i] = d
    return out


def equal_matrix(got, ref, data):
    '''The distance of an undefined series to itself is not specified.'''
    got = np.array(got, dtype=float)
    if got.shape != ref.shape:
        return False
    bad = np.isnan(data).any(axis=0).reshape(-1)
    got[bad, bad] = 0
    return same(got, ref)


def draw_region(c, sim, max_points, max_len=6):
    x, y = draw_shape(c, max_points, 7)
    n = c.int(1, max_len)
    data = draw_data(c, n, x, y)
    nans = put_nans(c, data)
    kind = c.draw(4)
    arr = memory_layout(c, data)
    if kind == 3:
        arr = arr.astype(np.float32) if c.chance(0.5) else np.nan_to_num(arr).astype(int)
        data = np.array(arr, dtype=float)
        nans = [p for p in nans if np.isnan(data[:, p[0], p[1]]).any()]
    md = metadata(c, x, y) if c.chance(0.5) else None
    region = SpatioTemporalRegion(arr, region_metadata=md)
    if kind == 2:
        region = scaled_of(region)
        data = np.array(region.as_numpy, dtype=float)
        sim.probe('scaled')
    if nans:
        sim.probe('nan_region')
    if 1 in (x, y) and x * y > 1:
        sim.probe('row_region')
    return region, data


def schedule_probes(sim):
    takes = [e for e in sim.events if ' takes ' in e]
    workers = {e.split()[0] for e in takes}
    if len(workers) > 1:
        sim.probe('two_workers')
        sim.nontrivial = True
    if sim.counters.get('preemptions'):
        sim.probe('preempted')
        sim.nontrivial = True
    if len(takes) > 2:
        sim.probe('many_chunks')
    return takes


class Calculation:
    '''One parallel calculation: what runs, and what must come out of it'''

    def __init__(self, sim, n_op, like=None):
        c = self.c = sim.c
        self.generic = c.draw(3) == 2
        if like is not None:      # other data of the same shape
            self.generic = like.generic
            self.data = draw_data(c, *like.data.shape)
            self.region = SpatioTemporalRegion(self.data.copy())
        else:
            self.region, self.data = draw_region(c, sim, 9 if self.generic else 16)
        self.workers = c.pick([1, 2, 3, 4, 5, 8])
        self.before = self.data.copy()
        self.chunk = c.pick([1, 2, 3, 7, 50])
        describe(sim, op=n_op, generic=self.generic, shape=self.data.shape,
                 workers=self.workers)
        if c.chance(0.3):       # an iteration of the region was abandoned
            next(iter(self.region))
            for _ in iter(self.region):
                pass
        if self.generic:
            sim.probe('generic')
            s, x, y = self.data.shape
            rows = [self.data[:, i, j] for i in range(x) for j in range(y)]
            self.ref = np.array([[pair_value(i, j, rows[i], rows[j]) for j in range(x * y)]
                                 for i in range(x * y)])
        else:
            self.ref = dtw_reference(self.data)

    def run(self):
        if self.generic:
            op = parallel_util.InterPointsOperation(self.workers, self.region,
                                                    chunksize=self.chunk)
            return op.operate(pair_task)
        self.measure = DistanceByDTWParallel(self.workers)
        return self.measure.compute_distance_matrix(self.region)

    def judge(self, st, got):
        if self.generic:
            check(st == 'ok', 'parallel-operation-failed', '{}: {!r}', st, got)
            check(same(got, self.ref), 'parallel-operation-differs',
                  'workers {} chunk {} shape {}\ngot\n{}\nexpected\n{}', self.workers,
                  self.chunk, self.data.shape, short(got), short(self.ref))
        else:
            check(st == 'ok', 'parallel-distances-failed', '{}: {!r}', st, got)
            got = np.asarray(got)
            check(equal_matrix(got, self.ref, self.data), 'parallel-distances-differ',
                  'workers {} shape {}\ngot\n{}\nexpected\n{}', self.workers,
                  self.data.shape, short(got), short(self.ref))
            check(self.measure.distance_matrix is not None and
                  same(self.measure.distance_matrix, got), 'stored-matrix-differs')
            if self.c.chance(0.3):
                serial = np.asarray(DistanceByDTW().compute_distance_matrix(self.region))
                check(equal_matrix(serial, self.ref, self.data), 'serial-distances-differ',
                      'got\n{}\nexpected\n{}', short(serial), short(self.ref))
        check(same(self.region.as_numpy, self.before, 0), 'region-was-changed')


def scenario(sim):
    c = sim.c
    proc = sim.new_proc('main')
    ops = 1 + c.draw(2)
    kept = []
    calc = None
    for n_op in range(ops):
        if n_op:
            sim.probe('second_op')
        calc = Calculation(sim, n_op, calc if calc is not None and c.chance(0.3) else None)
        jobs = [calc]
        sim.worker_preempt = c.pick([0, 0, 3, 8])
        if c.chance(0.2):       # two at a time, in two threads or in two processes
            jobs.append(Calculation(sim, n_op, calc if c.chance(0.5) else None))
            procs = [proc, proc if c.chance(0.6) else sim.new_proc('other')]
            sim.probe('at_once')
            sim.nontrivial = True
            outs = sim.concurrently([(p, j.run) for p, j in zip(procs, jobs)],
                                    preempt=sim.worker_preempt)
        else:
            outs = [sim.in_proc(proc, calc.run)]
        for job, (st, got) in zip(jobs, outs):
            job.judge(st, got)
            kept.append((got, np.array(got)))
        for result, copy in kept:       # results do not change later on
            check(same(result, copy, 0), 'result-was-changed', 'now\n{}\nwas\n{}',
                  short(result), short(copy))
        takes = schedule_probes(sim)
        note_state(sim, calc.data.shape, calc.workers, takes)
