'''P06: cached dataset intervals always equal the data extracted from the raw dataset.'''
import calendar
import os

import numpy as np

from spta.dataset import temp_brazil
from spta.region import Region
from spta.region.metadata import SpatioTemporalRegionMetadata
from .common import check, fail, same, short, describe, note_state

ID = 'P06'
RUNS = {'quick': 1400, 'thorough': 30000}
RULE = ('one run = a history of requests for dataset intervals by one process or several at '
        'once, with drawn crashes, disk errors, damaged cache files and missing raw data, each '
        'answer compared with the samples of those years; non-trivial = a fault struck, or two '
        'processes were switched')
STATES = 'distinct (requests in order with their outcomes, faults in order)'
REAL = ['spta.dataset.temp_brazil', 'spta.region.metadata', 'spta.region.scaling', 'h5py', 'numpy']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'the raw dataset (synthetic values, 1979-2015, a few points)']
PROBES = ['one_spd', 'four_spd', 'from_cache', 'damaged', 'concurrent', 'crashed', 'disk_error',
          'instance', 'instance_scaled', 'no_raw', 'several_years', 'leap_year', 'legal_fault',
          'other_name', 'caller_changes_data']
WARM = False
QUICK_S = 200

RAW = {}
RAW_BYTES = {}
SHAPES = [(2, 3), (1, 4), (3, 1)]
YEARS = range(1979, 2016)


def days(year):
    return 366 if calendar.isleap(year) else 365


START = {}
_n = 0
for _y in list(YEARS) + [2016]:
    START[_y] = _n
    _n += 4 * days(_y)
TOTAL = START[2016]


def prepare():
    '''The raw datasets, once.'''
    import io
    import h5py
    for i, (x, y) in enumerate(SHAPES):
        rs = np.random.RandomState(77 + i)
        t = np.arange(TOTAL).reshape(-1, 1, 1)
        data = 20 + 10 * np.sin(t / 232.0 + rs.uniform(0, 6, (1, x, y))) + \
            rs.uniform(-5, 5, (TOTAL, x, y))
        data = data.astype(np.float32)
        buf = io.BytesIO()
        with h5py.REAL_FILE(buf, 'w') as f:
            f['real'] = data
        RAW[x, y] = data
        RAW_BYTES[x, y] = buf.getvalue()


def put_raw(sim, shape):
    with sim.fs.quiet():
        os.makedirs('raw', exist_ok=True)
        with open(temp_brazil.RAW_DATASET, 'wb') as f:
            f.write(RAW_BYTES[shape])


def reference(shape, y1, y2, spd):
    data = RAW[shape][START[y1]:START[y2 + 1]]
    if spd == 4:
        return data
    x, y = shape
    return data.astype(float).reshape(-1, 4, x, y).mean(axis=1)


class Request:
    def __init__(self, sim, shape, pool):
        c = sim.c
        self.y1, self.y2, self.spd, self.how = c.pick(pool)
        self.shape = shape
        self.spoil = c.chance(0.4)
        if self.spoil:
            sim.probe('caller_changes_data')
        if self.how == 2:
            x, y = shape
            x1, y1 = c.draw(x), c.draw(y)
            self.region = Region(x1, c.int(x1 + 1, x), y1, c.int(y1 + 1, y))
            self.scaled = c.chance(0.4)
        sim.probe('one_spd' if self.spd == 1 else 'four_spd')
        if self.y2 > self.y1:
            sim.probe('several_years')
        if any(calendar.isleap(y) for y in range(self.y1, self.y2 + 1)):
            sim.probe('leap_year')
        if self.how == 1:
            sim.probe('other_name')
        if self.how == 2:
            sim.probe('instance_scaled' if self.scaled else 'instance')

    def __call__(self):
        if self.how == 0:
            data = temp_brazil.retrieve_dataset_interval(self.y1, self.y2, self.spd)
        elif self.how == 1:
            data = temp_brazil.retrieve_dataset_interval(self.y1, self.y2, self.spd,
                                                         name='Other')
        else:
            md = SpatioTemporalRegionMetadata('sub', self.region, self.y1, self.y2, self.spd,
                                              scaled=self.scaled)
            data = md.create_instance().as_numpy
        got = np.array(data)
        if self.spoil and isinstance(data, np.ndarray) and data.flags.writeable:
            data *= 0           # the caller does what it wants with its data
        return got

    def ref(self):
        data = reference(self.shape, self.y1, self.y2, self.spd)
        if self.how == 2:
            r = self.region
            data = data[:, r.x1:r.x2, r.y1:r.y2]
            if self.scaled:
                lo, hi = data.min(axis=0), data.max(axis=0)
                data = (data - lo) / (hi - lo)
        return data

    def right(self, got):
        return same(got, self.ref(), 1e-4)

    def __repr__(self):
        return '{}-{}/{}{}'.format(self.y1, self.y2, self.spd, ['', ':other', ':region'][self.how])


def judge(sim, req, outcome, allowed, what):
    st, got = outcome
    if st == 'ok':
        if not req.right(got):
            ref = req.ref()
            if np.shape(got) != ref.shape:
                fail('wrong-data', '{} {}: shape {} expected {}', what, req, np.shape(got),
                     ref.shape)
            bad = np.argwhere(~np.isclose(got, ref, atol=1e-4))
            fail('wrong-data', '{} {}: {} wrong samples, first at {}: {} expected {}', what, req,
                 len(bad), bad[0], got[tuple(bad[0])], ref[tuple(bad[0])])
    elif st == 'err':
        check(allowed, 'failed-without-fault', '{} {}: {!r}', what, req, got)
    elif st == 'hang':
        fail('hang', '{} {}', what, req)


def cache_files(sim):
    return [f for f in sim.fs.files() if f != temp_brazil.RAW_DATASET]


def scenario(sim):
    c = sim.c
    shape = c.pick(SHAPES)
    put_raw(sim, shape)
    pool = []
    for _ in range(c.int(1, 3)):
        y1 = c.pick([1979, 1980, 1999, 2000, 2014, 2015, 1984, 1991])
        y2 = min(y1 + c.pick([0, 0, 0, 1, 2]), 2015)
        spd = c.pick([1, 4])
        pool.append((y1, y2, spd, c.pick([0, 0, 1, 2])))
        if c.chance(0.5):       # neighbours that could be confused
            pool.append((y1, y2, 5 - spd, 0))
        if c.chance(0.3):
            pool.append((y1, min(y1 + 1, 2015), spd, 0))
    proc = sim.new_proc('p0')
    history = []
    n_proc = 0
    for step in range(c.int(1, 6)):
        how = c.draw(6)
        if how in (0, 1, 2):        # one process
            req = Request(sim, shape, pool)
            plan = sim.fs.draw_plan(['crash', 'crash_write', 'enospc', 'eio_write', 'eio_read',
                                     'emfile', 'eacces', 'short_write', 'short_read'], 6, 0.5)
            sim.fs.arm(plan)
            out = sim.in_proc(proc, req)
            failed = sim.fs.failed()
            legal = [k for k in sim.fs.fired() if k not in failed]
            sim.fs.disarm()
            if legal:
                sim.probe('legal_fault')
            judge(sim, req, out, bool(failed), 'request')
            if out[0] == 'crash':
                sim.probe('crashed')
                proc = sim.restart('p')
            elif failed:
                sim.probe('disk_error')
            history.append((repr(req), out[0]))
        elif how == 3:              # damage to cache files
            files = cache_files(sim)
            if files:
                f = c.pick(files)
                kind = sim.fs.damage(f)
                sim.probe('damaged')
                history.append((f, kind))
        elif how == 4:              # several processes at once
            sim.probe('concurrent')
            sim.fs.split_writes = True
            sub = pool if c.chance(0.4) else [c.pick(pool)]
            reqs = [Request(sim, shape, sub) for _ in range(c.int(2, 3))]
            procs = []
            for _ in reqs:
                n_proc += 1
                procs.append(sim.new_proc('c{}'.format(n_proc)))
            plan = sim.fs.draw_plan(['crash', 'crash_write', 'crash_write', 'enospc',
                                     'eio_write', 'emfile'], 10, 0.6)
            sim.fs.arm(plan)
            outs = sim.concurrently(list(zip(procs, reqs)))
            failed = sim.fs.failed()
            sim.fs.disarm()
            sim.fs.split_writes = False
            for req, out in zip(reqs, outs):
                judge(sim, req, out, bool(failed), 'concurrent request')
                history.append((repr(req), out[0]))
                if out[0] == 'crash':
                    sim.probe('crashed')
            sim.nontrivial = True
        else:                       # the raw data is not there: from the cache, or an error
            req = Request(sim, shape, pool)
            with sim.fs.quiet():
                os.rename(temp_brazil.RAW_DATASET, 'hidden.hdf')
            out = sim.in_proc(proc, req)
            with sim.fs.quiet():
                os.rename('hidden.hdf', temp_brazil.RAW_DATASET)
            sim.probe('no_raw')
            judge(sim, req, out, True, 'without raw data')
            if out[0] == 'ok':
                sim.probe('from_cache')
            history.append((repr(req), 'noraw ' + out[0]))
    # no more faults: every request is answered, and then from the cache
    proc = sim.restart('last')
    for params in sorted(set(pool)):
        req = Request(sim, shape, [params])
        judge(sim, req, sim.in_proc(proc, req), False, 'last request')
        with sim.fs.quiet():
            os.rename(temp_brazil.RAW_DATASET, 'hidden.hdf')
        out = sim.in_proc(sim.restart('cached'), req)
        with sim.fs.quiet():
            os.rename('hidden.hdf', temp_brazil.RAW_DATASET)
        judge(sim, req, out, False, 'cached request')
    describe(sim, shape=shape, history=history)
    note_state(sim, history, sim.fault_log)
