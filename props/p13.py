'''P13: a region that was saved can be restored exactly.'''
import os

import numpy as np

from spta.model.train import SplitTrainingAndTestLast
from spta.region import Point, Region, TimeInterval
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.partition import PartitionRegionCrisp
from spta.region.scaling import ScaleFunction, SpatioTemporalScaled
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from sim.kernel import Violation
from .common import (check, fail, same, short, draw_shape, draw_data, memory_layout, describe,
                     note_state, draw_partition)

ID = 'P13'
RUNS = {'quick': 5000, 'thorough': 100000}
RULE = ('one run = a history of scaling, cutting, splitting, clustering, descaling, saving and '
        'reading back a family of regions, with drawn crashes, disk errors and exceptions at '
        'chosen lines; each region is compared with a model after each step; non-trivial = a '
        'region was read back, or a fault struck')
STATES = 'distinct (steps in order with outcome, faults in order)'
REAL = ['spta.region', 'spta.model.train (splitting)', 'spta.util.fs', 'numpy', 'pickle']
STUB = ['file system (scratch directory behind a seam)', 'process table',
        'dataset (synthetic values)']
PROBES = ['scale', 'scale_again', 'rect', 'interval', 'both', 'split', 'cluster', 'descale',
          'descale_cluster', 'save', 'pickle', 'pickle_to', 'save_to', 'load', 'load_pickle',
          'load_scaled', 'saved_again',
          'crashed', 'disk_error', 'line_error', 'load_error', 'missing_values',
          'constant_series', 'other_data', 'repaired', 'no_metadata', 'scaled_cut', 'walk_cut',
          'own_metadata', 'cut_of_cluster', 'scale_cluster', 'repeat']
WARM = False
QUICK_S = 200
FAULTS = ['crash', 'crash', 'crash', 'enospc', 'eio_write', 'emfile', 'eacces', 'short_write']


class Item:
    '''A region; its values; what each descaling gives; its members'''

    def __init__(self, region, now, stack, member):
        self.region, self.now, self.stack, self.member = region, now, stack, member

    @property
    def cluster(self):
        return not self.member.all()

    def model(self):
        return self.now, self.stack, self.member


def scaled_values(a):
    lo, hi = np.min(np.where(np.isnan(a), np.inf, a), axis=0), \
        np.max(np.where(np.isnan(a), -np.inf, a), axis=0)
    with np.errstate(all='ignore'):
        return np.where(hi > lo, (a - lo) / (hi - lo), a * 0)


class Run:
    def __init__(self, sim):
        self.sim = sim
        self.proc = sim.restart('p')
        self.files = {}         # ('save' | 'pickle' | ..., path) -> possible contents
        self.places = {}        # dataset file -> the metadata that first named it
        self.history = []
        self.items = []
        with sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
            os.makedirs('own', exist_ok=True)
        self.names = 0
        for _ in range(sim.c.int(1, 2)):
            self.items.append(self.base())

    def new_md(self, x, y, scaled):
        self.names += 1
        c = self.sim.c
        x1, y1 = c.int(0, 9), c.int(0, 9)
        return SpatioTemporalRegionMetadata('r{}'.format(self.names),
                                            Region(x1, x1 + x, y1, y1 + y), 2000, 2000, 1,
                                            scaled=scaled)

    def base(self, md=None, shape=None):
        c = self.sim.c
        x, y = shape or draw_shape(c, 12, 4)
        n = c.int(2, 7)
        data = draw_data(c, n, x, y)
        if c.chance(0.3):
            for _ in range(c.int(1, 3)):
                i, j = c.draw(x), c.draw(y)
                how = c.draw(4)
                if how == 0:
                    data[:, i, j] = np.nan
                elif how == 1:
                    data[c.draw(n), i, j] = np.nan
                    self.sim.probe('missing_values')
                else:
                    data[:, i, j] = data[0, i, j]
                    self.sim.probe('constant_series')
                    if how == 3:
                        data[c.draw(n), i, j] = np.nan
        if md is None and c.chance(0.8):
            md = self.new_md(x, y, c.chance(0.7))
        region = SpatioTemporalRegion(memory_layout(c, data), region_metadata=md)
        return Item(region, data, [], np.ones((x, y), dtype=bool))

    # --- checks
    def judge(self, region, model, what):
        now, stack, member = model
        check(region.shape == now.shape, 'shape', '{}: {} expected {}', what, region.shape,
              now.shape)
        check(bool(region.has_scaling()) == bool(stack), 'has-scaling', '{}: {} expected {}',
              what, region.has_scaling(), bool(stack))
        for i, j in zip(*np.nonzero(member)):
            p = Point(int(i), int(j))
            check(same(region.series_at(p), now[:, i, j], 1e-8), 'series', '{} at {}: {} '
                  'expected {}', what, p, short(region.series_at(p)), short(now[:, i, j]))
        walked = [(int(p.x), int(p.y)) for p, _ in region]
        want = [(int(i), int(j)) for i, j in zip(*np.nonzero(member))]
        check(walked == want, 'members', '{}: {} expected {}', what, walked, want)

    def judge_down(self, region, model, what):
        '''The region, and everything that descaling it gives'''
        self.judge(region, model, what)
        now, stack, member = model
        while stack:
            region = region.descale()
            now, stack = stack[-1], stack[:-1]
            what += ', descaled'
            self.judge(region, (now, stack, member), what)

    def matches(self, region, model):
        try:
            self.judge_down(region, model, '')
            return True
        except Violation:
            return False

    def add(self, item, what):
        st, err = self.sim.in_proc(self.proc, lambda: self.judge_down(item.region, item.model(),
                                                                      what))
        if st != 'ok':
            if isinstance(err, Violation):
                raise err
            fail('failed', '{}: {!r}', what, err)
        self.items.append(item)
        if len(self.items) > 9:
            self.items.pop(self.sim.c.draw(len(self.items)))

    def step(self, what, fn):
        '''Run in the process, perhaps with an exception at some line. None if it was injected'''
        sim, c = self.sim, self.sim.c
        exc = None
        if c.chance(0.1):
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 80)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return fn()
            finally:
                sim.clear_line_fault()
        st, got = sim.in_proc(self.proc, body)
        self.history.append((what, st))
        if st != 'ok':
            if getattr(exc, 'injected', False):
                sim.probe('line_error')
                return None
            fail('failed', '{}: {!r}', what, got)
        return got

    # --- steps in memory
    def op_scale(self):
        o = self.sim.c.pick(self.items)
        if len(o.stack) > 1:
            return
        n, x, y = o.region.shape
        got = self.step('scale', lambda: ScaleFunction(x, y).apply_to(o.region, n))
        if got is not None:
            self.sim.probe('scale_again' if o.stack else 'scale')
            if o.cluster:
                self.sim.probe('scale_cluster')
            self.add(Item(got, scaled_values(o.now), o.stack + [o.now], o.member), 'scaled')

    def op_descale(self):
        items = [o for o in self.items if o.stack]
        if not items:
            return self.op_scale()
        o = self.sim.c.pick(items)
        got = self.step('descale', lambda: o.region.descale())
        if got is not None:
            self.sim.probe('descale_cluster' if o.cluster else 'descale')
            self.add(Item(got, o.stack[-1], o.stack[:-1], o.member), 'descaled')

    def draw_cut(self, o):
        c = self.sim.c
        n, x, y = o.now.shape
        x1, y1, t1 = c.draw(x), c.draw(y), c.draw(n)
        return (Region(x1, c.int(x1 + 1, x), y1, c.int(y1 + 1, y)),
                TimeInterval(t1, c.int(t1 + 1, n)))

    def cut_model(self, o, rect, ti):
        a = (slice(None) if ti is None else slice(ti.t1, ti.t2),) + (
            (slice(None), slice(None)) if rect is None else
            (slice(rect.x1, rect.x2), slice(rect.y1, rect.y2)))
        return o.now[a], [s[a] for s in o.stack], o.member[a[1:]]

    def op_cut(self):
        sim, c = self.sim, self.sim.c
        o = c.pick(self.items)
        rect, ti = self.draw_cut(o)
        how = c.draw(3)
        if o.cluster and how != 1:
            # not supported: an error, not something else
            sim.probe('cut_of_cluster')
            st, got = sim.in_proc(self.proc, lambda: (
                o.region.region_subset(rect) if how == 0 else o.region.subset(rect, ti)))
            if st == 'ok':
                now, stack, member = self.cut_model(o, rect, None if how == 0 else ti)
                self.add(Item(got, now, stack, member), 'cluster cut by {}'.format(rect))
            return
        if how == 0:
            ti = None
            got = self.step('rect', lambda: o.region.region_subset(rect))
        elif how == 1:
            rect = None
            got = self.step('interval', lambda: o.region.interval_subset(ti))
        else:
            got = self.step('both', lambda: o.region.subset(rect, ti))
        if got is None:
            return
        sim.probe(['rect', 'interval', 'both'][how])
        if o.stack:
            sim.probe('scaled_cut')
        self.add(Item(got, *self.cut_model(o, rect, ti)), 'cut by {} {}'.format(rect, ti))

    def op_split(self):
        c = self.sim.c
        o = c.pick(self.items)
        n = o.now.shape[0]
        if n < 2:
            return
        m = c.int(1, n - 1)
        got = self.step('split', lambda: SplitTrainingAndTestLast(m).split(o.region))
        if got is not None:
            self.sim.probe('split')
            for r, ti in zip(got, (TimeInterval(0, n - m), TimeInterval(n - m, n))):
                self.add(Item(r, *self.cut_model(o, None, ti)), 'split at {}'.format(m))

    def op_cluster(self):
        c = self.sim.c
        items = [o for o in self.items if not o.cluster]
        if not items:
            return
        o = c.pick(items)
        _, x, y = o.now.shape
        k, m = draw_partition(c, x, y)
        if k == 1:
            return
        part = PartitionRegionCrisp.from_membership_array(m, x, y)
        idx = c.draw(k)
        got = self.step('cluster', lambda: part.create_spt_cluster(o.region, idx))
        if got is not None:
            self.sim.probe('cluster')
            self.add(Item(got, o.now, o.stack, m.reshape(x, y) == idx), 'cluster')

    def op_repeat(self):
        '''A region of the same form, with other values'''
        o = self.sim.c.pick(self.items)
        if o.stack:
            return
        i, j = self.sim.c.pick([(int(a), int(b)) for a, b in zip(*np.nonzero(o.member))])
        got = self.step('repeat', lambda: o.region.repeat_point(Point(i, j)))
        if got is not None:
            self.sim.probe('repeat')
            now = np.repeat(o.now[:, i, j], o.member.size).reshape(o.now.shape)
            self.add(Item(got, now, [], o.member), 'repeated')

    def op_walk(self):
        o = self.sim.c.pick(self.items)
        it = iter(o.region)
        for _ in range(self.sim.c.int(1, 3)):
            if next(it, None) is None:
                break
        self.sim.probe('walk_cut')

    def op_other(self):
        '''Other data under the same metadata: the dataset has changed'''
        c = self.sim.c
        items = [o for o in self.items if o.region.region_metadata is not None and
                 not o.cluster]
        if not items:
            return
        o = c.pick(items)
        self.items.append(self.base(o.region.region_metadata, o.now.shape[1:]))
        self.sim.probe('other_data')
        self.history.append(('other',))

    def op_own(self):
        '''A cut gets metadata of its own'''
        c = self.sim.c
        items = [o for o in self.items if not o.cluster and len(o.stack) < 2]
        if not items:
            return
        o = c.pick(items)
        o.region.region_metadata = self.new_md(o.now.shape[1], o.now.shape[2], bool(o.stack))
        self.sim.probe('own_metadata')
        self.history.append(('own',))

    # --- files
    def op_save(self, o=None, how=None, p=0.5):
        sim, c = self.sim, self.sim.c
        o = o or c.pick(self.items)
        md = o.region.region_metadata
        how = how or c.pick(['save', 'save', 'pickle', 'pickle_to', 'save_to'])
        if how == 'save' and o.cluster:
            how = 'pickle_to'
        if how in ('save', 'pickle') and md is None:
            st, got = sim.in_proc(self.proc, getattr(o.region, how))
            check(st == 'err', 'saved-nowhere', '{}: {}', how, st)
            sim.probe('no_metadata')
            return
        if md is not None:
            # a region read back from a pickle has metadata of its own: the files are the same
            md = self.places.setdefault(md.dataset_filename, md)
        home = c.pick(['pickle', 'else/where'])
        if how == 'save':
            key, call = ('save', md), o.region.save
            model = o.now, o.stack[-1:], o.member
        elif how == 'pickle':
            key, call = ('pickle', md, home), lambda: o.region.pickle(home)
            model = o.model()
        else:
            path = 'own/{}.{}'.format(c.draw(2), 'npy' if how == 'save_to' else 'pkl')
            key = (how, path)
            call = lambda: getattr(o.region, how)(path)    # noqa
            model = o.model() if how == 'pickle_to' else (o.now, [], o.member)
        plan = sim.fs.draw_plan(FAULTS, 8, p)
        sim.fs.arm(plan)
        st, got = sim.in_proc(self.proc, call)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        self.history.append((how, len(o.stack), st))
        if failed:
            sim.probe('disk_error')
        if st == 'ok':
            sim.probe(how)
            if key in self.files and self.files[key][0]:
                sim.probe('repaired')
            self.files[key] = (False, [model])
            return
        cut, old = self.files.get(key, (True, []))
        self.files[key] = (True, old + [model])
        if st == 'crash':
            sim.probe('crashed')
            self.crash()
        else:
            check(failed, 'save-failed', '{}: {!r}', how, got)

    def crash(self):
        '''Only what was saved is left, and what can be made again'''
        self.proc = self.sim.restart('p')
        old = [o.region.region_metadata for o in self.items]
        self.items = [self.base()]
        if old and old[0] is not None and self.sim.c.chance(0.5):
            md = old[0]
            self.items.append(self.base(md, (md.x_len, md.y_len)))

    def op_again(self):
        '''The same dataset, twice with other data, the second time perhaps cut short'''
        sim, c = self.sim, self.sim.c
        x, y = draw_shape(c, 6, 3)
        md = self.new_md(x, y, True)
        n = c.int(2, 5)
        for p in (0, 0.9):
            data = draw_data(c, n, x, y)
            region = SpatioTemporalRegion(data, region_metadata=md)
            st, got = sim.in_proc(self.proc, lambda: ScaleFunction(x, y).apply_to(region, n))
            check(st == 'ok', 'failed', 'scaling: {!r}', got)
            self.op_save(Item(got, scaled_values(data), [data], np.ones((x, y), dtype=bool)),
                         'save', p)
        sim.probe('saved_again')
        self.op_load(('save', md))

    def op_load(self, key=None):
        sim, c = self.sim, self.sim.c
        if not self.files:
            return self.op_save()
        key = key or c.pick(sorted(self.files, key=str))
        cut, models = self.files[key]
        how = key[0]
        if how == 'save':
            md = key[1]
            scaled = c.chance(0.5) if cut else bool(models[-1][1])

            def body():
                data = SpatioTemporalRegion(np.load(md.dataset_filename), md)
                if not scaled:
                    return data
                return SpatioTemporalScaled(
                    data, SpatialRegion(np.load(md.scaled_min_filename)),
                    SpatialRegion(np.load(md.scaled_max_filename)), region_metadata=md)
            models = [m for m in models if bool(m[1]) == scaled]
        elif how == 'pickle':
            body = lambda: SpatioTemporalRegion.from_pickle(key[1].pickle_filename(key[2]))  # noqa
        elif how == 'pickle_to':
            body = lambda: SpatioTemporalRegion.from_pickle(key[1])     # noqa
        else:
            body = lambda: SpatioTemporalRegion(np.load(key[1]))        # noqa
        plan = sim.fs.draw_plan(['eio_read', 'short_read', 'emfile', 'eacces'], 4, 0.2)
        sim.fs.arm(plan)
        if c.chance(0.3):
            self.proc = sim.restart('p')
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        self.history.append(('load', how, st))
        if st != 'ok':
            sim.probe('load_error')
            check(cut or failed, 'not-loaded', '{}: {!r}', key, got)
            return
        sim.nontrivial = True
        sim.probe({'save': 'load', 'save_to': 'load'}.get(how, 'load_pickle'))
        if how == 'save' and scaled:
            sim.probe('load_scaled')
        if how == 'save' and not scaled and cut:
            # the series may be those of a region that was scaled
            models = models + [(m[0], [], m[2]) for m in self.files[key][1] if m[1]]
        if how == 'save_to':
            # values outside of a cluster are not defined
            ok = [m for m in models if got.shape == m[0].shape and
                  all(same(got.as_numpy[:, i, j], m[0][:, i, j], 1e-8)
                      for i, j in zip(*np.nonzero(m[2])))]
            check(ok, 'other-data', '{}: {} expected {}', key, short(got.as_numpy),
                  short(models[-1][0]))
            return
        if not cut:
            self.add(Item(got, *models[-1]), 'read back {}'.format(key))
            return
        st, ok = sim.in_proc(self.proc, lambda: [m for m in models if self.matches(got, m)])
        check(st == 'ok', 'failed', 'reading back {}: {!r}', key, ok)
        check(ok, 'other-data', '{} after a save that was cut: {}', key, short(got.as_numpy))


OPS = [Run.op_scale] * 3 + [Run.op_cut] * 3 + [Run.op_save] * 4 + [Run.op_load] * 4 + [
    Run.op_descale, Run.op_split, Run.op_cluster, Run.op_repeat, Run.op_walk, Run.op_other,
    Run.op_own, Run.op_again]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    for _ in range(c.int(2, 16)):
        c.pick(OPS)(run)
    for o in run.items:
        st, err = sim.in_proc(run.proc, lambda: run.judge_down(o.region, o.model(),
                                                               'at the end'))
        if st != 'ok':
            raise err
    # saving again repairs everything
    for key in sorted(run.files, key=str):
        if key[0] == 'save':
            md = key[1]
            o = run.base(md, (md.x_len, md.y_len))
            scaled = scaled_values(o.now)
            n = o.now.shape[0]

            def body():
                ScaleFunction(md.x_len, md.y_len).apply_to(o.region, n).save()
                return SpatioTemporalScaled(
                    SpatioTemporalRegion(np.load(md.dataset_filename), md),
                    SpatialRegion(np.load(md.scaled_min_filename)),
                    SpatialRegion(np.load(md.scaled_max_filename)), region_metadata=md)
            st, got = sim.in_proc(run.proc, body)
            check(st == 'ok', 'save-failed', 'at the end: {!r}', got)
            run.judge_down(got, (scaled, [o.now], o.member), 'saved at the end')
    describe(sim, history=run.history)
    note_state(sim, run.history, sim.fault_log)
