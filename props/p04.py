'''P04: walking a region visits every member once, whatever happened before.'''
import copy
import pickle
import types

import numpy as np

from sim.kernel import InjectedError
from spta.model.error import ErrorRegion
from spta.region import Point, Region, TimeInterval
from spta.region.function import FunctionRegionScalarSame, FunctionRegionSeriesSame
from spta.region.mask import MaskRegionFuzzy
from spta.region.partition import PartitionRegionCrisp
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.solver.result import PredictionQueryResultBuilder
from .common import (check, fail, same, identical, short, draw_shape, draw_data, memory_layout,
                     metadata, scaled_of, describe, note_state, draw_partition)

ID = 'P04'
RUNS = {'quick': 6000, 'thorough': 120000}
RULE = ('one run = a family of related regions (plain, scaled, clusters, spatial, errors, '
        'results) and a drawn history of complete, abandoned, failing, interrupted and pickled '
        'walks and derived operations, each compared with the list of members; non-trivial = at '
        'least one walk was cut before another one')
STATES = 'distinct (kind of region, kind of operation, kind of operation before it)'
REAL = ['spta.region.*', 'spta.model.error.ErrorRegion', 'spta.solver.result']
STUB = ['file system (scratch directory behind a seam)', 'metadata of prediction results']
PROBES = ['abandoned', 'function_error', 'line_error', 'pickled_half_way', 'descale', 'cluster',
          'error_region', 'result', 'mask', 'partition', 'nested', 'scaled_cluster', 'file_fault',
          'derived_subset']
WARM = False


class Item:
    '''A region and what walking it must give.'''

    def __init__(self, kind, region, members, values=None, base=None, extra=None):
        self.kind, self.region, self.members = kind, region, members
        self.values = values        # None: the walk gives points only
        self.base = base
        self.extra = extra or {}


def twice(x):
    return x * 2 + 1


def build(sim):
    c = sim.c
    x, y = draw_shape(c, 16, 6)
    n = c.int(2, 5)
    data = draw_data(c, n, x, y)
    pts = [(i, j) for i in range(x) for j in range(y)]
    items = []
    kinds = c.draw(6)
    md = metadata(c, x, y) if c.chance(0.5) else None
    plain = SpatioTemporalRegion(memory_layout(c, data), region_metadata=md)
    items.append(Item('plain', plain, pts, {p: data[:, p[0], p[1]] for p in pts}))
    lo, hi = data.min(axis=0), data.max(axis=0)
    with np.errstate(all='ignore'):
        sdata = np.where(hi > lo, (data - lo) / (hi - lo), 0.0)
    scaled = scaled_of(plain)
    items.append(Item('scaled', scaled, pts, {p: sdata[:, p[0], p[1]] for p in pts},
                      base=items[0], extra={'original': data}))
    k, m = draw_partition(c, x, y)
    part = PartitionRegionCrisp.from_membership_array(m, x, y)
    items.append(Item('partition', part, pts))
    m2 = m.reshape(x, y)
    idx = c.draw(k)
    mem = [p for p in pts if m2[p] == idx]
    items.append(Item('cluster', part.create_spt_cluster(plain, idx), mem,
                      {p: data[:, p[0], p[1]] for p in mem}, base=items[0]))
    other = (idx + 1) % k
    if other != idx:
        mem_o = [p for p in pts if m2[p] == other]
        items.append(Item('cluster', part.create_spt_cluster(plain, other), mem_o,
                          {p: data[:, p[0], p[1]] for p in mem_o}, base=items[0]))
    # a cluster of another partition with clusters as large as these
    m3 = np.array(c.shuffle(list(m))).reshape(x, y)
    part3 = PartitionRegionCrisp.from_membership_array(m3.reshape(-1), x, y)
    mem3 = [p for p in pts if m3[p] == idx]
    items.append(Item('cluster', part3.create_spt_cluster(plain, idx), mem3,
                      {p: data[:, p[0], p[1]] for p in mem3}, base=items[0]))
    items.append(Item('scaled_cluster', part.create_spt_cluster(scaled, idx), mem,
                      {p: sdata[:, p[0], p[1]] for p in mem}, base=items[1],
                      extra={'original': data}))
    vals = data[0]
    spatial = SpatialRegion(np.array(vals))
    items.append(Item('spatial', spatial, pts, {p: vals[p] for p in pts}))
    sp_cluster = part.create_spatial_cluster(spatial, idx)
    items.append(Item('spatial_cluster', sp_cluster, mem, {p: vals[p] for p in mem}))
    items.append(Item('error_region', ErrorRegion(SpatialRegion(np.array(vals))), pts,
                      {p: vals[p] for p in pts}))
    items.append(Item('error_region', ErrorRegion(part.create_spatial_cluster(
        SpatialRegion(np.array(vals)), idx)), mem, {p: vals[p] for p in mem}))
    uij = np.array([[c.pick([0.0, 0.25, 0.5, 1.0]) for _ in range(k)] for _ in pts])
    limit = c.pick([0, 0.25, 0.5])
    fuzzy = [p for p, u in zip(pts, uij) if u.max() - u[idx] <= limit]
    mask = MaskRegionFuzzy.from_uij_and_region(uij, x, y, idx, limit)
    items.append(Item('mask', mask, fuzzy))
    # prediction results over a rectangle
    x1, y1 = c.draw(x), c.draw(y)
    x2, y2 = c.int(x1 + 1, x), c.int(y1 + 1, y)
    rect = Region(x1, x2, y1, y2)
    meta = types.SimpleNamespace(
        region_metadata=md or metadata(c, x, y), model_params=None, test_len=1,
        error_type='MSE', clustering_metadata=None, distance_measure=None)
    rel = [(i, j) for i in range(x2 - x1) for j in range(y2 - y1)]
    sub = plain.region_subset(rect)
    builder = PredictionQueryResultBuilder(
        solver_metadata=meta, forecast_len=3, forecast_subregion=sub,
        test_subregion=plain.region_subset(rect), error_subregion=spatial.region_subset(rect),
        prediction_region=rect, spt_region=plain, output_home='outputs',
        is_out_of_sample=c.chance(0.5))
    if c.chance(0.7):
        builder = builder.with_partition(part)
    ev = vals[x1:x2, y1:y2]
    items.append(Item('result', builder.build(), rel, extra={'errors': ev}))
    return items, (x, y), rect, part, m2


def normal(item):
    return [(p, None if item.values is None else item.values[p]) for p in item.members]


def take(item, got):
    '''Compare a complete walk.'''
    pts, vals = [], []
    for g in got:
        if item.values is None:
            pts.append((g.x, g.y))
        else:
            pts.append((g[0].x, g[0].y))
            vals.append(g[1])
    check(pts == item.members, 'walk-points', '{}: visited {} expected {}', item.kind, pts,
          item.members)
    if item.values is not None:
        for p, v in zip(pts, vals):
            check(same(v, item.values[p], 1e-12), 'walk-values', '{} at {}: {} expected {}',
                  item.kind, p, v, item.values[p])


def op_walk(sim, item):
    take(item, list(item.region))


def op_walk_for(sim, item):
    got = []
    for e in item.region:
        got.append(e)
    take(item, got)


def op_abandon(sim, item):
    n = sim.c.draw(len(item.members) + 1)
    for i, _ in enumerate(item.region):
        if i >= n:
            break
    sim.probe('abandoned')
    sim.nontrivial = True


def op_abandon_iter(sim, item):
    it = iter(item.region)
    for _ in range(sim.c.draw(len(item.members) + 1)):
        try:
            next(it)
        except StopIteration:
            break
    sim.probe('abandoned')
    sim.nontrivial = True


def op_body_error(sim, item):
    n = sim.c.draw(len(item.members))
    try:
        for i, _ in enumerate(item.region):
            if i == n:
                raise InjectedError('body')
    except InjectedError:
        sim.nontrivial = True


def is_domain(item):
    return item.kind not in ('partition', 'mask', 'result')


def is_series(item):
    return item.kind in ('plain', 'scaled', 'cluster', 'scaled_cluster')


def op_scalar(sim, item):
    '''Apply a function to a region: the result covers the members, with their values.'''
    if not is_domain(item):
        return
    r = item.region
    if is_series(item):
        func = FunctionRegionScalarSame(np.sum, r.x_len, r.y_len)
        ref = {p: np.sum(v) for p, v in item.values.items()}
    else:
        func = FunctionRegionScalarSame(twice, r.x_len, r.y_len)
        ref = {p: twice(v) for p, v in item.values.items()}
    out = func.apply_to(r)
    take(Item(item.kind + '>scalar', out, item.members, ref), list(out))


def op_series(sim, item):
    if not is_series(item):
        return
    r = item.region
    func = FunctionRegionSeriesSame(twice, r.x_len, r.y_len)
    out = func.apply_to(r, r.series_len)
    take(Item(item.kind + '>series', out, item.members,
              {p: twice(v) for p, v in item.values.items()}), list(out))


def op_function_error(sim, item):
    '''The function fails at one point'''
    if not is_domain(item):
        return
    n = sim.c.draw(len(item.members))
    count = [0]

    def bad(v):
        count[0] += 1
        if count[0] > n:
            raise InjectedError('function')
        return 0.0
    r = item.region
    try:
        FunctionRegionScalarSame(bad, r.x_len, r.y_len).apply_to(r)
    except InjectedError:
        sim.fault('function_error', item.kind)
        sim.probe('function_error')
    else:
        fail('function-error-lost', item.kind)


def op_list(sim, item):
    if not is_series(item):
        return
    r = item.region
    as_list = r.as_list
    check(len(as_list) == len(item.members) and
          all(same(a, item.values[p], 1e-12) for a, p in zip(as_list, item.members)),
          'series-list', '{}: {} series for {} members', item.kind, len(as_list),
          len(item.members))
    a2 = r.as_2d
    check(same(a2, np.array([item.values[p] for p in item.members]), 1e-12), 'series-2d',
          item.kind)
    idx = [p[0] * r.y_len + p[1] for p in item.members]
    check(list(r.all_point_indices) == idx, 'point-indices', '{}: {} expected {}', item.kind,
          list(r.all_point_indices), idx)


def op_minmax(sim, item):
    if item.kind not in ('spatial', 'spatial_cluster', 'error_region'):
        return
    (p, v) = item.region.find_minimum()
    (q, w) = item.region.find_maximum()
    vals = list(item.values.values())
    check(v == min(vals) and item.values[(p.x, p.y)] == v, 'minimum', '{}: {} {} of {}',
          item.kind, p, v, vals)
    check(w == max(vals) and item.values[(q.x, q.y)] == w, 'maximum', '{}: {} {} of {}',
          item.kind, q, w, vals)


def op_overall(sim, item):
    if item.kind != 'error_region':
        return
    ref = float(np.mean(np.square(list(item.values.values()))) ** 0.5)
    check(same(item.region.overall_error, ref), 'overall-error', '{} expected {}',
          item.region.overall_error, ref)


def op_mse(sim, item):
    if item.kind != 'result':
        return
    ref = float(np.mean(np.square(item.extra['errors'])))
    got = item.region.summary_generalization_mse()
    check(same(got, ref), 'summary-mse', '{} expected {}', got, ref)


def op_descale_close(sim, item):
    if item.kind not in ('scaled', 'scaled_cluster'):
        return
    out = item.region.descale()
    sim.probe('descale')
    data = item.extra['original']
    got = list(out)
    check([(p.x, p.y) for p, _ in got] == item.members, 'descale-points', '{}',
          [(p.x, p.y) for p, _ in got])
    for p, v in got:
        check(same(v, data[:, p.x, p.y], 1e-9), 'descale-values', '{} at {}: {} expected {}',
              item.kind, p, v, data[:, p.x, p.y])


def op_pickle(sim, item):
    '''Continue with a copy that went through pickle, in the middle of a walk.'''
    it = iter(item.region)
    for _ in range(sim.c.draw(len(item.members) + 1)):
        try:
            next(it)
        except StopIteration:
            break
    how = sim.c.draw(3)
    if how == 2:
        item.region = copy.deepcopy(item.region)
    else:
        item.region = pickle.loads(pickle.dumps(item.region))
    sim.probe('pickled_half_way')
    sim.nontrivial = True


def op_file_pickle(sim, item):
    '''Save to a file, perhaps with a disk error, and load again.'''
    if not hasattr(item.region, 'pickle_to'):
        return
    plan = sim.fs.draw_plan(['enospc', 'eio_write', 'eacces', 'short_write', 'short_read'], 3,
                            0.5)
    sim.fs.arm(plan)
    try:
        item.region.pickle_to('region.pkl')
        ok = True
    except OSError:
        ok = False
        sim.probe('file_fault')
    failed = sim.fs.failed()
    sim.fs.disarm()
    if not ok:
        check(failed, 'pickle-failed-without-fault')
        return
    item.region = type(item.region).from_pickle('region.pkl')


def op_nested(sim, item, other):
    '''Walk another region (with its own cursor) inside of a walk of this one.'''
    if item.kind in ('error_region',) or other.kind in ('error_region',):
        return
    if item.region is other.region or item.kind == 'scaled' and other is item.base or \
            other.kind == 'scaled' and item is other.base or \
            {item.kind, other.kind} == {'scaled'}:
        return
    sim.probe('nested')
    got = []
    at = sim.c.draw(len(item.members))
    for i, e in enumerate(item.region):
        got.append(e)
        if i == at:
            take(other, list(other.region))
    take(item, got)


def op_line_error(sim, item):
    '''A failed allocation or an interrupt at some line of an operation.'''
    ops = [op_walk, op_scalar, op_series, op_list, op_minmax, op_overall, op_descale_close,
           op_mse]
    op = sim.c.pick(ops)
    exc = sim.c.pick([MemoryError, KeyboardInterrupt])('injected')
    sim.raise_at_line(sim.c.small(0, 400), exc)
    try:
        op(sim, item)
    except (MemoryError, KeyboardInterrupt) as e:
        if not getattr(e, 'injected', False):
            raise
        sim.probe('line_error')
    finally:
        sim.clear_line_fault()


def op_subset(sim, item, rect):
    '''A rectangle or an interval of a region is a region.'''
    if item.kind in ('plain', 'scaled'):
        r = item.region.region_subset(rect)
        mem = [(i, j) for i in range(rect.x2 - rect.x1) for j in range(rect.y2 - rect.y1)]
        vals = {(i, j): item.values[i + rect.x1, j + rect.y1] for i, j in mem}
        take(Item(item.kind + '>subset', r, mem, vals), list(r))
        sim.probe('derived_subset')
    if is_series(item):
        n = item.region.series_len
        t1 = sim.c.draw(n)
        t2 = sim.c.int(t1 + 1, n)
        r = item.region.interval_subset(TimeInterval(t1, t2))
        take(Item(item.kind + '>interval', r, item.members,
                  {p: v[t1:t2] for p, v in item.values.items()}), list(r))


def op_repeat(sim, item):
    if item.kind not in ('plain', 'spatial', 'spatial_cluster'):
        return
    p = sim.c.pick(item.members)
    r = item.region.repeat_point(Point(*p))
    take(Item(item.kind + '>repeat', r, item.members,
              {q: item.values[p] for q in item.members}), list(r))


def op_merge(sim, items, part, m2):
    '''Merge the clusters of a partition, after walks of it'''
    k = int(m2.max()) + 1
    x, y = m2.shape
    vals = np.arange(x * y, dtype=float).reshape(x, y)
    spatial = SpatialRegion(vals.copy())
    out = part.merge_clusters_2d(part.create_all_spatial_clusters(spatial))
    check(identical(out.as_numpy, vals), 'merge', '{}', short(out.as_numpy))


OPS = [op_walk, op_walk_for, op_abandon, op_abandon_iter, op_body_error, op_scalar, op_series,
       op_function_error, op_list, op_minmax, op_overall, op_mse, op_descale_close, op_pickle,
       op_file_pickle, op_line_error, op_repeat]


def scenario(sim):
    c = sim.c
    items, shape, rect, part, m2 = build(sim)
    if c.chance(0.3):       # few related regions: more of the history on each
        keep = [c.draw(len(items)) for _ in range(c.int(1, 3))]
        items = [items[i] for i in sorted(set(keep))]
    describe(sim, shape=shape, regions=[i.kind for i in items])
    last = 'none'
    for step in range(c.int(1, 14)):
        item = c.pick(items)
        sim.probe(item.kind)
        n = c.draw(len(OPS) + 3)
        if n < len(OPS):
            name = OPS[n].__name__
            sim.log('{} {}'.format(name, item.kind))
            OPS[n](sim, item)
        elif n == len(OPS):
            name = 'nested'
            op_nested(sim, item, c.pick(items))
        elif n == len(OPS) + 1:
            name = 'subset'
            op_subset(sim, item, rect)
        else:
            name = 'merge'
            op_merge(sim, items, part, m2)
        note_state(sim, item.kind, name, last)
        last = name
    for item in items:
        take(item, list(item.region))
        op_list(sim, item)
