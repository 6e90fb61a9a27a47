'''P07: distances read from a measure are always those of the region it serves.'''
import os

import numpy as np
from tslearn.metrics import dtw

from spta.region import Point, Region
from spta.region.temporal import SpatioTemporalRegion
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.partition import PartitionRegionCrisp, intra_cluster_cost
from spta.region.centroid import CalculateCentroid
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.distance.variance import (DistanceHistogram, DistanceHistogramClusters,
                                    DistanceHistogramRandomOutsidePoints,
                                    DistanceHistogramWithRandomPointsOtherClusters)
from spta.clustering.regular import RegularClusteringAlgorithm, RegularClusteringMetadata
from .common import check, fail, same, short, describe, note_state, draw_data, draw_partition, \
    scaled_of

ID = 'P07'
RUNS = {'quick': 2600, 'thorough': 60000}
RULE = ('one run = a history of loads, computations, reloads, weightings and uses of a few '
        'measures on a few regions, with drawn file damage, disk errors, crashes, concurrent '
        'writers and exceptions at chosen lines; every distance, medoid and statistic obtained '
        'is compared with those of the series; non-trivial = a fault struck, processes were '
        'switched or the region of a measure changed')
STATES = 'distinct (operations in order with region and outcome, faults in order)'
REAL = ['spta.distance', 'spta.distance.dtw', 'spta.distance.variance', 'spta.region.centroid',
        'spta.region.partition', 'spta.clustering.regular', 'numpy', 'tslearn']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'dataset behind SpatioTemporalRegionMetadata.create_instance (synthetic values)']
PROBES = ['loaded', 'not_loaded', 'computed', 'weighted', 'weighted_twice', 'reloaded',
          'other_region', 'damaged', 'disk_error', 'crashed', 'line_error', 'centroid',
          'cluster_centroid', 'histogram', 'random_points', 'random_points_fallback', 'cost',
          'medoids', 'computed_on_demand', 'expected_precalculated', 'concurrent_write',
          'metadata_centroid', 'spatial', 'plain', 'scaled_region', 'legal_fault', 'array_2d',
          'clusters_histogram', 'zero_weight']
WARM = True
QUICK_S = 240
FAULTS = ['eio_read', 'emfile', 'short_read', 'crash', 'eio_read']


class Target:
    '''A region with its distances, calculated here from the series.'''

    def __init__(self, sim, name, data, region, year, scaled):
        c = sim.c
        self.name = name
        self.x, self.y = data.shape[1:]
        self.md = SpatioTemporalRegionMetadata(name, region, year, year, 1, scaled=scaled)
        plain = SpatioTemporalRegion(data, self.md)
        self.region = scaled_of(plain) if scaled else plain
        self.region.region_metadata = self.md
        series = np.array(self.region.as_numpy).reshape(data.shape[0], -1).T
        n = len(series)
        self.n = n
        self.true = np.array([[dtw(a, b) for b in series] for a in series])
        pts = np.array([(i // self.y, i % self.y) for i in range(n)], dtype=float)
        self.euclid = np.linalg.norm(pts[:, None, :] - pts[None, :, :], axis=2)
        self.file = self.md.distances_filename
        self.k, member = draw_partition(c, self.x, self.y)
        self.member = member
        self.partition = PartitionRegionCrisp.from_membership_array(member, self.x, self.y)
        region = self.region
        self.md.create_instance = lambda: region

    def point(self, i):
        return Point(i // self.y, i % self.y)

    def index(self, p):
        return p.x * self.y + p.y

    def write(self, sim, rel=None):
        with sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
            np.save(rel or self.file, self.true)


class Measure:
    '''A measure and what may be expected of it.'''

    def __init__(self, c):
        if c.chance(0.5):
            self.weight = None
            self.obj = DistanceByDTW()
        else:
            self.weight = c.pick([0, 0.25, 1, 3, 10])
            self.obj = DistanceBySpatialDTW(self.weight)
        self.serves = None          # the target whose matrix it holds for sure
        self.maybe = set()          # other targets whose matrix it may hold

    def expect(self, t):
        return t.true if self.weight is None else t.true + self.weight * t.euclid

    def now(self, t):
        self.serves = t

    def unsure(self):
        self.serves = None


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.targets = []
        shapes = []
        data_len = c.int(3, 7)
        for i in range(c.int(1, 3)):
            if shapes and c.chance(0.6):
                x, y = shapes[0]            # same shape: matrices could be confused
            else:
                x, y = c.pick([(1, 3), (2, 2), (2, 3), (3, 2), (1, 1), (4, 2), (2, 1)])
            shapes.append((x, y))
            data = draw_data(c, data_len, x, y)
            scaled = c.chance(0.25)
            if scaled:
                sim.probe('scaled_region')
                if not (data.max(axis=0) > data.min(axis=0)).all():
                    scaled = False
            how = c.draw(3)
            x1, y1, year, name = 0, 0, 2000, 'reg'
            if how == 0 or i == 0:          # another name and place
                x1, y1, name = 10 * i, 7 * i, 'reg{}'.format(i)
            elif how == 1:                  # the same place, another year
                year = 2000 + i
            else:                           # another place
                x1, y1, name = 3 * i, 1, 'reg{}'.format(i)
            if i and not how:
                year = 2000 + c.draw(2)
            self.targets.append(Target(sim, name, data, Region(x1, x1 + x, y1, y1 + y), year,
                                       scaled))
        names = [t.file for t in self.targets]
        for i, t in enumerate(self.targets):        # files are told apart by their names
            if t.file in names[:i]:
                t.md.name = 'dup{}'.format(i)
                t.file = t.md.distances_filename
        with sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
        self.intact = set()
        for t in self.targets:
            if c.chance(0.6):
                t.write(sim)
                self.intact.add(t)
        self.start()
        self.history = []

    def start(self):
        self.proc = self.sim.restart('p')
        self.measures = [Measure(self.sim.c) for _ in range(self.sim.c.int(1, 2))]
        for m in self.measures:
            self.sim.probe('plain' if m.weight is None else 'spatial')
            if m.weight == 0:
                self.sim.probe('zero_weight')

    # --- one operation in the process, with or without a fault
    def call(self, name, m, t, fn, faults=True, line=True):
        sim, c = self.sim, self.sim.c
        plan = sim.fs.draw_plan(FAULTS, 3, 0.35) if faults else None
        line_fault = line and faults and plan is None and c.chance(0.2)
        exc = None
        if line_fault:
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 150)
        sim.fs.arm(plan)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return fn()
            finally:
                sim.clear_line_fault()
        out = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed())
        if sim.fs.fired() and not failed:
            sim.probe('legal_fault')
        sim.fs.disarm()
        injected = out[0] == 'err' and getattr(out[1], 'injected', False)
        if exc is not None and getattr(exc, 'injected', False):
            sim.probe('line_error')
            failed = True
            m.unsure()
        if failed:
            sim.probe('disk_error')
        if (out[0] != 'ok' or failed) and m.serves is not t:    # may hold another
            m.unsure()
        self.history.append((name, t.name + str(t.md.year_start), out[0]))
        if out[0] == 'crash':
            sim.probe('crashed')
            self.start()
        if injected and out[0] == 'ok':
            fail('lost-interrupt')
        return out[0], out[1], failed

    def serves_other(self, m, t):
        if m.serves is not None and m.serves is not t:
            self.sim.probe('other_region')
            self.sim.nontrivial = True

    def matrix(self, m, t, got, what):
        ref = m.expect(t)
        if not same(got, ref):
            fail('wrong-matrix', '{} of {} for {}: {} expected {}', what, m.obj.__class__.__name__,
                 t.file, short(got), short(ref))

    # --- loads
    def op_load(self, m, t):
        how = self.sim.c.draw(3)
        self.serves_other(m, t)
        if m.serves is t:
            self.sim.probe('reloaded')
        if how == 0:
            def fn():
                return m.obj.load_distance_matrix_md(t.md)
        elif how == 1:
            def fn():
                return m.obj.try_load_distance_matrix(t.region)
        else:
            def fn():
                return m.obj.load_distance_matrix_2d(t.file, t.md.region)
        st, got, failed = self.call('load{}'.format(how), m, t, fn)
        if st == 'ok' and got is not None:
            self.matrix(m, t, got, 'load')
            self.sim.probe('loaded')
            if not failed:
                m.now(t)
        elif st == 'ok':
            check(failed or t not in self.intact, 'not-loaded', '{}', t.file)
            self.sim.probe('not_loaded')
            if m.serves is not t:
                m.unsure()
        elif st == 'err':
            check(failed or t not in self.intact, 'load-failed', '{}: {!r}', t.file, got)
            if how == 1:        # "try" never fails because of the file
                check(failed, 'try-failed', '{}: {!r}', t.file, got)
            if m.serves is not t:
                m.unsure()

    def op_load_copy(self, m, t):
        '''From a file with a name of its own'''
        t.write(self.sim, 'raw/copy.npy')
        self.serves_other(m, t)
        st, got, failed = self.call('load_copy', m, t, lambda: m.obj.load_distance_matrix_2d(
            'raw/copy.npy', t.md.region))
        if st == 'ok' and got is not None:
            self.matrix(m, t, got, 'load copy')
            m.unsure()
        elif st != 'crash':
            check(failed, 'load-failed', 'copy: {} {!r}', st, got)
            m.unsure()

    def op_compute(self, m, t):
        self.serves_other(m, t)
        st, got, failed = self.call('compute', m, t,
                                    lambda: np.array(m.obj.compute_distance_matrix(t.region)))
        if st == 'ok':
            self.sim.probe('computed')
            self.matrix(m, t, got, 'compute')
            m.now(t)
        elif st == 'err':
            check(failed, 'compute-failed', '{!r}', got)

    def op_compute_2d(self, m, t):
        '''An array of series: DTW between any two'''
        if m.weight is not None:
            return
        st, got, failed = self.call('compute2d', m, t,
                                    lambda: m.obj.compute_distance_matrix(
                                        np.array(t.region.as_2d)))
        m.unsure()
        if st == 'ok':
            self.sim.probe('array_2d')
            check(same(got, t.true), 'wrong-matrix', 'array of series: {} expected {}',
                  short(got), short(t.true))
            # what it holds now is not known to belong to a region
            m.obj = DistanceByDTW()

    def op_weight(self, m, t):
        '''weight_distance_matrix: any number of times'''
        if m.weight is None or m.serves is None:
            return
        t = m.serves
        for _ in range(self.sim.c.int(1, 2)):
            st, got, failed = self.call('weight', m, t,
                                        lambda: m.obj.weight_distance_matrix(t.md.region))
            if st == 'crash':
                return
            if st == 'ok':
                self.matrix(m, t, got, 'weight')
                self.sim.probe('weighted')
            else:
                check(failed, 'weight-failed', '{!r}', got)
        self.sim.probe('weighted_twice')

    # --- uses
    def available(self, m, t):
        return m.serves is t or t in self.intact

    def op_distances(self, m, t):
        c = self.sim.c
        p = c.draw(t.n)
        idx = sorted({c.draw(t.n) for _ in range(c.int(1, t.n))})
        if c.chance(0.4):
            idx = list(range(t.n))
        only = c.chance(0.5)
        self.serves_other(m, t)
        st, got, failed = self.call('distances', m, t, lambda: np.array(
            m.obj.distances_to_point(t.region, t.point(p), np.array(idx),
                                     only_if_precalculated=only)))
        if st == 'ok':
            ref = m.expect(t)[p, idx]
            check(same(got, ref), 'wrong-distances', '{} to point {}: {} expected {}', t.file, p,
                  short(got), short(ref))
            if not self.available(m, t):
                self.sim.probe('computed_on_demand')
            if not failed:
                m.now(t)
        elif st == 'err':
            check(failed or (only and not self.available(m, t)), 'distances-failed', '{!r}', got)
            if only and not failed:
                self.sim.probe('expected_precalculated')

    def judge_use(self, m, t, st, got, failed, what):
        '''A use that needs distances which were calculated before. True if it succeeded.'''
        if st == 'ok':
            return True
        if st == 'err':
            check(failed or not self.available(m, t), what + '-failed', '{}: {!r}', t.file, got)
        return False

    def check_centroid(self, m, t, members, centroid, what):
        ref = m.expect(t)[np.ix_(members, members)].sum(axis=1)
        i = t.index(centroid)
        check(i in members, 'centroid-outside', '{}: {} not in {}', what, i, members)
        got = ref[members.index(i)]
        check(got <= ref.min() + 1e-9, 'wrong-centroid', '{}: {} with sum {} instead of {}',
              what, i, got, ref.min())

    def op_centroid(self, m, t):
        c = self.sim.c
        self.serves_other(m, t)
        if c.chance(0.5):
            region, members = t.region, list(range(t.n))
            self.sim.probe('centroid')
        else:
            cl = c.draw(t.k)
            region = t.partition.create_spt_cluster(t.region, cl)
            region.region_metadata = t.md
            members = [i for i in range(t.n) if t.member[i] == cl]
            self.sim.probe('cluster_centroid')
        st, got, failed = self.call('centroid', m, t, lambda: CalculateCentroid(
            m.obj).find_centroid_and_distances(region))
        if self.judge_use(m, t, st, got, failed, 'centroid'):
            centroid, dists = got
            self.check_centroid(m, t, members, centroid, 'centroid')
            ref = m.expect(t)[t.index(centroid), members]
            check(same(dists, ref), 'wrong-distances', 'to centroid: {} expected {}',
                  short(dists), short(ref))
            if not failed:
                m.now(t)

    def op_metadata_centroid(self, m, t):
        '''Centroid from the metadata, with the measure given or not'''
        given = self.sim.c.chance(0.4)
        if given:
            self.serves_other(m, t)

        def fn():
            if given:
                return CalculateCentroid.for_sptr_metadata(t.md, m.obj)
            return CalculateCentroid.for_sptr_metadata(t.md)
        keep = m.serves
        st, got, failed = self.call('md_centroid', m, t, fn)
        if not given and st != 'crash':
            m.serves = keep
        if st == 'ok':
            self.sim.probe('metadata_centroid')
            if given:
                self.check_centroid(m, t, list(range(t.n)), got, 'metadata centroid')
                if not failed:
                    m.now(t)
            else:
                ref = t.true.sum(axis=1)
                check(ref[t.index(got)] <= ref.min() + 1e-9, 'wrong-centroid',
                      'of {} without a measure: {} with sum {} instead of {}', t.file,
                      t.index(got), ref[t.index(got)], ref.min())
        elif st == 'err':
            check(failed or not (self.available(m, t) if given else t in self.intact),
                  'md-centroid-failed', '{!r}', got)

    def op_medoids(self, m, t):
        '''Regular partition with medoids'''
        ks = [k for k in (1, 2, 4) if t.n >= k and t.x * t.y >= k and
              (k == 1 or t.x % 2 == 0 or t.y % 2 == 0)]
        k = self.sim.c.pick(ks)
        self.serves_other(m, t)
        algo = RegularClusteringAlgorithm(RegularClusteringMetadata(k), m.obj)
        st, got, failed = self.call('medoids', m, t, lambda: algo.partition(t.region))
        if st == 'err' and not failed and not self.available(m, t):
            return
        if st == 'err' and k > 1 and isinstance(got, (ZeroDivisionError, AssertionError)):
            return          # a shape that this partition does not support
        if self.judge_use(m, t, st, got, failed, 'medoids'):
            self.sim.probe('medoids')
            labels = got.as_numpy.reshape(-1)
            check(len(got.medoids) == k, 'medoid-count')
            for cl, p in enumerate(got.medoids):
                members = [i for i in range(t.n) if labels[i] == cl]
                self.check_centroid(m, t, members, p, 'medoid')
            if not failed:
                m.now(t)

    def op_cost(self, m, t):
        c = self.sim.c
        medoids = []
        ref = 0.0
        for cl in range(t.k):
            members = [i for i in range(t.n) if t.member[i] == cl]
            p = c.pick(members)
            medoids.append(t.point(p))
            ref += (m.expect(t)[p, members] ** 2).sum()
        self.serves_other(m, t)
        t.partition.medoids = medoids
        st, got, failed = self.call('cost', m, t, lambda: intra_cluster_cost(
            t.partition, t.region, m.obj))
        if self.judge_use(m, t, st, got, failed, 'cost'):
            self.sim.probe('cost')
            check(same(got, ref), 'wrong-cost', '{} expected {}', got, ref)
            if not failed:
                m.now(t)

    def op_histogram(self, m, t):
        '''Distance statistics; they assume that the matrix is loaded'''
        if m.serves is not t:
            return
        c, sim = self.sim.c, self.sim
        cl = c.draw(t.k)
        cluster = t.partition.create_spt_cluster(t.region, cl)
        members = [i for i in range(t.n) if t.member[i] == cl]
        outside = [i for i in range(t.n) if t.member[i] != cl]
        p = c.pick(members)
        mat = m.expect(t)
        how = c.draw(3)
        seed = c.seed() % 2 ** 32
        sim.in_proc(self.proc, lambda: np.random.seed(seed))
        if how == 0 or not outside:
            def fn():
                h = DistanceHistogram(cluster, m.obj)
                d = h.distances_to_point(t.point(p))
                return d, h.max_distance(d), h.statistics(d) if len(members) > 1 else None
            st, got, failed = self.call('histogram', m, t, fn, faults=c.chance(0.3))
            if not self.judge_use(m, t, st, got, failed, 'histogram'):
                return
            sim.probe('histogram')
            d, biggest, text = got
            ref = mat[p, members]
            check(same(d, ref), 'wrong-distances', 'histogram: {} expected {}', short(d),
                  short(ref))
            check(same(biggest, ref.max()), 'wrong-statistics', 'max {} expected {}', biggest,
                  ref.max())
            if text is not None:
                self.check_text(text, ref)
        else:
            num = c.pick([0, 1, 2, 50])
            fits = min(num or len(members), len(outside))
            sim.probe('random_points')
            if fits < (num or len(members)):
                sim.probe('random_points_fallback')

            def fn():
                if how == 1:
                    h = DistanceHistogramRandomOutsidePoints(cluster, m.obj, num_points=num)
                    d = h.distances_to_point(t.point(p))
                    return None, d, h.max_distance(d), None
                h = DistanceHistogramWithRandomPointsOtherClusters(
                    DistanceHistogram(cluster, m.obj), num_points=num)
                d = h.distances_to_point(t.point(p))
                text = h.statistics(d) if len(members) > 1 else None
                return d[0], d[1], h.max_distance(d), text
            st, got, failed = self.call('random{}'.format(how), m, t, fn, faults=c.chance(0.3))
            if not self.judge_use(m, t, st, got, failed, 'histogram'):
                return
            own, rnd, biggest, text = got
            check(len(rnd) == fits, 'random-count', '{} random points, expected {}', len(rnd),
                  fits)
            pool = list(mat[p, outside])
            for d in rnd:       # distances to distinct points outside of the cluster
                i = [j for j, v in enumerate(pool) if abs(v - d) < 1e-9]
                check(i, 'random-inside', '{} is no distance to another point outside: {}', d,
                      short(mat[p, outside]))
                pool.pop(i[0])
            ref_max = rnd.max()
            if own is not None:
                ref = mat[p, members]
                check(same(own, ref), 'wrong-distances', 'histogram: {} expected {}', short(own),
                      short(ref))
                ref_max = max(ref_max, ref.max())
                if text is not None:
                    self.check_text(text, ref)
                    less = int((rnd < own.max()).sum())
                    check('#rand = {}'.format(fits) in text and '∩rand = {}'.format(less) in text,
                          'wrong-statistics', '{!r}: {} random, {} smaller', text, fits, less)
            check(same(biggest, ref_max), 'wrong-statistics', 'max {} expected {}', biggest,
                  ref_max)

    def check_text(self, text, ref):
        s = np.sort(ref)
        want = {'n': len(ref), 'min': s[1], 'max': s[-1], 'x̅': ref.mean(), 's': ref.std(),
                'M': np.median(ref)}
        got = {}
        for line in text.split('\n'):
            if ' = ' in line:
                a, b = line.split(' = ', 1)
                try:
                    got.setdefault(a.strip(), float(b))
                except ValueError:
                    pass
        for key, v in want.items():
            check(key in got and abs(got[key] - v) <= 0.0051, 'wrong-statistics',
                  '{} of {!r}: expected {}', key, text, v)

    def op_clusters_histogram(self, m, t):
        '''Largest distance to the centroids of all clusters'''
        if m.serves is not t:
            return
        c = self.sim.c
        cents = []
        ref = -np.inf
        mat = m.expect(t)
        for cl in range(t.k):
            members = [i for i in range(t.n) if t.member[i] == cl]
            p = c.pick(members)
            cents.append(t.point(p))
            ref = max(ref, mat[p, members].max())
        rnd = 50 if t.k > 1 and c.chance(0.5) else None
        if rnd:
            ref = max(mat[t.index(p)].max() for p in cents)
        clusters = t.partition.create_all_spt_clusters(t.region, medoids=cents)
        algo = RegularClusteringAlgorithm(RegularClusteringMetadata(t.k), m.obj)
        st, got, failed = self.call('clusters', m, t, lambda: DistanceHistogramClusters(
            clusters, algo, random_points=rnd).max_distance(), faults=c.chance(0.3))
        if self.judge_use(m, t, st, got, failed, 'clusters'):
            self.sim.probe('clusters_histogram')
            check(same(got, ref), 'wrong-statistics', 'overall max {} expected {}', got, ref)

    # --- files
    def op_damage(self, m, t):
        if t in self.intact:
            self.sim.fs.damage(t.file)
            self.intact.discard(t)
            self.sim.probe('damaged')
            self.history.append(('damage', t.name))

    def op_repair(self, m, t):
        t.write(self.sim)
        self.intact.add(t)
        self.history.append(('repair', t.name))

    def op_concurrent(self, m, t):
        '''Another process writes the file while this one loads it.'''
        sim, c = self.sim, self.sim.c
        self.serves_other(m, t)
        sim.fs.split_writes = True
        writer = sim.new_proc('w')
        plan = sim.fs.draw_plan(['crash_write', 'crash_write', 'enospc', 'eio_write'], 4, 0.5)
        sim.fs.arm(plan)
        loads = c.int(1, 3)

        def read():
            out = []
            for _ in range(loads):
                got = m.obj.try_load_distance_matrix(t.region)
                out.append(None if got is None else np.array(got))
            return out
        outs = sim.concurrently([(writer, lambda: np.save(t.file, t.true)), (self.proc, read)])
        sim.fs.split_writes = False
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.probe('concurrent_write')
        sim.nontrivial = True
        self.history.append(('concurrent', t.name, outs[0][0], outs[1][0]))
        self.intact.discard(t)
        if outs[0][0] == 'ok' and not failed:
            self.intact.add(t)
        m.unsure()
        st, got = outs[1]
        if st == 'crash':
            self.start()
        elif st == 'ok':
            for g in got:
                if g is not None:
                    self.matrix(m, t, g, 'load during write')
        else:
            fail('try-failed', 'load while {} is written: {!r}', t.file, got)


OPS = [Run.op_load, Run.op_load, Run.op_compute, Run.op_weight, Run.op_distances,
       Run.op_distances, Run.op_centroid, Run.op_metadata_centroid, Run.op_medoids, Run.op_cost,
       Run.op_histogram, Run.op_clusters_histogram, Run.op_damage, Run.op_repair,
       Run.op_concurrent, Run.op_load_copy, Run.op_compute_2d]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    # few kinds of operations in a run make longer histories of them
    ops = OPS
    if c.chance(0.3):
        ops = [c.pick(OPS) for _ in range(4)]
    focus = c.chance(0.5)
    for _ in range(c.int(2, 12)):
        m = c.pick(run.measures)
        t = c.pick(run.targets)
        if focus and m.serves is not None and c.chance(0.6):
            t = m.serves
        c.pick(ops)(run, m, t)
        # the measure says that it holds the matrix of a region: it does
    for t in run.targets:
        t.write(sim)
        run.intact.add(t)
        for m in list(run.measures):
            st, got = sim.in_proc(run.proc, lambda: m.obj.distances_to_point(
                t.region, t.point(0), np.arange(t.n)))
            check(st == 'ok', 'distances-failed', 'without a fault: {!r}', got)
            check(same(got, m.expect(t)[0]), 'wrong-distances',
                  'at the end, {}: {} expected {}', t.file, short(got), short(m.expect(t)[0]))
    describe(sim, targets=[(t.file, (t.x, t.y)) for t in run.targets], history=run.history)
    note_state(sim, run.history, sim.fault_log)
