'''P08: a cached partition is the partition that would be computed afresh.'''
import csv
import io
import os

import numpy as np
from tslearn.metrics import dtw

from spta.region import Region
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
from spta.clustering.factory import ClusteringFactory, ClusteringMetadataFactory
from spta.clustering.regular import RegularClusteringAlgorithm
from .common import check, fail, describe, note_state, draw_data

ID = 'P08'
RUNS = {'quick': 5000, 'thorough': 80000}
RULE = ('one run = a history of partitioning calls (regions, clusterings, measures, cache and '
        'report directories, with and without medoids) with drawn crashes, disk errors, file '
        'damage, exceptions at chosen lines and concurrent processes; every partition is compared '
        'with the one computed without a cache in a pristine process; non-trivial = a fault '
        'struck, processes were switched or a cached partition was met')
STATES = 'distinct (operations in order with parameters and outcome, faults in order)'
REAL = ['spta.clustering', 'spta.clustering.kmedoids', 'spta.clustering.regular',
        'spta.clustering.factory', 'spta.region.partition', 'spta.kmedoids', 'spta.distance',
        'spta.region.metadata', 'spta.util.fs', 'numpy', 'tslearn']
STUB = ['file system (scratch directory behind a seam)', 'process table, scheduler',
        'dataset (synthetic values)']
PROBES = ['kmedoids', 'regular', 'spatial', 'plain', 'cache_hit', 'other_home', 'no_cache',
          'csv', 'damaged', 'deleted', 'crashed', 'disk_error', 'line_error', 'restarted',
          'concurrent', 'without_medoids', 'medoids_after_none', 'loaded_previous',
          'no_previous', 'two_d', 'no_distances', 'legal_fault', 'initial_medoids',
          'reused_measure', 'variation']
WARM = True
QUICK_S = 240
FAULTS = ['crash', 'crash', 'enospc', 'eio_write', 'eio_read', 'emfile', 'eacces', 'short_write',
          'short_read']
HOMES = ['pickle', 'other', 'cache/deep']


class Target:
    def __init__(self, sim, name, data, region, year, scaled):
        self.x, self.y = data.shape[1:]
        self.md = SpatioTemporalRegionMetadata(name, region, year, year, 1, scaled=scaled)
        self.region = SpatioTemporalRegion(data, self.md)
        series = data.reshape(data.shape[0], -1).T
        self.true = np.array([[dtw(a, b) for b in series] for a in series])
        self.n = len(series)
        self.intact = False

    def write(self, sim):
        with sim.fs.quiet():
            os.makedirs('raw', exist_ok=True)
            np.save(self.md.distances_filename, self.true)
        self.intact = True


class Config:
    '''Clustering parameters and the reference partition for each region and measure'''

    def __init__(self, name, k, params):
        self.name, self.k, self.params = name, k, params
        self.ref = {}

    def metadata(self):
        p = dict(self.params)
        if 'initial_medoids' in p:
            p['initial_medoids'] = list(p['initial_medoids'])
        return ClusteringMetadataFactory().instance(self.name, self.k, **p)

    def text(self):
        defaults = {'max_iter': 1000, 'tol': 0.001}
        return '{}{}{}'.format(self.name[0], self.k, ''.join(
            ',{}={}'.format(n[0:2], v) for n, v in sorted(self.params.items())
            if defaults.get(n) != v))


def new_measure(weight):
    return DistanceByDTW() if weight is None else DistanceBySpatialDTW(weight)


def labels_of(part):
    return np.array(part.as_numpy).reshape(-1).tolist()


def medoids_of(part):
    m = getattr(part, 'medoids', None)
    return None if m is None else [(int(p.x), int(p.y)) for p in m]


class Run:
    def __init__(self, sim):
        self.sim = sim
        c = sim.c
        self.targets = []
        shape = c.pick([(2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 2), (3, 4)])
        for i in range(c.int(1, 3)):
            if i and c.chance(0.4):
                shape = c.pick([(2, 2), (2, 3), (3, 2), (1, 4)])
            x, y = shape
            how = c.draw(3)
            name, year, scaled = 'reg', 2000, False
            if how == 0:
                name = 'reg{}'.format(i)
            elif how == 1:
                year += i
            else:
                scaled = bool(i % 2)
                year += i // 2
            if repr_key(name, year, scaled) in [t.key for t in self.targets]:
                name = 'dup{}'.format(i)
            t = Target(sim, name, draw_data(c, 4, x, y), Region(i, i + x, 1, 1 + y), year, scaled)
            t.key = repr_key(name, year, scaled)
            self.targets.append(t)
            t.write(sim)
        small = min(t.n for t in self.targets)
        self.configs = []
        for _ in range(c.int(2, 4)):
            if c.chance(0.25):
                self.add_config(Config('regular', c.pick([1, 2, 4]), {}))
                continue
            old = [o for o in self.configs if o.name == 'kmedoids']
            if old and c.chance(0.6):
                self.add_config(self.variation(c.pick(old[-2:]), small))
                continue
            p = {'random_seed': c.pick([0, 1, 2]), 'mode': c.pick(['lite', 'robust'])}
            k = c.pick([k for k in (1, 2, 3, 3, 4, 5) if k <= small])
            if c.chance(0.4):
                p['initial_medoids'] = tuple(int(i) for i in c.shuffle(range(small))[:k])
                sim.probe('initial_medoids')
            if c.chance(0.2):
                p['max_iter'] = c.pick([0, 1])
            if c.chance(0.1):
                p['tol'] = c.pick([0.1, 0.5, 0])
            self.add_config(Config('kmedoids', k, p))
        self.weights = [None]
        if c.chance(0.6):
            self.weights += [c.pick([0.5, 2, 10])]
            if c.chance(0.4):
                self.weights += [c.pick([1, 30])]
        self.references()
        self.proc = sim.restart('p')
        self.measures = {}
        self.reports = {}       # csv path -> expected rows
        self.cached = {}        # (home, target, config, weight) -> has a sound cache file for sure
        self.touched = set()    # keys whose cache file may exist
        self.history = []

    def variation(self, cfg, small):
        '''The same clustering but for one parameter'''
        sim, c = self.sim, self.sim.c
        sim.probe('variation')
        k, p = cfg.k, dict(cfg.params)
        how = c.draw(5)
        im = list(p.get('initial_medoids', ()))
        if im and c.chance(0.6):
            # one or two of the initial medoids, or only their order
            for _ in range(c.int(1, 2)):
                i, other = c.draw(k), c.draw(small)
                if other in im:
                    j = im.index(other)
                    im[i], im[j] = im[j], im[i]
                else:
                    im[i] = other
            p['initial_medoids'] = tuple(im)
        elif how == 1:
            p['max_iter'] = c.pick([0, 1, 2, 1000])
        elif how == 2:
            p['tol'] = c.pick([0.5, 0.001, 0.1, 0])
        elif how == 3 and not im:
            k = c.int(1, min(5, small))
        elif not im and c.chance(0.5):
            p['mode'] = 'lite' if p['mode'] == 'robust' else 'robust'
        elif im:
            p.pop('initial_medoids')
        else:
            p['random_seed'] = c.pick([0, 1, 2, 10, 11])
        return Config('kmedoids', k, p)

    def add_config(self, cfg):
        if cfg.text() not in [o.text() for o in self.configs]:
            self.configs.append(cfg)

    def references(self):
        '''Each partition computed in a pristine process, without a cache'''
        for t in self.targets:
            for cfg in self.configs:
                for w in self.weights:
                    proc = self.sim.new_proc('ref')
                    st, got = self.sim.in_proc(proc, lambda: ClusteringFactory(
                        new_measure(w)).instance(cfg.metadata()).partition(t.region))
                    if st == 'ok':
                        cfg.ref[t, w] = labels_of(got), medoids_of(got)
                    else:
                        check(cfg.name == 'regular', 'failed', '{} of {}: {!r}', cfg.text(),
                              t.md, got)

    def algorithm(self, cfg, w):
        m = self.measures.get(w)
        if m is None or self.sim.c.chance(0.4):
            m = self.measures[w] = new_measure(w)
        else:
            self.sim.probe('reused_measure')
        return ClusteringFactory(m).instance(cfg.metadata())

    def draw_case(self):
        c = self.sim.c
        for _ in range(30):
            cfg, t, w = c.pick(self.configs), c.pick(self.targets), c.pick(self.weights)
            if (t, w) in cfg.ref and (w is None or t.intact):
                return cfg, t, w
        return None

    def rows(self, cfg, t, w):
        labels = cfg.ref[t, w][0]
        out = [['cluster', 'points', 'coverage']]
        for i in range(cfg.k):
            n = labels.count(i)
            out.append([str(i), str(n), '{:.1f}'.format(n * 100.0 / t.n)])
        return out

    def read_csv(self, path):
        data = self.sim.fs.read(path)
        if data is None:
            return None
        return list(csv.reader(io.StringIO(data.decode('utf-8', 'replace')), delimiter=' ',
                               quotechar='|'))

    def check_reports(self, but=()):
        for path, rows in self.reports.items():
            if path not in but:
                check(self.read_csv(path) == rows, 'report-changed', '{}: {} expected {}', path,
                      self.read_csv(path), rows)

    def judge(self, got, cfg, t, w, with_medoids, what):
        labels, medoids = cfg.ref[t, w]
        check(got is not None, 'no-partition', what)
        check(labels_of(got) == labels and got.shape == (t.x, t.y), 'other-partition',
              '{}: {} expected {}', what, labels_of(got), labels)
        check(got.k == cfg.k, 'other-partition', '{}: k is {} instead of {}', what, got.k, cfg.k)
        if with_medoids:
            check(medoids_of(got) is not None, 'no-medoids', what)
            check(medoids_of(got) == medoids, 'other-medoids', '{}: {} expected {}', what,
                  medoids_of(got), medoids)

    def case_probes(self, cfg, w, key, with_medoids):
        sim = self.sim
        sim.probe(cfg.name)
        sim.probe('plain' if w is None else 'spatial')
        if not with_medoids:
            sim.probe('without_medoids')
        if key is None:
            sim.probe('no_cache')
            return
        if key in self.cached:
            sim.probe('cache_hit')
            sim.nontrivial = True
            if with_medoids and self.cached[key] is False:
                sim.probe('medoids_after_none')
        elif any(k[1:] == key[1:] for k in self.cached):
            sim.probe('other_home')

    def without_distances(self, cfg, t, with_medoids):
        return cfg.name == 'regular' and with_medoids and not t.intact

    # --- one partitioning call
    def op_partition(self):
        sim, c = self.sim, self.sim.c
        case = self.draw_case()
        if case is None:
            return
        cfg, t, w = case
        with_medoids = c.chance(0.7)
        home = c.pick([None] + HOMES + HOMES[:1])
        out = c.pick([None, None, 'outputs', 'out2'])
        key = None if home is None else (home, t, cfg, w)
        self.case_probes(cfg, w, key, with_medoids)
        algo = self.algorithm(cfg, w)
        plan = sim.fs.draw_plan(FAULTS, 5, 0.5)
        if plan is not None and w is not None:
            # without its distances a spatial measure is another one
            plan.match = lambda path: '/raw/' not in '/' + str(path)
        exc = None
        if plan is None and c.chance(0.15) and w is None:
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')
            at = c.small(0, 300)
        before = set(sim.fs.files())
        sim.fs.arm(plan)

        def body():
            if exc is not None:
                sim.raise_at_line(at, exc)
            try:
                return algo.partition(t.region, with_medoids=with_medoids, save_csv_at=out,
                                      pickle_home=home)
            finally:
                sim.clear_line_fault()
        st, got = sim.in_proc(self.proc, body)
        failed = bool(sim.fs.failed()) or getattr(exc, 'injected', False)
        if sim.fs.fired() and not failed:
            sim.probe('legal_fault')
        if sim.fs.failed():
            sim.probe('disk_error')
        sim.fs.disarm()
        if getattr(exc, 'injected', False):
            sim.probe('line_error')
        what = '{} of {} weight {} home {} out {} medoids {}'.format(
            cfg.text(), t.md, w, home, out, with_medoids)
        self.history.append((cfg.text(), t.key, w, home, out, with_medoids, st))
        path = None
        if out is not None:
            path = os.path.join(algo.output_dir(out, t.md), 'clustering__{!r}.csv'.format(algo))
        # files only where they were asked for
        for f in sorted(set(sim.fs.files()) - before):
            inside = [h for h in (home, out) if h is not None and f.startswith(h + '/')]
            check(inside, 'misplaced-file', '{} wrote {}', what, f)
        self.check_reports(but=(path,))
        if key is not None:
            self.touched.add(key)
        if st == 'ok':
            self.judge(got, cfg, t, w, with_medoids, what)
            if out is not None:
                sim.probe('csv')
                rows = self.rows(cfg, t, w)
                check(self.read_csv(path) == rows, 'bad-report', '{}: {} expected {}', what,
                      self.read_csv(path), rows)
                self.reports[path] = rows
            if key is not None and not failed:
                self.previous(key, algo, with_medoids, what)
        else:
            self.reports.pop(path, None)
            self.cached.pop(key, None)      # perhaps cut while it was written again
            if st == 'crash':
                sim.probe('crashed')
                self.restart()
            elif not failed:
                if self.without_distances(cfg, t, with_medoids):
                    sim.probe('no_distances')
                else:
                    fail('failed', '{}: {!r}', what, got)

    def previous(self, key, algo, with_medoids, what, alone=True):
        '''After a call that succeeded, the partition is found where it was asked for'''
        home, t, cfg, w = key
        st, got = self.sim.in_proc(self.proc, lambda: algo.load_previous_partition(t.md, home))
        if st == 'err' and not alone:       # written by two at once: calculated again
            self.cached.pop(key, None)
            return
        check(st == 'ok', 'not-saved', '{}: {!r}', what, got)
        self.judge(got, cfg, t, w, with_medoids, 'previous ' + what)
        self.cached[key] = medoids_of(got) is not None
        self.sim.probe('loaded_previous')

    def op_previous(self):
        '''A saved partition is that of these parameters, and of this cache directory'''
        sim, c = self.sim, self.sim.c
        case = self.draw_case()
        if case is None:
            return
        cfg, t, w = case
        key = (c.pick(HOMES), t, cfg, w)
        algo = self.algorithm(cfg, w)
        quiet = c.chance(0.5)
        st, got = sim.in_proc(self.proc, lambda: (
            algo.try_load_previous_partition if quiet else algo.load_previous_partition)(
                t.md, key[0]))
        self.history.append(('previous', cfg.text(), t.key, w, key[0], st))
        if st == 'ok' and got is not None:
            check(key in self.touched, 'never-saved', '{}', key)
            self.judge(got, cfg, t, w, False, 'previous')
            if medoids_of(got) is not None:
                self.judge(got, cfg, t, w, True, 'previous')
        else:
            sim.probe('no_previous')
            check(key not in self.cached, 'not-loaded', '{} {!r}', key, got)
            check(st == 'err' or quiet, 'no-error')

    def op_save(self):
        '''Explicitly save a partition in some cache directory'''
        sim, c = self.sim, self.sim.c
        case = self.draw_case()
        if case is None:
            return
        cfg, t, w = case
        home = c.pick(HOMES)
        algo = self.algorithm(cfg, w)
        key = (home, t, cfg, w)
        st, got = sim.in_proc(self.proc, lambda: algo.partition(t.region, with_medoids=t.intact))
        if st != 'ok':
            fail('failed', '{} of {}: {!r}', cfg.text(), t.md, got)
        before = set(sim.fs.files())
        sim.fs.arm(sim.fs.draw_plan(['crash', 'enospc', 'eio_write', 'emfile', 'short_write'], 3,
                                    0.4))
        st, err = sim.in_proc(self.proc, lambda: algo.save_partition(got, t.md, home))
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        for f in sorted(set(sim.fs.files()) - before):
            check(f.startswith(home + '/'), 'misplaced-file', 'save at {} wrote {}', home, f)
        self.touched.add(key)
        self.history.append(('save', cfg.text(), t.key, w, home, st))
        if st == 'ok':
            self.previous(key, algo, t.intact, 'save at ' + home)
            return
        self.cached.pop(key, None)
        if st == 'crash':
            sim.probe('crashed')
            self.restart()
        else:
            check(failed, 'save-failed', '{!r}', err)

    def op_two_d(self):
        '''The regular partition of a region without series'''
        sim = self.sim
        regular = [g for g in self.configs if g.name == 'regular']
        if not regular:
            return
        cfg = sim.c.pick(regular)
        t = sim.c.pick([t for t in self.targets])
        if (t, None) not in cfg.ref:
            return
        algo = RegularClusteringAlgorithm(cfg.metadata(), DistanceByDTW())
        st, got = sim.in_proc(self.proc, lambda: algo.partition_2d(
            SpatialRegion(np.zeros((t.x, t.y)))))
        check(st == 'ok', 'failed', 'partition of a spatial region: {!r}', got)
        self.judge(got, cfg, t, None, False, 'spatial region')
        sim.probe('two_d')

    def op_concurrent(self):
        '''Several processes share the cache'''
        sim, c = self.sim, self.sim.c
        first = self.draw_case()
        if first is None:
            return
        jobs, cases = [], []
        home = c.pick(HOMES)
        for i in range(c.int(2, 3)):
            case = first if c.chance(0.7) else self.draw_case()
            if case is None:
                return
            cfg, t, w = case
            wm = c.chance(0.8)
            algo = ClusteringFactory(new_measure(w)).instance(cfg.metadata())
            proc = sim.new_proc('c{}'.format(i))
            cases.append((cfg, t, w, wm, algo))
            jobs.append((proc, lambda algo=algo, t=t, wm=wm: algo.partition(
                t.region, with_medoids=wm, pickle_home=home)))
        plan = sim.fs.draw_plan(['crash_write', 'crash_write', 'enospc', 'eio_write'], 6, 0.5)
        sim.fs.split_writes = True
        sim.fs.arm(plan)
        outs = sim.concurrently(jobs)
        failed = bool(sim.fs.failed())
        sim.fs.disarm()
        sim.fs.split_writes = False
        sim.probe('concurrent')
        sim.nontrivial = True
        for (cfg, t, w, wm, algo), (st, got) in zip(cases, outs):
            what = 'concurrent {} of {} weight {}'.format(cfg.text(), t.md, w)
            self.history.append(('concurrent', cfg.text(), t.key, w, home, wm, st))
            key = (home, t, cfg, w)
            self.touched.add(key)
            if st == 'ok':
                self.judge(got, cfg, t, w, wm, what)
            elif st == 'err' and not failed:
                check(self.without_distances(cfg, t, wm), 'failed', '{}: {!r}', what, got)
            if failed:
                self.cached.pop(key, None)
        if failed:
            return
        # what they left behind is sound
        for (cfg, t, w, wm, algo), (st, got) in zip(cases, outs):
            if st == 'ok':
                self.previous((home, t, cfg, w), algo, False, 'after concurrent calls', False)

    # --- files and processes
    def op_damage(self):
        sim, c = self.sim, self.sim.c
        files = [f for f in sim.fs.files()
                 if f.split('/')[0] in ('pickle', 'other', 'cache') and f.endswith('.pkl')]
        if not files:
            return
        f = c.pick(sorted(files))
        if c.chance(0.3):
            sim.fs.delete(f)
            sim.probe('deleted')
        else:
            sim.fs.damage(f)
            sim.probe('damaged')
        self.history.append(('damage', f))
        home = [h for h in HOMES if f.startswith(h + '/')][0]
        for key in list(self.cached):
            if key[0] == home:
                del self.cached[key]

    def op_distances(self):
        t = self.sim.c.pick(self.targets)
        if t.intact:
            if self.sim.c.chance(0.5):
                self.sim.fs.damage(t.md.distances_filename)
            else:
                self.sim.fs.delete(t.md.distances_filename)
            t.intact = False
        else:
            t.write(self.sim)
        # a measure that still holds the distances keeps them, or not
        self.measures = {}
        self.history.append(('distances', t.key, t.intact))

    def restart(self):
        self.proc = self.sim.restart('p')
        self.measures = {}
        self.sim.probe('restarted')


def repr_key(name, year, scaled):
    return '{}{}{}'.format(name, year, 's' if scaled else '')


OPS = [Run.op_partition] * 6 + [Run.op_previous, Run.op_save, Run.op_two_d, Run.op_concurrent,
                                Run.op_damage, Run.op_damage, Run.op_distances]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    for _ in range(c.int(2, 12)):
        c.pick(OPS)(run)
        if c.chance(0.1):
            run.restart()
    run.restart()
    for t in run.targets:
        t.write(sim)
    # in the end, without faults, everything is as computed afresh
    for cfg in run.configs:
        for t in run.targets:
            w = c.pick(run.weights)
            if (t, w) not in cfg.ref:
                continue
            home = c.pick(HOMES)
            algo = run.algorithm(cfg, w)
            st, got = sim.in_proc(run.proc, lambda: algo.partition(t.region, pickle_home=home))
            check(st == 'ok', 'failed', 'at the end {} of {}: {!r}', cfg.text(), t.md, got)
            run.judge(got, cfg, t, w, True, 'at the end {} of {} weight {} home {}'.format(
                cfg.text(), t.md, w, home))
    run.check_reports()
    describe(sim, targets=[(t.key, (t.x, t.y)) for t in run.targets],
             configs=[g.text() for g in run.configs], history=run.history)
    note_state(sim, run.history, sim.fault_log)
