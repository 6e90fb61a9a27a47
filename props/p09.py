'''P09: clustering depends on data and parameters only, and is well formed.'''
import random

import numpy as np
from tslearn.metrics import dtw

from spta.region.temporal import SpatioTemporalRegion
from spta.distance.dtw import DistanceByDTW
from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
from spta.kmedoids import kmedoids as crisp
from spta.kmedoids import kmedoids_fuzzy as fuzzy
from spta.kmedoids import silhouette
from .common import check, fail, same, short, describe, note_state, draw_data

ID = 'P09'
RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('one run = a history of k-medoids runs (crisp and fuzzy) on a few problems, each under '
        'other circumstances: scrambled random generators, clock jumps, with and without '
        'pre-computed distances, after interrupted runs, and threads interleaved at any line; '
        'every result must be well formed and equal to all other results of the same problem; '
        'non-trivial = threads were switched, a run was interrupted or the clock jumped')
STATES = 'distinct (problems and circumstances in order)'
REAL = ['spta.kmedoids.kmedoids', 'spta.kmedoids.kmedoids_fuzzy', 'spta.kmedoids.silhouette',
        'spta.clustering.kmedoids', 'spta.distance.dtw', 'numpy', 'tslearn', 'sklearn']
STUB = ['thread scheduler, clock, state of the random generators', 'plots are not shown']
PROBES = ['crisp', 'fuzzy', 'precomputed', 'not_precomputed', 'threads', 'interrupted',
          'clock_jump', 'robust', 'lite', 'initial_medoids', 'identical_series', 'algorithm',
          'one_cluster', 'all_medoids', 'silhouette', 'max_iter', 'zero_tol', 'new_process',
          'other_measure', 'same_metadata', 'chain']
WARM = True
WILD_CLOCK = 0.3
QUICK_S = 240
LIMIT = 150000


class Counted:
    '''Counts the work of a run, to tell a run that does not terminate.'''
    n = 0

    @classmethod
    def tick(cls):
        cls.n += 1
        if cls.n > LIMIT:
            fail('does-not-terminate', 'more than {} distance look-ups', LIMIT)


class CountingMatrix(np.ndarray):
    def __getitem__(self, key):
        Counted.tick()
        return np.asarray(np.ndarray.__getitem__(self, key))


class CountingDTW(DistanceByDTW):
    def measure(self, a, b):
        Counted.tick()
        return super().measure(a, b)


class Absolute(CountingDTW):
    '''Another measure: sum of absolute differences'''

    def measure(self, a, b):
        Counted.tick()
        return float(np.abs(np.asarray(a) - np.asarray(b)).sum())


class Problem:
    def __init__(self, sim, number):
        c = sim.c
        self.number = number
        self.x, self.y = c.pick([(1, 2), (2, 2), (2, 3), (3, 2), (3, 3), (1, 7), (4, 3), (1, 1)])
        # series in a row, and medoids at one end of it: they move for many iterations
        self.chain = c.chance(0.2)
        if self.chain:
            self.x, self.y = c.pick([(1, 9), (3, 4), (4, 4), (2, 10), (2, 10)])
            sim.probe('chain')
        n = self.n = self.x * self.y
        data = draw_data(c, c.int(2, 5), self.x, self.y)
        if self.chain:
            step = np.array(c.pick([[1.0], [1.0, 1.1, 1.2], [0.7, 2.0], [1.0, 1.0, 3.0]]))
            level = np.cumsum(np.resize(step, n))
            level = c.pick([level, level ** 2, level ** 2, 1.3 ** level])
            data = np.repeat(level[None, :], c.int(2, 3), axis=0).reshape(-1, self.x, self.y)
        if n > 1 and not self.chain and c.chance(0.35):
            for _ in range(c.int(1, 3)):
                a, b = c.draw(n), c.draw(n)
                data[:, a // self.y, a % self.y] = data[:, b // self.y, b % self.y]
        if not self.chain and c.chance(0.1):
            data[:] = data[:, :1, :1]
        self.data = data
        self.X = SpatioTemporalRegion(data).as_2d
        self.other = c.chance(0.25)
        if self.other:
            sim.probe('other_measure')
            self.dist = np.array([[np.abs(a - b).sum() for b in self.X] for a in self.X])
        else:
            self.dist = np.array([[dtw(a, b) for b in self.X] for a in self.X])
        off = self.dist + np.eye(n)
        if (off <= 0).any():
            sim.probe('identical_series')
        self.k = c.pick([2, 3, 4, 4, 5, 5]) if self.chain else min(c.pick([1, 2, 2, 3, 3, 4, 5, n]), n)
        if self.k == 1:
            sim.probe('one_cluster')
        if self.k == n:
            sim.probe('all_medoids')
        self.seed = c.pick([0, 1, 2, 7, 123456])
        self.mode = c.pick(['lite', 'robust'])
        self.initial = None
        if c.chance(0.4):
            self.initial = [int(i) for i in c.shuffle(range(n))[:self.k]]
            sim.probe('initial_medoids')
        if self.chain and c.chance(0.8):
            self.initial = c.pick([list(range(self.k))] * 3 + [list(range(n))[-self.k:]])
            self.mode = c.pick(['lite', 'lite', 'lite', 'robust'])
        self.max_iter = c.pick([1000] * (12 if self.chain else 3) + [0, 1])
        if self.max_iter < 1000:
            sim.probe('max_iter')
        self.tol = c.pick([0.001, 0.001, 0.001, 0.1, 0])
        if self.tol == 0:
            sim.probe('zero_tol')
        self.fuzzy = c.chance(0.3) and self.tol > 0
        self.m = c.pick([1.5, 2, 3])
        self.ref = None
        self.sim = sim
        self.clustering_md = None
        self.optimal = set()
        # what the caller passes is the same list every time
        self.given = None if self.initial is None else list(self.initial)
        self.inputs = np.array(self.X)
        sim.probe('fuzzy' if self.fuzzy else 'crisp')
        if not self.fuzzy:
            sim.probe(self.mode)
        sim.log('problem {} {}'.format(number, self.text()))

    def text(self):
        return 'n={} k={} seed={} {} init={} iter={} tol={}'.format(
            self.n, self.k, self.seed, 'fuzzy{}'.format(self.m) if self.fuzzy else self.mode,
            self.initial, self.max_iter, self.tol)

    def measure(self, pre):
        m = Absolute() if self.other else CountingDTW()
        if pre:
            m.distance_matrix = self.dist.copy().view(CountingMatrix)
        return m

    def solve(self, how):
        '''how: (pre-computed?, entry point)'''
        pre, entry = how
        m = self.measure(pre)
        init = self.given
        if self.fuzzy:
            if entry == 0:
                r = fuzzy.run_kmedoids_fuzzy(self.X, self.k, self.m, m, initial_medoids=init,
                                             random_seed=self.seed, max_iter=self.max_iter,
                                             tol=self.tol, verbose=False)
            else:
                p = fuzzy.kmedoids_fuzzy_default_params(
                    self.k, m=self.m, distance_measure=m, initial_medoids=init,
                    random_seed=self.seed, max_iter=self.max_iter, tol=self.tol)
                r = fuzzy.run_kmedoids_fuzzy_from_params(self.X, p)
            return ('fuzzy', r.k, [int(i) for i in r.medoids], np.array(r.uij),
                    np.array(r.costs), float(r.total_cost))
        if entry == 2:
            md = self.clustering_md
            if md is None or self.sim.c.chance(0.3):
                md = KmedoidsClusteringMetadata(self.k, random_seed=self.seed, mode=self.mode,
                                                initial_medoids=init, max_iter=self.max_iter,
                                                tol=self.tol)
                self.clustering_md = md
            else:
                self.sim.probe('same_metadata')
            part = KmedoidsClusteringAlgorithm(md, m).partition(SpatioTemporalRegion(self.data))
            return ('partition', part.k, [p.x * self.y + p.y for p in part.medoids],
                    np.array(part.as_numpy).reshape(-1))
        if entry == 0:
            r = crisp.run_kmedoids(self.X, self.k, m, initial_medoids=init,
                                   random_seed=self.seed, mode=self.mode,
                                   max_iter=self.max_iter, tol=self.tol, verbose=False)
        else:
            p = crisp.kmedoids_default_metadata(
                self.k, distance_measure=m, initial_medoids=init, random_seed=self.seed,
                mode=self.mode, max_iter=self.max_iter, tol=self.tol)
            r = crisp.run_kmedoids_from_metadata(self.X, p)
        check((r.k, r.random_seed, r.mode) == (self.k, self.seed, self.mode), 'result-parameters',
              '{}', r[:3])
        return ('crisp', r.k, [int(i) for i in r.medoids], np.array(r.labels),
                np.array(r.costs), float(r.total_cost), np.array(r.medoid_distances))

    def cost_of(self, medoids):
        if not self.fuzzy:
            return self.dist[:, medoids].min(axis=1).sum()
        d = self.dist[:, medoids]
        total = 0.0
        for row in d:
            if (row > 0).all():
                w = (1 / row) ** (1 / (self.m - 1))
                total += (w / w.sum() * row).sum()
        return total

    def well_formed(self, got):
        kind, k, medoids = got[:3]
        what = '{} {}'.format(kind, self.text())
        check(k == self.k, 'k', '{}: {}', what, k)
        check(len(medoids) == self.k and len(set(medoids)) == self.k and
              all(0 <= i < self.n for i in medoids), 'medoids-not-distinct', '{}: {}', what,
              medoids)
        d = self.dist[:, medoids]
        if kind == 'fuzzy':
            u, costs, total = got[3:]
            check(u.shape == (self.n, k), 'membership-shape', '{}: {}', what, u.shape)
            check(np.isfinite(u).all() and (u >= -1e-12).all() and (u <= 1 + 1e-12).all() and
                  np.allclose(u.sum(axis=1), 1, atol=1e-6), 'memberships', '{}: {}', what,
                  short(u))
            ref = (u * d).sum(axis=0)
            check(same(costs, ref, 1e-7) and same(total, ref.sum(), 1e-7), 'cost', '{}: {} {} '
                  'expected {}', what, costs, total, ref)
            for j, i in enumerate(medoids):
                if (d[i] > 0).sum() == k - 1:
                    check(same(u[i, j], 1), 'medoid-membership', '{}: {}', what, short(u[i]))
            check(same(total, self.cost_of(medoids), 1e-6), 'cost', '{}: {} expected {}', what,
                  total, self.cost_of(medoids))
        else:
            labels = got[3]
            check(labels.shape == (self.n,) and set(labels) <= set(range(k)), 'labels', '{}: {}',
                  what, labels)
            check(set(labels) == set(range(k)), 'empty-cluster', '{}: {}', what, labels)
            check([labels[i] for i in medoids] == list(range(k)), 'medoid-not-in-its-cluster',
                  '{}: medoids {} labels {}', what, medoids, labels)
            own = d[np.arange(self.n), labels]
            check((own <= d.min(axis=1) + 1e-9).all(), 'not-nearest', '{}: {} {}', what, medoids,
                  labels)
            total = own.sum()
            if kind == 'crisp':
                costs, reported, md = got[4:]
                ref = np.array([own[labels == j].sum() for j in range(k)])
                check(same(costs, ref, 1e-7), 'cost', '{}: {} expected {}', what, costs, ref)
                check(same(reported, total, 1e-7), 'cost', '{}: {} expected {}', what, reported,
                      total)
                check(same(md, d, 1e-7), 'medoid-distances', '{}: {} expected {}', what,
                      short(md), short(d))
        if self.initial is not None:
            first = self.cost_of(self.initial)
            check(total <= first + 1e-7, 'worse-than-initial', '{}: {} > {}', what, total, first)
        if self.max_iter == 1000 and tuple(medoids) not in self.optimal:
            self.locally_optimal(what, medoids, None if kind == 'fuzzy' else got[3])
            self.optimal.add(tuple(medoids))

    def locally_optimal(self, what, medoids, labels):
        '''It stopped because there was nothing left to improve.'''
        total = self.cost_of(medoids)
        for j in range(self.k):
            for i in range(self.n):
                if i in medoids:
                    continue
                if labels is not None and self.mode == 'lite' and labels[i] != j:
                    continue
                other = list(medoids)
                other[j] = i
                cost = self.cost_of(other)
                check(total - cost <= self.tol + 1e-6, 'not-a-local-minimum',
                      '{}: medoids {} cost {}, but {} cost {}', what, medoids, total, other, cost)

    def judge(self, got, circumstances):
        self.well_formed(got)
        check(self.given is None or self.given == self.initial, 'initial-medoids-changed',
              '{}: {}', self.text(), self.given)
        check(np.array_equal(self.X, self.inputs), 'data-changed', '{}', self.text())
        if self.ref is None:
            self.ref = got
            return
        check(got[2] == self.ref[2], 'other-medoids', '{} {}: {} was {}', self.text(),
              circumstances, got[2], self.ref[2])
        check(same(got[3], self.ref[3], 1e-7), 'other-clusters', '{} {}: {} was {}', self.text(),
              circumstances, short(got[3]), short(self.ref[3]))


class Kept:
    '''A result obtained earlier: it does not change any more.'''

    def __init__(self, got):
        self.got = got
        self.copy = [np.array(v, dtype=object) if isinstance(v, str) else np.array(v)
                     for v in got]


def draw_how(sim, p):
    pre = sim.c.chance(0.5)
    sim.probe('precomputed' if pre else 'not_precomputed')
    entry = sim.c.draw(2 if p.fuzzy else 3)
    if entry == 2:
        sim.probe('algorithm')
    return pre, entry


def scramble(sim, proc):
    c = sim.c
    how = c.draw(4)
    if how == 0:
        seed = c.seed() % 2 ** 32
        sim.in_proc(proc, lambda: np.random.seed(seed))
        random.seed(c.seed())
    elif how == 1:
        n = c.draw(100)
        sim.in_proc(proc, lambda: np.random.rand(n))
        random.random()
    elif how == 2:
        sim.tick(c.pick([-3600.0, 86400.0, 1e7, -1e6]))
        sim.probe('clock_jump')
        sim.fault('clock_jump')


def do_silhouette(sim, proc, p):
    '''The best k of a silhouette analysis with the default measure'''
    if p.other or p.n < 4:
        return
    ks = [k for k in (2, 3) if k < p.n]
    sim.probe('silhouette')

    def fn():
        md = silhouette.silhouette_default_metadata(
            k_values=ks, seed_values=[0, 1], kmedoids_mode=p.mode, show_graphs=False,
            save_graphs=None)
        return silhouette.do_silhouette_analysis(SpatioTemporalRegion(p.data), md)
    st, got = sim.in_proc(proc, fn)
    check(st == 'ok', 'silhouette-failed', '{} {!r}', p.text(), got)
    best_k, best_seed, medoids, labels = got
    if medoids is None:
        return
    # its clustering is that of this region
    d = p.dist[:, medoids]
    own = d[np.arange(p.n), np.asarray(labels)]
    check((own <= d.min(axis=1) + 1e-9).all(), 'not-nearest', 'silhouette: {} {}', medoids,
          labels)
    from sklearn.metrics import silhouette_score
    scores = {}
    for seed in (0, 1):
        for k in ks:
            r = crisp.run_kmedoids(p.X, k, p.measure(True), random_seed=seed, mode=p.mode,
                                   verbose=False)
            scores[k, seed] = silhouette_score(X=p.dist, labels=r.labels, metric='precomputed')
    check(scores[best_k, best_seed] >= max(scores.values()) - 1e-9, 'silhouette',
          'best {} of {}', (best_k, best_seed), scores)


def scenario(sim):
    c = sim.c
    problems = [Problem(sim, i) for i in range(c.int(1, 3))]
    proc = sim.new_proc('p')
    history = []
    kept = []
    for step in range(c.int(2, 7)):
        Counted.n = 0
        how = c.draw(8)
        p = c.pick(problems)
        if sim.wild_clock:
            sim.wild_clock = c.pick([0.05, 0.3, 0.8])
        if c.chance(0.2):
            proc = sim.restart('p')
            sim.probe('new_process')
        scramble(sim, proc)
        if how <= 3:
            h = draw_how(sim, p)
            st, got = sim.in_proc(proc, lambda: p.solve(h))
            check(st == 'ok', 'failed', '{} {}: {!r}', p.text(), h, got)
            p.judge(got, h)
            kept.append(Kept(got))
            history.append((p.number, 'run', h))
        elif how <= 5:          # threads
            jobs = [c.pick(problems) for _ in range(c.int(2, 3))]
            hs = [draw_how(sim, q) for q in jobs]
            sim.probe('threads')
            same_proc = c.chance(0.8)
            todo = []
            for i, (q, h) in enumerate(zip(jobs, hs)):
                pr = proc if same_proc else sim.new_proc('t{}'.format(i))
                todo.append((pr, lambda q=q, h=h: q.solve(h)))
            outs = sim.concurrently(todo, preempt=c.pick([2, 6, 20]))
            sim.nontrivial = True
            for q, h, (st, got) in zip(jobs, hs, outs):
                check(st == 'ok', 'failed', '{} {} in a thread: {!r}', q.text(), h, got)
                q.judge(got, 'thread {}'.format(h))
                kept.append(Kept(got))
                history.append((q.number, 'thread', h))
        elif how == 6:          # interrupted
            h = draw_how(sim, p)
            exc = c.pick([MemoryError, KeyboardInterrupt])('injected')

            def body():
                sim.raise_at_line(c.small(0, 2000), exc)
                try:
                    return p.solve(h)
                finally:
                    sim.clear_line_fault()
            st, got = sim.in_proc(proc, body)
            if st == 'ok':
                p.judge(got, h)
            else:
                check(getattr(got, 'injected', False), 'failed', '{} {}: {!r}', p.text(), h, got)
                sim.probe('interrupted')
            history.append((p.number, 'interrupt', h))
        elif c.chance(0.4):
            do_silhouette(sim, proc, p)
            history.append((p.number, 'silhouette'))
    for p in problems:
        Counted.n = 0
        h = draw_how(sim, p)
        st, got = sim.in_proc(proc, lambda: p.solve(h))
        check(st == 'ok', 'failed', '{} {}: {!r}', p.text(), h, got)
        p.judge(got, h)
    for kp in kept:
        check(all(np.array_equal(np.array(a, dtype=object) if isinstance(a, str) else np.array(a),
                                 b) for a, b in zip(kp.got, kp.copy)), 'result-changed')
    describe(sim, problems=[p.text() for p in problems], history=history)
    note_state(sim, [p.text() for p in problems], history, sim.fault_log)
