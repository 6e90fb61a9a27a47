'''P22: a saved figure shows the values of the region, the clustering and the query it is for.'''
import json
import re

import numpy as np

import experiments.clustering.silhouette as kmedoids_silhouette
from spta.distance.dtw import DistanceByDTW
from spta.distance.variance import DistanceHistogram
from spta.kmedoids.silhouette import silhouette_default_metadata
from spta.region import Point
from .common import check, describe, fail, note_state, same
from . import p21, solvers

ID = 'P22'
RUNS = {'quick': 1200, 'thorough': 25000}
RULE = ('one run = a history of programs that save figures (error analyses, distances, variance '
        'and silhouette of a suite of clusterings, the commands of k-medoids with silhouettes, '
        'queries of solvers) with drawn arguments on '
        'shared datasets and stores, each in a new process with drawn random numbers, windows '
        'left open or closed, under crashes, disk errors, exceptions at chosen lines, lost or '
        'damaged files and two programs at once; what each saved figure shows and every report '
        'is compared with an independent computation; non-trivial = a fault struck, or a '
        'program found files of another one')
STATES = p21.STATES
REAL = p21.REAL + ['matplotlib (making of figures)', 'sklearn (silhouette)']
STUB = p21.STUB + ['rendering of figures (what they show is written instead), windows']
PROBES = ['train', 'predict', 'training_error', 'distance_errors', 'distances', 'analysis',
          'variance', 'random_points', 'all_outside', 'silhouette', 'bins', 'single_point',
          'refused', 'crashed', 'disk_error', 'line_error', 'deleted', 'damaged', 'parallel',
          'failed_fit', 'same_files', 'again', 'concurrent', 'closed', 'missing_model',
          'random_unused', 'save_region', 'silhouettes', 'show_distances',
          'whole_region']
WARM = True
QUICK_S = 240
FIGURES = ('.pdf', '.eps', '.png', '.ps', '.svg', '.jpg', '.jpeg', '.tif', '.tiff')


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-9, equal_nan=True))


def in_order(pairs):
    '''Pairs as an array in a fixed order; those that are not finite show nothing'''
    rows = [tuple(float(v) for v in p) for p in pairs]
    rows = [p for p in rows if len(p) == 2 and np.all(np.isfinite(p))]
    return np.array(sorted(rows)).reshape(-1, 2)


def same_points(points, pairs):
    a, b = in_order(points), in_order(pairs)
    if a.shape != b.shape:
        return False
    if close(a, b):
        return True
    left = [tuple(p) for p in b]            # order may depend on the last digits
    for p in a:
        at = [i for i, q in enumerate(left) if close(p, q)]
        if not at:
            return False
        left.pop(at[0])
    return True


def silhouettes(d, labels):
    '''Silhouette of each sample'''
    n = len(labels)
    out = []
    for i in range(n):
        mine = [j for j in range(n) if labels[j] == labels[i]]
        if len(mine) == 1:
            out.append(0.0)
            continue
        a = sum(d[i][j] for j in mine) / (len(mine) - 1)
        b = min(float(np.mean([d[i][j] for j in range(n) if labels[j] == other]))
                for other in set(labels) if other != labels[i])
        out.append((b - a) / max(a, b) if max(a, b) > 0 else 0.0)
    return out


def colours(image):
    image = np.asarray(image, dtype=float)
    return image.reshape(image.shape[0], image.shape[1], -1)


def shows_silhouettes(got, labels, groups, mean):
    '''The partition; the silhouettes of each cluster, with its label and colour; their mean'''
    if got is None:
        return False
    images = [i for a in got['axes'] for i in a['images'] if shows_labels(i, labels)]
    found = [a for a in got['axes'] if a['fills']]
    if not images or len(found) != 1:
        return False
    axes = found[0]
    fills = axes['fills']
    if len(fills) != len(groups) or not any(
            len(p) and all(close(q[0], mean) for q in p) for p in axes['points']):
        return False
    middles = []
    for fill in fills:
        ys = [p[1] for poly in fill for p in poly]
        middles.append((min(ys) + max(ys)) / 2)
    taken = set()
    for b, values in enumerate(groups):
        at = [p[1] for text, p in zip(axes['texts'], axes['text_at']) if text == str(b)]
        if len(at) != 1:
            return False
        i = int(np.argmin([abs(m - at[0]) for m in middles]))
        x, y = np.argwhere(labels == b)[0]
        colour = colours(images[0])[x, y]
        if i in taken or not shows_fill(values, fills[i]) or len(colour) < 3 or \
                not close(axes['fill_colours'][i][0][:3], colour[:3]):
            return False
        taken.add(i)
    return True


def side_by_side(found):
    '''Axes from left to right, then from top to bottom'''
    return sorted(found, key=lambda a: (-round(a['at'][1] + a['at'][3], 6), a['at'][0]))


def like_regions(found, labels):
    '''Axes are where the parts of a regular partition are'''
    places = [(np.argwhere(labels == b).min(axis=0)) for b in range(len(found))]
    for a, p in zip(found, places):
        for b, q in zip(found, places):
            for i, n in ((1, 0), (0, 1)):
                side = a['at'][i] - b['at'][i] if i == 0 else b['at'][i] - a['at'][i]
                if np.sign(round(side, 6)) != np.sign(int(p[n]) - int(q[n])):
                    return False
    return True


def shows_labels(image, labels):
    '''Points have the same colour if they have the same label'''
    image = colours(image)
    if image.shape[:2] != labels.shape:
        return False
    pairs = {(tuple(image[i, j]), int(labels[i, j]))
             for i in range(labels.shape[0]) for j in range(labels.shape[1])}
    return len(pairs) == len({a for a, _ in pairs}) == len({b for _, b in pairs})


class Histogram:
    '''Distances of a cluster, and those of the points that are not in it'''

    def __init__(self, inside, outside, count, bins):
        self.inside, self.outside, self.count, self.bins = inside, outside, count, bins

    def fits(self, axes):
        try:
            return self.bars_fit(axes) and self.seen(axes) and self.text_fits(axes['texts'])
        except (KeyError, ValueError, TypeError, IndexError):
            return False

    def bars_fit(self, axes):
        bars = axes['bars']
        if len(bars) != (1 if self.count is None else 2):
            return False
        if self.count is None:
            return self.exact(bars[0], self.inside)
        return any(self.exact(bars[i], self.inside) and self.drawn(bars[1 - i])
                   for i in (0, 1))

    def exact(self, bars, values):
        heights, edges = np.histogram(values, bins=self.bins)
        return close(bars, [[edges[i], edges[i + 1], h] for i, h in enumerate(heights)])

    def drawn(self, bars):
        '''Of so many different points outside'''
        if abs(sum(b[2] for b in bars) - self.count) > 1e-9:
            return False
        if self.count == len(self.outside):
            return self.exact(bars, self.outside)
        left, right = bars[0][0], bars[-1][1]
        for i, (a, b, h) in enumerate(bars):
            eps = 1e-9 * (1 + abs(right))
            if h > sum(1 for v in self.outside if a - eps <= v <= b + eps):
                return False
        low, high = left, right
        if sum(1 for b in bars if b[2] > 0) == 1 and abs(right - left - 1) < 1e-9:
            middle = (left + right) / 2         # all equal, or really that far apart
            if any(close(v, middle) for v in self.outside):
                return True
        return any(close(v, low) for v in self.outside) and \
            any(close(v, high) for v in self.outside)

    def seen(self, axes):
        '''Nothing is beyond the axis'''
        top = axes['xlim'][1] * (1 + 1e-9) + 1e-9
        if max(self.inside) > top:
            return False
        for bars in axes['bars']:
            full = [b for b in bars if b[2] > 0]
            if full and full[-1][0] > top:
                return False
            if len(full) > 1 and full[-1][1] > top:
                return False
        return True

    def text_fits(self, texts):
        text = '\n'.join(texts)
        n = len(self.inside)
        values = {'n': n, 'max': max(self.inside), 'x\u0305': np.mean(self.inside),
                  's': np.std(self.inside), 'M': np.median(self.inside)}
        if n > 1:
            values['min'] = sorted(self.inside)[1]
        if self.count is not None:
            values['#rand'] = self.count
            if self.count == len(self.outside):
                values['\u2229rand'] = sum(1 for v in self.outside if v < max(self.inside))
        for name, value in values.items():
            m = re.search('^' + re.escape(name) + r' = +(\S+)$', text, re.M)
            if m is None or not p21.is_near(m[1], value, 0.005):
                return False
        return True


class Run(p21.Run):
    few_single = True

    def __init__(self, sim):
        self.read = {}
        self.known_silhouettes = {}
        self.saved = {}         # regions that were saved: yes, maybe
        self.ks = sorted(sim.c.shuffle([2, 3, 4])[:sim.c.pick([1, 1, 2, 2, 3])])
        self.seeds = sorted(sim.c.shuffle([0, 1, 2])[:sim.c.int(1, 2)])
        super().__init__(sim)
        if min(t.n for t in self.targets) == 4 and self.sim.c.chance(0.9):
            self.ks = [k for k in self.ks if k < 4] or [2]
        for t in self.targets:
            if self.sim.c.chance(0.5):
                with sim.fs.quiet():
                    np.save(t.metadata().dataset_filename, t.used)
                self.saved[t.key] = 'yes'
        for k in self.ks:           # while the distances are there
            for seed in self.seeds:
                o = solvers.Clustering('kmedoids', k, {'random_seed': seed, 'mode': 'lite'})
                o = self.pool.setdefault(o.text(), o)
                for t in self.targets:
                    if k < t.n:
                        o.reference(sim, t)

    # --- figures
    def reports(self):
        fs = self.sim.fs
        return {f: fs.read(f) for f in fs.files() if f.startswith(('outputs/', 'plots/')) and
                f.endswith(('.csv',) + FIGURES)}

    def figure(self, path):
        '''Axes and texts of a saved figure'''
        if not path.endswith(FIGURES):
            return None
        data = self.sim.fs.read(path) or b''
        if data not in self.read:
            try:
                got = json.loads(data.decode('utf-8'))
                got = got if isinstance(got, dict) and got.get('axes') else None
            except ValueError:
                got = None
            self.read[data] = got
        return self.read[data]

    def shows_points(self, pairs):
        def right(path):
            got = self.figure(path)
            return got is not None and same_points(
                [q for a in got['axes'] for p in a['points'] for q in p], pairs)
        return right

    def shows_values(self, values):
        def right(path):
            got = self.figure(path)
            images = [i for a in got['axes'] for i in a['images']] if got else []
            return len(images) == 1 and close(images[0], values)
        return right

    def dist_error(self, job, key, t, members, medoid, exp, error):
        errors = exp.single(medoid, error)
        mi = medoid[0] * t.y + medoid[1]
        self.add_points(job, key, [(t.distances[mi][p[0] * t.y + p[1]], errors[p])
                                   for p in members])

    def add_points(self, job, key, pairs):
        if len(in_order(pairs)):
            job.pieces.append((key, self.shows_points(pairs)))
        else:
            job.others.add(key)         # an empty figure

    # --- programs
    def job_training_error(self):
        job = super().job_training_error()
        if self.sim.c.chance(0.2):
            return job
        t = job.t
        for key, _ in list(job.pieces):
            _, auto, name, _, text, error = key
            o = self.pool[text]
            for a, (members, medoid) in enumerate(self.clusters(o, t)):
                if auto:
                    models = [self.autos[name].parameters()]
                else:
                    ps, ds, qs = self.arimas[name]
                    models = [p21.ArimaPDQ(p, d, q) for p in ps for d in ds for q in qs]
                for m in models:
                    exp = self.expected(t, members, medoid, 'auto' if auto else 'arima', m, 8)
                    if np.all(np.isnan(exp.fc[medoid])):
                        self.sim.probe('missing_model')
                    what = self.autos[name].text() if auto else tuple(m)
                    self.dist_error(job, ('dist_error', what, t.key, text, a, error), t,
                                    members, medoid, exp, error)
        job.argv = job.argv + ['--plots']
        return job

    def job_distance_errors(self):
        job = super().job_distance_errors()
        if self.sim.c.chance(0.2):
            return job
        for key, right in list(job.pieces):
            _, what, name, text, a, error = key
            rows = right.__defaults__[0]
            self.add_points(job, ('dist_error', what, name, text, a, error),
                            [r[1:] for r in rows])
        job.argv = job.argv + ['--plots']
        return job

    def job_distances(self):
        job = super().job_distances()
        if self.sim.c.chance(0.2):
            return job
        self.distances_of(job)
        job.argv = job.argv + ['--plots']
        return job

    def job_predict(self):
        job = super().job_predict()
        case = job.predict
        t, o = case.t, case.clustering
        labels, medoids = o.reference(self.sim, t)
        rect = job.pieces[0][0][2]
        x1, x2, y1, y2 = rect

        def right(path):
            got = self.figure(path)
            return got is not None and any(
                any(shows_labels(image, labels) for image in a['images']) and
                sorted(tuple(q) for p in a['points'] for q in p) ==
                sorted((float(y), float(x)) for x, y in medoids) and
                any(close(r, [y1 - 0.5, x1 - 0.5, y2 - y1, x2 - x1]) for r in a['rectangles'])
                for a in got['axes'])
        job.pieces.append((('query', t.key, o.text(), rect), right))
        return job

    def job_analysis(self):
        '''Variance and silhouette of a suite'''
        c = self.sim.c
        job = super().job_analysis()
        t = job.t
        s = [s for s in self.suites if [s.name, s.identifier] in (
            [job.argv[i:i + 2] for i in range(len(job.argv) - 1)])][0]
        possible = job.possible
        extra = []
        if c.chance(0.7):
            self.sim.probe('variance')
            extra, ok = self.variance(job, t, s, possible)
            possible = possible and ok
        elif c.chance(0.2):
            extra = ['--random', '2']
            possible, job.refused = False, True
            self.sim.probe('random_unused')
        if c.chance(0.4):
            self.sim.probe('silhouette')
            extra.append('--silhouette')
            possible = self.silhouette(job, t, s, possible) and possible
        if not possible:
            job.others = {(what, t.key, o.text()) for o in s.parts
                          for what in ('variance', 'silhouette')}
            job.others.update(job.keys())
            job.pieces = []
        job.possible = possible
        job.argv = job.argv + extra
        return job

    def variance(self, job, t, s, possible):
        c = self.sim.c
        extra = ['--variance']
        bins, n = 'auto', None
        if c.chance(0.3):
            bins = c.pick(['sqrt', 'fd', '3', '7'])
            extra += ['--bins', bins]
            self.sim.probe('bins')
            bins = int(bins) if bins.isdigit() else bins
        if c.chance(0.6):
            n = c.pick([0, 1, 2, 3, 5, 40])
            extra += ['--random', str(n)]
            self.sim.probe('random_points')
        if not possible or any(o.k < 2 for o in s.parts):
            return extra, False
        for o in s.parts:
            wanted = []
            for members, medoid in self.clusters(o, t):
                if not members:
                    return extra, False
                mi = medoid[0] * t.y + medoid[1]
                at = [x * t.y + y for x, y in members]
                inside = [float(t.distances[mi][i]) for i in at]
                outside = [float(t.distances[mi][i]) for i in range(t.n) if i not in at]
                count = None if n is None else min(n or len(inside), len(outside))
                if len(inside) == 1:
                    self.sim.probe('single_point')
                if count == len(outside):
                    self.sim.probe('all_outside')
                wanted.append(Histogram(inside, outside, count, bins))

            def right(path, wanted=wanted, o=o, labels=o.reference(self.sim, t)[0]):
                got = self.figure(path)
                if got is None:
                    return False
                found = side_by_side([a for a in got['axes'] if a['bars']])
                return len(found) == len(wanted) and all(
                    w.fits(a) for w, a in zip(wanted, found)) and (
                        o.name != 'regular' or like_regions(found, labels))
            job.pieces.append((('variance', t.key, o.text()), right))
        return extra, True

    def job_whole_region(self):
        '''The distances of all points of a region to one of them'''
        c = self.sim.c
        t = c.pick(self.targets)
        x, y = c.draw(t.x), c.draw(t.y)
        bins = c.pick(['auto', 'auto', 'sqrt', 3])
        name = 'plots/whole_{}_{}_{}_{}.pdf'.format(t.key, x, y, bins)

        def entry():
            region = t.metadata().create_instance()
            measure = DistanceByDTW()
            if measure.try_load_distance_matrix(region) is None:
                measure.compute_distance_matrix(region)
            region.centroid = Point(x, y)
            DistanceHistogram.histogram_to_centroid(region, measure, bins, name)
        want = Histogram([float(v) for v in t.distances[x * t.y + y]], [], None, bins)

        def right(path):
            got = self.figure(path)
            found = [a for a in got['axes'] if a['bars']] if got is not None else []
            return len(found) == 1 and want.fits(found[0])
        return p21.Job('whole_region', entry, [], t, name, [(('whole', name), right)],
                       distances=False)

    def silhouette(self, job, t, s, possible):
        for o in s.parts if possible else []:
            shown = self.silhouettes_of(o, t)
            if shown is None:
                return False
            job.pieces.append((('silhouette', t.key, o.text()), self.shows_shown(shown)))
        return possible

    def shows_shown(self, shown):
        return lambda path: shows_silhouettes(self.figure(path), *shown)

    def silhouettes_of(self, o, t):
        '''(labels, silhouettes of each cluster, mean)'''
        key = o.text(), t.key
        if key not in self.known_silhouettes:
            labels, _ = o.reference(self.sim, t)
            flat = [int(v) for v in labels.ravel()]
            if not 2 <= len(set(flat)) < len(flat) or len(set(flat)) < o.k:
                return None
            values = silhouettes(t.distances, flat)
            groups = [np.array([v for v, a in zip(values, flat) if a == b])
                      for b in range(o.k)]
            self.known_silhouettes[key] = labels, groups, float(np.mean(values))
        return self.known_silhouettes[key]

    # --- k-medoids with silhouettes: its own commands
    def tables(self):
        out = super().tables()
        out['silhouette_metadata_by_name'] = lambda name: silhouette_default_metadata(
            list(self.ks), list(self.seeds), plot_name=name)
        return out

    def job_save_region(self):
        t = self.sim.c.pick(self.targets)
        return self.command_job('save_region', 'save', t, distances=False)

    def command_job(self, program, word, t, pieces=(), **kwargs):
        return p21.Job(program, kmedoids_silhouette.processRequest, [t.key, word], t,
                       '{} {}'.format(t.key, word), pieces, **kwargs)

    def job_of_saved(self):
        '''A command that needs the region that was saved'''
        c = self.sim.c
        t = c.pick([t for t in self.targets if t.key in self.saved] or self.targets)
        how = c.pick(['distances', 'kmedoids', 'kmedoids', 'show_distances'])
        if how == 'distances':
            job = self.command_job('distances', how, t, distances=False)
            job.saves = t
        elif how == 'show_distances':
            job = self.command_job('show_distances', how, t)
            self.distances_of(job)
        else:
            job = self.job_silhouettes(t)
        job.possible = job.possible and self.saved.get(t.key) == 'yes'
        job.needs_region = True
        return job

    def distances_of(self, job):
        t = job.t
        middle = (t.x // 2) * t.y + t.y // 2
        for name, at in (('first', 0), ('middle', middle)):
            job.pieces.append((('distances', t.name, name),
                               self.shows_values(t.distances[at].reshape(t.x, t.y))))

    def job_silhouettes(self, t):
        job = self.command_job('silhouettes', 'kmedoids', t)
        parts = {(k, seed): solvers.Clustering('kmedoids', k, {'random_seed': seed,
                                                               'mode': 'lite'})
                 for k in self.ks for seed in self.seeds}
        parts = {key: self.pool.setdefault(o.text(), o) for key, o in parts.items()}
        keys = {key: ('silhouettes', t.name) + key for key in parts}
        shown = {}
        if all(2 <= k < t.n for k in self.ks) and all(
                t in o.ref or t.intact for o in parts.values()):
            shown = {key: self.silhouettes_of(o, t) for key, o in parts.items()}
        if not shown or None in shown.values():
            job.possible, job.others = False, set(keys.values())
            return job
        job.pieces = [(keys[key], self.shows_shown(shown[key])) for key in parts]
        best = max(mean for _, _, mean in shown.values())

        def printed(out):
            last = (self.sim.shown or [None])[-1]
            check(any(shows_silhouettes(last, *shown[key]) and re.search(
                r'\b{}\b'.format(key[0]), '\n'.join(last['texts']))
                for key in shown if shown[key][2] >= best - 1e-9),
                'best-silhouette', '{} {} {}: {}', t.key, self.ks, self.seeds,
                {key: mean for key, (_, _, mean) in shown.items()})
        job.printed = printed
        return job

    def done(self, job, out):
        if getattr(job, 'needs_region', False):
            check(job.t.key in self.saved, 'no-region', '{} {}', job.program, job.text)
        if job.program == 'save_region':
            try:
                with self.sim.fs.quiet():
                    got = np.load(job.t.metadata().dataset_filename)
            except (OSError, ValueError, EOFError) as e:
                fail('other-region', '{} succeeded: {!r}', job.text, e)
            check(same(got, job.t.used), 'other-region', '{}: {}', job.text, got)
            self.saved[job.t.key] = 'yes'
        super().done(job, out)

    def not_done(self, job, st, got, failed):
        if job.program == 'save_region':
            self.saved[job.t.key] = 'maybe'
        if getattr(job, 'needs_region', False) and self.saved.get(job.t.key) != 'yes':
            job.possible = False
        super().not_done(job, st, got, failed)

    def op_damage(self):
        c = self.sim.c
        saved = sorted(k for k, v in self.saved.items() if v == 'yes')
        if not saved or c.chance(0.7):
            return super().op_damage()
        key = c.pick(saved)
        f = [t for t in self.targets if t.key == key][0].metadata().dataset_filename
        if c.chance(0.5):
            self.sim.fs.delete(f)
            del self.saved[key]
        else:
            self.sim.fs.damage(f)
            self.saved[key] = 'maybe'
        self.history.append(('damage', f))

    def draw_job(self):
        c = self.sim.c
        jobs = [self.job_training_error] * 2 + [self.job_distance_errors, self.job_distances] + \
            [self.job_analysis] * 4 + [self.job_save_region] + \
            [self.job_whole_region] + \
            [self.job_of_saved] * (5 if self.saved else 1)
        if self.cases:
            jobs += [self.job_train] * 2 + [self.job_predict] * 3
        return c.pick(jobs)()

    def body(self, job, out, line=None):
        fn = super().body(job, out, line)
        c = self.sim.c
        self.sim.windows_closed = c.chance(0.4)
        if self.sim.windows_closed:
            self.sim.probe('closed')
        seed = c.draw(1000)

        def with_numbers():
            np.random.seed(seed)
            self.sim.shown = []
            return fn()
        return with_numbers


def shows_fill(values, fill):
    '''A bar for each value'''
    xs = sorted({round(p[0], 9) for poly in fill for p in poly} - {0.0})
    want = sorted({round(float(v), 9) for v in values} - {0.0})
    if len(xs) != len(want):
        return any(abs(a - b) < 1e-8 for a, b in zip(xs, xs[1:])) and \
            all(min(abs(x - w) for w in want or [0]) < 1e-7 for x in xs)
    return all(abs(a - b) < 1e-7 for a, b in zip(xs, want))


OPS = [Run.op_run] * 9 + [Run.op_refused, Run.op_damage, Run.op_concurrent]


def scenario(sim):
    c = sim.c
    run = Run(sim)
    run.text_of = lambda path: sim.fs.read(path)
    import os
    with sim.fs.quiet():
        os.makedirs('plots', exist_ok=True)
    for _ in range(c.int(2, 7)):
        c.pick(OPS)(run)
    sim.windows_closed = False
    for t in run.targets:
        if not t.intact:
            t.write()
    if getattr(run, 'last', None) is not None and run.last.program != 'predict':
        run.run(run.last, False)
    describe(sim, cases=[o.text() for o in run.cases], history=run.history)
    note_state(sim, run.history, sim.fault_log)
