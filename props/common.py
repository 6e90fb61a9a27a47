'''Generators and reference models shared by the properties.'''
import contextlib
import io
import pickle
import sys

import numpy as np

from sim.kernel import Violation, Discard
from spta.region import Point, Region, TimeInterval
from spta.region.spatial import SpatialRegion
from spta.region.temporal import SpatioTemporalRegion, SpatioTemporalCluster
from spta.region.metadata import SpatioTemporalRegionMetadata
from spta.region.scaling import ScaleFunction
from spta.region.partition import PartitionRegionCrisp


def fail(sig, msg='', *args):
    raise Violation(sig, msg.format(*args) if args else msg)


def check(cond, sig, msg='', *args):
    if not cond:
        fail(sig, msg, *args)


def same(a, b, tol=1e-9):
    '''Equal arrays (or numbers), NaN equals NaN.'''
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.array_equal(a, b, equal_nan=True))


def short(a):
    with np.printoptions(precision=4, threshold=60, linewidth=150):
        return str(np.asarray(a))


# ---------------------------------------------------------------------------- shapes, data

def draw_shape(c, max_points=12, max_side=5, min_points=1):
    '''(x_len, y_len), also with sides of one, usually not square'''
    for _ in range(50):
        x, y = c.int(1, max_side), c.int(1, max_side)
        if min_points <= x * y <= max_points:
            return x, y
    return (1, min_points)


def draw_data(c, series_len, x_len, y_len, levels=True):
    '''(series_len, x_len, y_len) values, every series different with near certainty'''
    rs = np.random.RandomState(c.seed())
    style = c.draw(4)
    shape = (series_len, x_len, y_len)
    if style == 0:
        return rs.uniform(0, 10, shape)
    if style == 1:          # temperatures: seasonal curves with own level and amplitude
        t = np.arange(series_len).reshape(-1, 1, 1)
        level = rs.uniform(-20, 40, (1, x_len, y_len))
        amp = rs.uniform(0.5, 8, (1, x_len, y_len))
        return level + amp * np.sin(t / 3.0 + rs.uniform(0, 6, (1, x_len, y_len))) + \
            rs.normal(0, 0.3, shape)
    if style == 2:          # small integers: many ties between points
        return rs.randint(0, 4, shape).astype(float) + \
            rs.randint(0, 3, (1, x_len, y_len)) * 10.0
    return np.cumsum(rs.normal(0, 1, shape), axis=0)    # random walks


def distinct_series(data):
    '''All points have different series'''
    flat = data.reshape(data.shape[0], -1).T
    return len({s.tobytes() for s in flat}) == flat.shape[0]


def put_nans(c, data, p_region=0.3):
    '''Sometimes make a few points have missing values. Returns the list of such points.'''
    if not c.chance(p_region):
        return []
    _, x_len, y_len = data.shape
    out = []
    for _ in range(c.int(1, 3)):
        i, j = c.draw(x_len), c.draw(y_len)
        if c.chance(0.5):
            data[:, i, j] = np.nan
        else:
            data[c.draw(data.shape[0]), i, j] = np.nan
        out.append((i, j))
    return out


def memory_layout(c, data):
    '''The same values in another memory layout: views, Fortran order, other types.'''
    how = c.draw(4)
    if how == 0:
        return data
    if how == 1:
        return np.asfortranarray(data)
    if how == 2:        # view into a larger array
        big = np.full(tuple(n + 2 for n in data.shape), -7.0)
        big[1:-1, 1:-1, 1:-1] = data
        return big[1:-1, 1:-1, 1:-1]
    return np.ascontiguousarray(data.transpose(1, 2, 0)).transpose(2, 0, 1)


def metadata(c, x_len, y_len, scaled=False, name='reg', offset=True):
    x1, y1 = (c.int(0, 40), c.int(0, 60)) if offset else (0, 0)
    year = c.int(1979, 2015)
    return SpatioTemporalRegionMetadata(name, Region(x1, x1 + x_len, y1, y1 + y_len),
                                        year, c.int(year, 2015), c.pick([1, 4]), scaled=scaled)


def draw_partition(c, x_len, y_len, k=None):
    '''Crisp partition with k non-empty clusters'''
    n = x_len * y_len
    if k is None:
        k = c.int(1, min(n, 4))
    member = [c.draw(k) for _ in range(n)]
    order = c.shuffle(range(n))
    for cl in range(k):
        member[order[cl]] = cl
    return k, np.array(member)


def scaled_of(region):
    s, x, y = region.shape
    return ScaleFunction(x, y).apply_to(region, s)


def region_state(region):
    return np.array(region.as_numpy, copy=True)


class Silent:
    '''Swallow what the code prints.'''

    def write(self, s):
        return len(s)

    def flush(self):
        pass


def describe(sim, **kw):
    sim.summary = {k: (v if isinstance(v, (int, float, str, bool, type(None))) else str(v))
                   for k, v in kw.items()}


def note_state(sim, *parts):
    import hashlib
    sim.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])


@contextlib.contextmanager
def tables(sim, **functions):
    '''Programs find the regions, suites, models and classifiers of the run'''
    old = getattr(sim, 'tables', None)
    sim.tables = functions
    try:
        yield
    finally:
        sim.tables = old


def command(entry, argv):
    '''What a process does to run a program with these arguments'''
    def fn():
        sys.argv = ['program'] + [str(a) for a in argv]
        try:
            return entry()
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError('exit {}'.format(e.code))
    return fn
