'''
The world a run lives in: installs the seams (once per process), imports the code under test, and
prepares what is too slow to prepare in every run.
'''
import functools
import gc
import logging
import os
import sys
import time
import types
import warnings

from . import fs as fs_mod
from . import kernel
from . import mp as mp_mod

_REAL_TIME = time.time
_ready = False


def install():
    '''Before any import of the code under test.'''
    global _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    stub_keras()
    import numpy            # noqa: before the seams, so that imports do not pass them
    import pandas           # noqa
    import h5py
    import sklearn.preprocessing    # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot        # noqa
    from . import estimators, figures
    estimators.install()
    figures.install()
    mp_mod.install()
    fs_mod.install()

    real_h5 = h5py.File

    def h5_open(name, mode='r', *args, **kwargs):
        sim = kernel.active()
        if sim is not None and sim.fs is not None and isinstance(name, (str, bytes)) and \
                sim.fs.inside(name):
            f = sim.fs
            for kind in ('open_r', 'read'):
                p = f.op(kind, name)
                if p is not None and p.kind not in fs_mod.LEGAL:
                    if p.kind in ('crash', 'crash_write'):
                        f.die()
                    f.raise_for(p, name)
        return real_h5(name, mode, *args, **kwargs)
    h5py.File = h5_open
    h5py.REAL_FILE = real_h5

    def sim_time():
        sim = kernel.active()
        return _REAL_TIME() if sim is None else sim.now()
    time.time = sim_time

    def other_clock(real, steady, factor):
        def look():
            sim = kernel.active()
            if sim is None:
                return real()
            t = sim.now(steady)
            return t if factor is None else int(t * factor)
        return look
    for name, steady in (('monotonic', True), ('perf_counter', True), ('process_time', True),
                         ('time', False)):
        if name != 'time':
            setattr(time, name, other_clock(getattr(time, name), steady, None))
        setattr(time, name + '_ns', other_clock(getattr(time, name + '_ns'), steady, 1e9))
    real_sleep = time.sleep

    def sim_sleep(dt):
        sim = kernel.active()
        if sim is None:
            return real_sleep(dt)
        sim.tick(dt)
        sim.yield_('sleep')
    time.sleep = sim_sleep


def stub_keras():
    '''
    keras is only used by the (external, pre-trained) neural network classifier: it is replaced,
    because importing it takes several seconds in every check.
    '''
    if 'keras' in sys.modules:
        return
    keras = types.ModuleType('keras')

    class Anything:
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            return Anything()

        def __call__(self, *a, **k):
            return Anything()

    for sub in ('models', 'layers', 'optimizers', 'preprocessing', 'utils', 'callbacks'):
        m = types.ModuleType('keras.' + sub)
        m.__getattr__ = lambda name: (_ for _ in ()).throw(AttributeError(name)) \
            if name.startswith('__') else Anything
        setattr(keras, sub, m)
        sys.modules['keras.' + sub] = m
    from . import neural
    for name in ('Sequential', 'Dense', 'LSTM', 'Dropout'):
        sub = 'models' if name == 'Sequential' else 'layers'
        setattr(sys.modules['keras.' + sub], name, getattr(neural, name))
    keras.Sequential = neural.Sequential
    keras.__getattr__ = lambda name: (_ for _ in ()).throw(AttributeError(name)) \
        if name.startswith('__') else Anything
    sys.modules['keras'] = keras


MODULES = '''
spta.region spta.region.base spta.region.spatial spta.region.temporal spta.region.mask
spta.region.centroid spta.region.function spta.region.metadata spta.region.partition
spta.region.scaling spta.util.parallel spta.util.fs spta.util.arrays spta.util.maths
spta.dataset.temp_brazil spta.distance spta.distance.dtw spta.distance.dtw_parallel
spta.distance.variance spta.clustering spta.clustering.kmedoids spta.clustering.regular
spta.clustering.factory spta.clustering.suite spta.clustering.silhouette
spta.kmedoids spta.kmedoids.kmedoids spta.kmedoids.kmedoids_fuzzy
spta.model spta.model.base spta.model.error spta.model.error_parallel
spta.model.forecast spta.model.mean spta.model.knn spta.model.train
spta.arima spta.arima.model spta.arima.train
spta.solver spta.solver.metadata spta.solver.model spta.solver.result spta.solver.train
spta.classifier spta.classifier.train_input spta.classifier.model spta.classifier.dnn
'''.split()


# tables of predefined configurations, that a run may replace by its own (see props.common.tables)
TABLES = {
    'predefined_regions': 'experiments.metadata.region',
    'get_suite': 'experiments.metadata.clustering',
    'predefined_auto_arima': 'experiments.metadata.arima',
    'auto_arima_clustering_experiments': 'experiments.metadata.arima_clustering',
    'classifier_experiments': 'experiments.metadata.classifier',
    'predefined_arima_suites': 'experiments.metadata.arima',
    'experiments_for_arima_with_clusters': 'experiments.metadata.arima_clustering',
    'precalculated_centroids': 'experiments.metadata.centroid',
    'kmedoids_suites': 'experiments.metadata.clustering',
    'regular_suites': 'experiments.metadata.clustering',
    'silhouette_metadata_by_name': 'experiments.metadata.silhouette',
}


def table(name, orig):
    @functools.wraps(orig)
    def fn(*args, **kwargs):
        replaced = (getattr(kernel.active(), 'tables', None) or {}).get(name)
        return (replaced or orig)(*args, **kwargs)
    return fn


def load():
    '''Import the code under test, with pristine module state.'''
    import importlib
    for name, origin in TABLES.items():     # before programs import them
        module = importlib.import_module(origin)
        setattr(module, name, table(name, getattr(module, name)))
    missing = []
    for name in MODULES:
        try:
            importlib.import_module(name)
        except ModuleNotFoundError as e:
            if (e.name or '').startswith('spta'):
                missing.append(name)
                continue
            raise
    return missing


def warm():
    '''Compile what is compiled on first use.'''
    import numpy as np
    from tslearn.metrics import dtw
    dtw(np.array([0.0, 1.0, 2.0]), np.array([1.0, 1.0, 2.0]))


def before_run():
    import numpy as np
    import random
    from . import figures
    figures.open_instead(figures.none_open())
    np.random.seed(12345)
    random.seed(12345)
    np.set_printoptions(edgeitems=3, threshold=1000, floatmode='maxprec', precision=8,
                        suppress=False, linewidth=75, nanstr='nan', infstr='inf', sign='-',
                        formatter=None)
    gc.collect()
    gc.disable()


def after_run():
    gc.enable()
    import matplotlib.pyplot as plt
    if plt.get_fignums():
        plt.close('all')
