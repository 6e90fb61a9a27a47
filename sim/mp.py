'''
Simulated multiprocessing: processes are tasks of the kernel's scheduler, each with its own pid,
module state and copies of the objects it inherited; shared memory is shared; arguments and
results of pool tasks are pickled and unpickled as the real ones are.

install() replaces names of the real `multiprocessing` module by versions that use the simulation
while a run is active, and the real one otherwise.
'''
import copy
import ctypes
import functools
import multiprocessing
import multiprocessing.pool
import multiprocessing.sharedctypes
import os
import pickle
import sys

from . import kernel
from .kernel import SimHang, SimKill, SimCrash, HarnessError

TYPECODES = {
    'c': ctypes.c_char, 'b': ctypes.c_byte, 'B': ctypes.c_ubyte, 'h': ctypes.c_short,
    'H': ctypes.c_ushort, 'i': ctypes.c_int, 'I': ctypes.c_uint, 'l': ctypes.c_long,
    'L': ctypes.c_ulong, 'q': ctypes.c_longlong, 'Q': ctypes.c_ulonglong,
    'f': ctypes.c_float, 'd': ctypes.c_double}


def _ctype(t):
    return TYPECODES.get(t, t)


# ------------------------------------------------------------------------------ shared memory

class Lock:
    '''Mutual exclusion between simulated processes.'''
    recursive = False

    def __init__(self, *args, **kwargs):
        self.owner = None
        self.depth = 0

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if not _spawning():
            raise RuntimeError('Lock objects should only be shared between processes '
                               'through inheritance')
        return super().__reduce__()

    def acquire(self, block=True, timeout=None):
        sim = kernel.active()
        if sim is None or sim.sched is None:
            self.owner, self.depth = 'solo', self.depth + 1
            return True
        sim.sched.yield_('lock')
        me = sim.sched.current
        if self.depth and self.owner is not me:
            if not block:
                return False
            sim.count('lock_waits')
            sim.sched.block(lambda: self.depth == 0, 'lock')
        elif self.depth and not self.recursive:
            sim.sched.block(lambda: self.depth == 0, 'lock')
        self.owner, self.depth = me, self.depth + 1
        return True

    def release(self):
        if self.depth <= 0:
            raise ValueError('semaphore or lock released too many times')
        self.depth -= 1
        sim = kernel.active()
        if sim is not None and sim.sched is not None and not sim.sched.current.killed:
            sim.sched.yield_('unlock')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()


class RLock(Lock):
    recursive = True


def _spawning():
    return _SPAWNING[0] > 0


_SPAWNING = [0]


class _Shared:
    '''Base of synchronized objects'''

    def __init__(self, obj, lock=None):
        self._obj = obj
        self._lock = lock if isinstance(lock, Lock) else RLock()

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise RuntimeError('Synchronized objects should only be shared between processes '
                           'through inheritance')

    def get_obj(self):
        return self._obj

    def get_lock(self):
        return self._lock

    def acquire(self, *a, **k):
        return self._lock.acquire(*a, **k)

    def release(self):
        return self._lock.release()

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *args):
        return self._lock.__exit__(*args)


class _SharedValue(_Shared):
    @property
    def value(self):
        with self._lock:
            return self._obj.value

    @value.setter
    def value(self, v):
        with self._lock:
            self._obj.value = v


class _SharedArray(_Shared):
    def __len__(self):
        return len(self._obj)

    def __getitem__(self, i):
        with self._lock:
            return self._obj[i]

    def __setitem__(self, i, v):
        with self._lock:
            self._obj[i] = v

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


def RawArray(typecode, size_or_init):
    t = _ctype(typecode)
    if isinstance(size_or_init, int):
        return (t * size_or_init)()
    return (t * len(size_or_init))(*size_or_init)


def RawValue(typecode, *args):
    return _ctype(typecode)(*args)


def Array(typecode, size_or_init, *, lock=True, ctx=None):
    obj = RawArray(typecode, size_or_init)
    return obj if lock is False else _SharedArray(obj, lock)


def Value(typecode, *args, lock=True, ctx=None):
    obj = RawValue(typecode, *args)
    return obj if lock is False else _SharedValue(obj, lock)


def inherit(objs):
    '''What a forked process sees of objs: copies, except for shared memory.'''
    memo = {}
    keep = []
    seen = set()

    def walk(o, depth):
        # shared memory, and numpy views of it, stay shared
        if id(o) in seen or depth > 6:
            return
        seen.add(id(o))
        if isinstance(o, (ctypes.Array, ctypes._SimpleCData)):
            memo[id(o)] = o
            keep.append(o)
        elif type(o).__module__ == 'numpy' and type(o).__name__ == 'ndarray':
            b = o
            while getattr(b, 'base', None) is not None:
                b = b.base
            if isinstance(b, memoryview):
                b = b.obj
            if isinstance(b, (ctypes.Array, ctypes._SimpleCData)):
                memo[id(o)] = o
                keep.append(o)
        elif isinstance(o, (list, tuple, set, frozenset)):
            for x in o:
                walk(x, depth + 1)
        elif isinstance(o, dict):
            for x in o.values():
                walk(x, depth + 1)
        elif hasattr(o, '__dict__') and not isinstance(o, type) and not callable(o):
            for x in vars(o).values():
                walk(x, depth + 1)
    walk(objs, 0)
    return copy.deepcopy(objs, memo)


# ------------------------------------------------------------------------------ pool

class _Worker:
    def __init__(self, pool, index):
        self.pool = pool
        sim = pool.sim
        self.proc = sim.new_proc('w{}'.format(index), fork_of=True)
        self.initargs = inherit(pool.initargs)
        self.done_tasks = 0
        self.busy = None
        self.task = pool.sched.spawn(self.proc.name, self.proc, self.loop)

    def loop(self):
        pool = self.pool
        if pool.initializer is not None:
            pool.initializer(*self.initargs)
        while True:
            pool.sched.block(lambda: pool.queue or pool.closed, 'pool queue')
            if not pool.queue:
                return
            job = self.busy = pool.queue.pop(0)
            pool.sim.count('pool_chunks')
            pool.sim.log('{} takes {}'.format(self.proc.name, job.index))
            try:
                func, args = pickle.loads(job.payload)
                ok, value = True, [func(*a) if job.star else func(a) for a in args]
            except (SimKill, SimCrash):
                raise
            except Exception as e:
                ok, value = False, e
            if ok:
                try:
                    value = pickle.loads(pickle.dumps(value))
                except Exception as e:
                    ok, value = False, multiprocessing.pool.MaybeEncodingError(e, value)
            pool.sched.yield_('task done')
            self.busy = None
            self.done_tasks += 1
            job.result.set(job.index, ok, value)
            if pool.maxtasks is not None and self.done_tasks >= pool.maxtasks:
                pool.replace(self)
                return


class _Job:
    def __init__(self, index, payload, star, result):
        self.index, self.payload, self.star, self.result = index, payload, star, result


class _Result:
    '''AsyncResult and MapResult'''

    def __init__(self, pool, n, single=False, callback=None, error_callback=None):
        self.pool, self.n, self.single = pool, n, single
        self.parts = {}
        self.order = []
        self.failure = None
        self.callback, self.error_callback = callback, error_callback

    def set(self, index, ok, value):
        self.parts[index] = value if ok else None
        self.order.append((index, ok, value))
        if not ok and self.failure is None:
            self.failure = value
        if self.ready():
            if self.failure is not None:
                if self.error_callback:
                    self.error_callback(self.failure)
            elif self.callback:
                self.callback(self.value())

    def ready(self):
        return len(self.parts) >= self.n

    def value(self):
        flat = [v for i in sorted(self.parts) for v in self.parts[i]]
        return flat[0] if self.single else flat

    def wait(self, timeout=None):
        if timeout is None:
            self.pool.sched.block(self.ready, 'pool result')
        else:
            # time passes only when nothing else can happen
            try:
                self.pool.sched.block(self.ready, 'pool result')
            except SimHang:
                self.pool.sim.tick(timeout)

    def successful(self):
        if not self.ready():
            raise ValueError('{0!r} not ready'.format(self))
        return self.failure is None

    def get(self, timeout=None):
        self.wait(timeout)
        if not self.ready():
            raise multiprocessing.TimeoutError
        if self.failure is not None:
            raise self.failure
        return self.value()


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None,
                 context=None):
        sim = kernel.active()
        self.sim = sim
        self.sched = sim.need_sched()
        self.owner = sim.proc
        if processes is None:
            processes = cpu_count()
        if processes < 1:
            raise ValueError('Number of processes must be at least 1')
        if initializer is not None and not callable(initializer):
            raise TypeError('initializer must be a callable')
        self.initializer, self.initargs = initializer, initargs
        self.maxtasks = maxtasksperchild
        self.queue = []
        self.closed = False
        self.terminated = False
        self.counter = 0
        self.workers = []
        self.sched.preempt = getattr(sim, 'worker_preempt', 0)
        for _ in range(processes):
            self._add()
        sim.pools.append(self)
        sim.count('pools')

    def _add(self):
        self.counter += 1
        self.workers.append(_Worker(self, self.counter))

    def replace(self, worker):
        self.workers.remove(worker)
        self._add()

    def kill_worker(self, worker):
        '''Fault: a worker dies. The pool starts another one; the task it was at is lost.'''
        worker.task.killed = True
        worker.proc.dead = True
        self.sim.fault('worker_killed', 'busy' if worker.busy else 'idle')
        self.workers.remove(worker)
        self._add()

    # --- submitting work
    def _check(self):
        if self.closed or self.terminated:
            raise ValueError('Pool not running')

    def _submit(self, func, items, chunksize, star=False, single=False, callback=None,
                error_callback=None):
        self._check()
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), len(self.workers) * 4)
            if extra:
                chunksize += 1
        if chunksize < 1:
            # the real map is done at once without having called anything
            res = _Result(self, 1, False, callback, error_callback)
            res.set(0, True, [None] * len(items))
            return res
        chunks = [items[i:i + chunksize] for i in range(0, len(items), chunksize)]
        res = _Result(self, len(chunks), single, callback, error_callback)
        jobs = []
        for i, chunk in enumerate(chunks):
            try:
                payload = pickle.dumps((func, chunk))
            except Exception as e:
                res.set(i, False, e)
                continue
            jobs.append(_Job(i, payload, star, res))
        self.queue.extend(jobs)
        hook = getattr(self.sim, 'on_submit', None)
        if hook is not None:
            hook(self)
        return res

    def map(self, func, iterable, chunksize=None):
        return self._submit(func, iterable, chunksize).get()

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, chunksize, False, False, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self._submit(func, iterable, chunksize, star=True).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, iterable, chunksize, True, False, callback, error_callback)

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        if kwds:
            func = functools.partial(func, **kwds)
        return self._submit(func, [tuple(args)], 1, star=True, single=True, callback=callback,
                            error_callback=error_callback)

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def imap(self, func, iterable, chunksize=1):
        # tasks are handed out now, whether or not anyone ever asks for the results
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        return self._imap(self._submit(func, iterable, chunksize))

    def _imap(self, res):
        for i in range(res.n):
            self.sched.block(lambda: i in res.parts, 'imap')
            for index, ok, value in res.order:
                if index == i:
                    if not ok:
                        raise value
                    for v in value:
                        yield v

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError('Chunksize must be 1+, not {0:n}'.format(chunksize))
        return self._imap_unordered(self._submit(func, iterable, chunksize))

    def _imap_unordered(self, res):
        for i in range(res.n):
            self.sched.block(lambda: len(res.order) > i, 'imap')
            _, ok, value = res.order[i]
            if not ok:
                raise value
            for v in value:
                yield v

    # --- end
    def close(self):
        self.closed = True

    def terminate(self):
        self.terminated = self.closed = True
        for w in self.workers:
            if not w.task.done and not w.task.killed:
                w.task.killed = True
                w.proc.dead = True
        self.queue = []

    def join(self):
        if not self.closed:
            raise ValueError('Pool is still running')
        if not self.terminated:
            self.sched.block(lambda: all(w.task.done for w in self.workers), 'pool join')

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *args):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def __deepcopy__(self, memo):
        return self


# ------------------------------------------------------------------------------ process, queue

class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        sim = kernel.active()
        self.sim = sim
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
        self.name = name or 'Process-{}'.format(sim.pid_next + 1)
        self.daemon = daemon
        self._task = None
        self.exitcode = None

    def __deepcopy__(self, memo):
        return self

    @property
    def pid(self):
        return self._task.proc.pid if self._task else None

    ident = pid

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sched = self.sim.need_sched()
        proc = self.sim.new_proc(self.name, fork_of=True)
        self._args, self._kwargs = inherit((self._args, self._kwargs))

        def body():
            _CURRENT[id(proc)] = self
            try:
                self.run()
                self.exitcode = 0
            except Exception:
                self.exitcode = 1
        self._task = sched.spawn(self.name, proc, body)

    def is_alive(self):
        return self._task is not None and not self._task.done and not self._task.killed

    def join(self, timeout=None):
        self.sim.sched.block(lambda: not self.is_alive(), 'process join')

    def terminate(self):
        self._task.killed = True
        self._task.proc.dead = True
        self.exitcode = -15

    kill = terminate


_CURRENT = {}


class _MainProcess:
    name = 'MainProcess'
    daemon = False
    exitcode = None

    @property
    def pid(self):
        return kernel.active().proc.pid

    def is_alive(self):
        return True


def current_process():
    sim = kernel.active()
    return _CURRENT.get(id(sim.proc)) or _MainProcess()


class Queue:
    def __init__(self, maxsize=0, **kw):
        self.items = []
        self.maxsize = maxsize

    def __deepcopy__(self, memo):
        return self

    def put(self, obj, block=True, timeout=None):
        data = pickle.dumps(obj)
        s = kernel.active().sched
        if s is not None:
            s.yield_('put')
            if self.maxsize > 0:
                s.block(lambda: len(self.items) < self.maxsize, 'queue full')
        self.items.append(data)

    def get(self, block=True, timeout=None):
        import queue
        s = kernel.active().sched
        if not self.items:
            if not block or s is None or timeout is not None:
                raise queue.Empty
            s.block(lambda: self.items, 'queue empty')
        return pickle.loads(self.items.pop(0))

    def put_nowait(self, obj):
        return self.put(obj, False)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return self.maxsize > 0 and len(self.items) >= self.maxsize

    def close(self):
        pass

    def join_thread(self):
        pass

    def task_done(self):
        pass


class _SharedList(list):
    def __deepcopy__(self, memo):
        return self


class _SharedDict(dict):
    def __deepcopy__(self, memo):
        return self


class Manager:
    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def Queue(self, maxsize=0):
        return Queue(maxsize)

    def list(self, *a):
        return _SharedList(*a)

    def dict(self, *a, **k):
        return _SharedDict(*a, **k)

    def Lock(self):
        return Lock()

    def RLock(self):
        return RLock()

    def shutdown(self):
        pass


def cpu_count():
    return 4


# ------------------------------------------------------------------------------ installation

class _Context:
    def __getattr__(self, name):
        return getattr(multiprocessing, name)

    def get_start_method(self, allow_none=False):
        return 'fork'


def install():
    '''To be called before the code under test is imported.'''
    real = {}
    mine = dict(Pool=Pool, Process=Process, Queue=Queue, SimpleQueue=Queue, JoinableQueue=Queue,
                Lock=Lock, RLock=RLock, Array=Array, Value=Value, RawArray=RawArray,
                RawValue=RawValue, Manager=Manager, cpu_count=cpu_count,
                current_process=current_process,
                get_context=lambda method=None: _Context())

    def make(name, sim_one):
        orig = getattr(multiprocessing, name)

        def switch(*args, **kwargs):
            if kernel.active() is not None:
                return sim_one(*args, **kwargs)
            return orig(*args, **kwargs)
        switch.__name__ = name
        return switch

    for name, one in mine.items():
        if name == 'Process':
            # used as a base class too
            continue
        real[name] = getattr(multiprocessing, name)
        setattr(multiprocessing, name, make(name, one))
    real['Process'] = multiprocessing.Process
    multiprocessing.Process = Process
    real['PoolClass'] = multiprocessing.pool.Pool
    multiprocessing.pool.Pool = make_pool(real['PoolClass'])
    for name in ('RawArray', 'RawValue', 'Array', 'Value'):
        setattr(multiprocessing.sharedctypes, name, getattr(multiprocessing, name))
    multiprocessing.REAL = real
    # the executor of concurrent.futures, in terms of the pool
    import concurrent.futures
    concurrent.futures.ProcessPoolExecutor = Executor
    return real


def make_pool(orig):
    def switch(*args, **kwargs):
        if kernel.active() is not None:
            return Pool(*args, **kwargs)
        return orig(*args, **kwargs)
    return switch


class _Future:
    def __init__(self, res):
        self.res = res

    def result(self, timeout=None):
        return self.res.get()

    def done(self):
        return self.res.ready()

    def exception(self, timeout=None):
        self.res.wait()
        return self.res.failure


class Executor:
    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **kw):
        self.pool = Pool(max_workers, initializer, initargs)

    def submit(self, fn, *args, **kwargs):
        return _Future(self.pool.apply_async(fn, args, kwargs))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        if chunksize < 1:
            raise ValueError('chunksize must be >= 1.')
        res = self.pool.starmap_async(fn, zip(*iterables), chunksize)
        return iter(res.get())

    def shutdown(self, wait=True, **kw):
        self.pool.close()
        self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.shutdown()
