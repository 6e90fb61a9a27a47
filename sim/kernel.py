'''
Deterministic simulation kernel.

* Choices: the one stream of decisions of a run. Workload, schedule and faults are all drawn from
  it; it is either generated from a seed or replayed from a list. Value 0 is always the simplest
  decision (no fault, no switch, smallest size), so a run is minimised by zeroing and deleting.
* Sim: state of one run: event log, counters, virtual clock, simulated processes.
* Sched: cooperative scheduler. Real threads, but exactly one runs at any time, and which one runs
  next is drawn from Choices at every yield point (task start, lock, file operation, chosen lines).
* Proc: a simulated operating system process: pid, its own copy of the module state of the
  code under test, its own sys.stdout, sys.argv and open
  figures, alive/dead.
'''
import hashlib
import os
import random
import re
import sys
import threading
import types

from . import figures

REPO = os.path.realpath(os.environ.get('VERIF_REPO', '/repo'))


class Violation(Exception):
    '''The property does not hold. `sig` identifies the kind of violation (used for shrinking).'''

    def __init__(self, sig, msg=''):
        super().__init__('{}: {}'.format(sig, msg))
        self.sig = sig
        self.msg = msg


class Discard(Exception):
    '''The drawn scenario is outside the property's domain, or too long: not counted.'''


class HarnessError(Exception):
    pass


class SimCrash(BaseException):
    '''The simulated process died here. Not an Exception: the code under test must not catch it.'''


class SimKill(BaseException):
    '''Unwinds a simulated thread that will never be scheduled again.'''


class SimHang(BaseException):
    '''The simulated system can make no further progress (deadlock, lost task).'''


class InjectedError(Exception):
    '''Unexpected error injected into a user function.'''


class Choices:
    LIMIT = 60000

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.trace = []

    def _put(self, n, gen):
        if len(self.trace) >= self.LIMIT:
            raise Discard('too many choices')
        if self.replay is not None:
            i = len(self.trace)
            v = self.replay[i] if i < len(self.replay) else 0
            v = 0 if v < 0 else (n - 1 if v >= n else v)
        else:
            v = gen()
        self.trace.append(v)
        return v

    def draw(self, n):
        if n <= 1:
            return 0
        return self._put(n, lambda: self.rng.randrange(n))

    def int(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def chance(self, p):
        return bool(self._put(2, lambda: 1 if self.rng.random() < p else 0))

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        '''pairs: [(value, weight)]; first value is the simplest'''
        tot = float(sum(w for _, w in pairs))

        def gen():
            x = self.rng.random() * tot
            for i, (_, w) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self._put(len(pairs), gen)][0]

    def small(self, lo, hi):
        '''integer biased to the low end'''
        return lo + self._put(hi - lo + 1,
                              lambda: min(int(self.rng.random() ** 2 * (hi - lo + 1)), hi - lo))

    def seed(self):
        return self.draw(1 << 30)

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.draw(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


# ---------------------------------------------------------------------------------------------
# state of the modules under test, per simulated process

_real_open = open
_CONTAINERS = (dict, list, set, bytearray)
_holders = {}           # module or class -> True if its state is tracked
_ORDERED = []
_seen_modules = [0]


def _is_container(k, v):
    import collections
    return not k.startswith('__') and (
        type(v) in _CONTAINERS or
        type(v) in (collections.OrderedDict, collections.defaultdict, collections.deque))


def _plain(k, v):
    return not (k.startswith('__') or isinstance(
        v, (types.FunctionType, property, staticmethod, classmethod, types.MemberDescriptorType,
            types.GetSetDescriptorType)) or k in ('_fields', '_field_defaults', '_abc_impl'))


def holders():
    '''Modules and classes of the code under test that have mutable state of their own.'''
    if len(sys.modules) == _seen_modules[0]:
        return _ORDERED
    _seen_modules[0] = len(sys.modules)
    for name, mod in list(sys.modules.items()):
        if mod is None or mod in _holders or \
                not (name == 'spta' or name.startswith(('spta.', 'experiments'))):
            continue
        if getattr(mod, '__file__', None) is None:
            _holders[mod] = False
            continue
        try:
            with _real_open(mod.__file__) as f:
                source = f.read()
        except Exception:
            source = ''
        keep = re.search(r'^\s+global\s', source, re.M) is not None or \
            any(_is_container(k, v) for k, v in mod.__dict__.items())
        _holders[mod] = keep
        if keep:
            _ORDERED.append(mod)
        for cls in list(mod.__dict__.values()):
            if not isinstance(cls, type) or cls.__module__ != name or cls in _holders:
                continue
            keep = any(_is_container(k, v) and _plain(k, v) for k, v in cls.__dict__.items()) or \
                re.search(r'\b(cls|__class__|type\(self\)|%s)\.\w+\s*[-+*/|]?=[^=]' %
                          re.escape(cls.__name__), source) is not None
            _holders[cls] = keep
            if keep:
                _ORDERED.append(cls)
    return _ORDERED


def capture_modules():
    return {h: (dict(h.__dict__) if isinstance(h, types.ModuleType) else
                {k: v for k, v in h.__dict__.items() if _plain(k, v)})
            for h in holders()}


def fork_modules(captured):
    '''Copy of captured module state, in which containers are not shared.'''
    from . import mp as mp_mod

    def dup(v):
        if not v:
            return type(v)() if type(v) in _CONTAINERS else v.copy()
        try:
            return mp_mod.inherit(v)
        except Exception:
            return v.copy()
    return {m: {k: (dup(v) if _is_container(k, v) else v) for k, v in d.items()}
            for m, d in captured.items()}


def install_modules(captured):
    for m, d in captured.items():
        if isinstance(m, types.ModuleType):
            md = m.__dict__
            for k in list(md):
                if k not in d:
                    del md[k]
            md.update(d)
        else:
            for k, v in list(m.__dict__.items()):
                if _plain(k, v) and k not in d:
                    delattr(m, k)
            for k, v in d.items():
                if m.__dict__.get(k, m) is not v:
                    setattr(m, k, v)


_cached_functions = None


def clear_function_caches():
    '''functools caches belong to a process.'''
    global _cached_functions
    if _cached_functions is None:
        _cached_functions = []
        for name, mod in list(sys.modules.items()):
            if mod is None or not (name == 'spta' or name.startswith('spta.')):
                continue
            for holder in [mod] + [c for c in vars(mod).values() if isinstance(c, type)]:
                for v in list(vars(holder).values()):
                    v = getattr(v, '__func__', v)
                    if callable(getattr(v, 'cache_clear', None)) and \
                            (getattr(v, '__module__', '') or '').startswith('spta'):
                        _cached_functions.append(v)
    for f in _cached_functions:
        f.cache_clear()


class NumpyGlobals:
    '''Print options and global generator of numpy, which belong to a process.'''

    def __init__(self, sim, options, generator_state=None):
        self.sim = sim
        self.options = options
        self.generator_state = generator_state
        self.generator = None

    @staticmethod
    def current(sim):
        from numpy.core import arrayprint
        import numpy
        g = NumpyGlobals(sim, dict(arrayprint._format_options))
        g.generator = numpy.random.get_bit_generator()
        return g

    def fork(self):
        return NumpyGlobals(self.sim, self.options, self.generator_state if self.generator is None
                            else self.generator.state)

    def install(self):
        from numpy.core import arrayprint
        import numpy
        arrayprint._format_options.clear()
        arrayprint._format_options.update(self.options)
        if self.generator is None:
            self.generator = numpy.random.MT19937(12345)
            if self.generator_state is not None:
                self.generator.state = self.generator_state
        numpy.random.set_bit_generator(self.generator)


class Proc:
    def __init__(self, sim, name, pid, modules, numpy_globals):
        self.sim = sim
        self.name = name
        self.pid = pid
        self.modules = modules
        self.numpy_globals = numpy_globals
        self.stdout = sys.stdout
        self.argv = sys.argv
        self.figures = figures.none_open()
        self.dead = False

    def switch_out(self):
        self.modules = capture_modules()
        self.numpy_globals = NumpyGlobals.current(self.sim)
        self.stdout = sys.stdout
        self.argv = sys.argv
        self.figures = figures.opened()

    def switch_in(self):
        install_modules(self.modules)
        self.numpy_globals.install()
        sys.stdout = self.stdout
        sys.argv = self.argv
        figures.open_instead(self.figures)


# ---------------------------------------------------------------------------------------------

class Task:
    def __init__(self, sched, name, proc, fn):
        self.sched = sched
        self.name = name
        self.proc = proc
        self.fn = fn
        self.baton = threading.Semaphore(0)
        self.pred = None          # blocked until pred() is true
        self.done = False
        self.killed = False
        self.value = None
        self.exc = None
        self.preempt_at = []      # line counts at which to yield
        self.lines = 0
        self.raise_at = None
        self.thread = None


class Sched:
    MAX_SWITCH = 200000

    def __init__(self, sim, preempt=0):
        self.sim = sim
        self.preempt = preempt
        self.main = Task(self, 'main', sim.proc, None)
        self.main.thread = threading.current_thread()
        self.current = self.main
        self.tasks = [self.main]
        self.switches = 0
        self.fair = False

    # --- tasks
    def spawn(self, name, proc, fn):
        t = Task(self, name, proc, fn)
        c = self.sim.c
        if self.preempt:
            at = 0
            for _ in range(c.small(0, self.preempt)):
                at += 1 + c.small(0, 300)
                t.preempt_at.append(at)
        t.raise_at = self.sim.line_faults.pop(name, None)
        t.thread = threading.Thread(target=self._run, args=(t,), daemon=True)
        self.tasks.append(t)
        t.thread.start()
        return t

    def _run(self, t):
        t.baton.acquire()
        try:
            if t.killed:
                return
            if t.preempt_at or t.raise_at:
                sys.settrace(self._tracer(t))
            t.value = t.fn()
        except (SimKill, SimCrash) as e:
            t.exc = e
        except BaseException as e:
            t.exc = e
        finally:
            sys.settrace(None)
            t.done = True
            if t.killed:            # being unwound by shutdown(), which waits for the thread
                return
            try:
                nxt = self._next(exclude=t)
            except BaseException as e:      # nobody can run: wake main with the problem
                self.main_problem = e
                nxt = self.main
            self._give(t, nxt)

    def _tracer(self, t):
        prefix = REPO + os.sep

        def local(frame, event, arg):
            if event == 'line':
                t.lines += 1
                if t.raise_at and t.lines >= t.raise_at[0]:
                    exc, t.raise_at = t.raise_at[1], None
                    self.sim.fault('exception_at_line', '{} {}:{}'.format(
                        type(exc).__name__, os.path.basename(frame.f_code.co_filename),
                        frame.f_code.co_name))
                    raise exc
                if t.preempt_at and t.lines >= t.preempt_at[0]:
                    t.preempt_at.pop(0)
                    if self.current is t and not t.killed:
                        self.sim.count('preemptions')
                        self.yield_('preempt')
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None
        return glob

    # --- scheduling
    main_problem = None

    def _runnable(self, exclude=None):
        return [t for t in self.tasks
                if not t.done and not t.killed and t is not exclude and
                (t.pred is None or t.pred())]

    def _next(self, exclude=None, label=''):
        run = self._runnable(exclude)
        if not run:
            raise SimHang('no task can run')
        # the current task first, so that choice 0 is 'no switch'
        if self.current in run:
            run.remove(self.current)
            run.insert(0, self.current)
        i = self.sim.c.draw(len(run))
        return run[i]

    def _give(self, frm, to):
        if frm is to:
            return
        self.switches += 1
        self.sim.count('task_switches')
        self.sim.log('sw {}>{}'.format(frm.name, to.name))
        if frm.proc is not to.proc:
            frm.proc.switch_out()
            to.proc.switch_in()
        self.current = to
        to.baton.release()

    def yield_(self, label=''):
        '''A point at which another task may be scheduled.'''
        t = self.current
        if t.killed:
            raise SimKill()
        if self.switches > self.MAX_SWITCH:
            raise Discard('too many switches')
        nxt = self._next()
        if nxt is not t:
            self._give(t, nxt)
            t.baton.acquire()
            self._resumed(t)

    def block(self, pred, label=''):
        '''The current task waits until pred() holds.'''
        t = self.current
        if t.killed:
            raise SimKill()
        t.pred = pred
        try:
            nxt = self._next()
        except SimHang:
            t.pred = None
            if t is self.main:
                raise
            # only main can decide what to do about it
            self.main_problem = SimHang('deadlock: ' + label)
            t.pred = pred
            nxt = self.main
        if nxt is not t:
            self._give(t, nxt)
            t.baton.acquire()
        t.pred = None
        self._resumed(t)

    def _resumed(self, t):
        if t is self.main and self.main_problem is not None:
            e, self.main_problem = self.main_problem, None
            raise e
        if t.killed:
            raise SimKill()

    def kill(self, t):
        '''Kill a task that is not running: it never takes another step.'''
        t.killed = True

    def shutdown(self):
        '''End all tasks; their unwinding has no effect on the simulated world.'''
        if self.current is not self.main:
            raise HarnessError('shutdown from task ' + self.current.name)
        left = [t for t in self.tasks[1:] if not t.done]
        if not left:
            return
        self.main.proc.switch_out()
        for t in left:
            t.killed = True
            was = t.proc.dead
            t.proc.dead = True
            self.current = t
            t.pred = None
            t.proc.switch_in()
            t.baton.release()
            t.thread.join(20)
            t.proc.dead = was
            if t.thread.is_alive():
                raise HarnessError('task does not unwind: ' + t.name)
        self.main.proc.switch_in()
        self.current = self.main


class Sim:
    def __init__(self, choices, scratch):
        self.c = choices
        self.scratch = scratch
        self.events = []
        self.counters = {}
        self.fs = None
        self.pools = []
        self.line_faults = {}       # task name -> (line count, exception)
        self.clock = 1.6e9
        self.t0 = self.clock
        self.steady = 5000.0        # the clock that is never set
        self.wild_clock = 0         # chance of a jump at each look at a clock
        self.pid_next = 1000
        clear_function_caches()
        self.base_modules = fork_modules(capture_modules())
        self.base_numpy = NumpyGlobals.current(self).fork()
        self.root = self.new_proc('root')
        self.proc_main = self.root
        self.sched = None
        self.fault_cfg = None
        self.fault_log = []
        self.nontrivial = False
        self.states = set()

    # --- log, counters, clock
    def log(self, text):
        self.events.append(text)

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def fault(self, kind, detail=''):
        self.count('fault:' + kind)
        self.fault_log.append(kind)
        self.nontrivial = True
        self.log('FAULT {} {}'.format(kind, detail))

    def probe(self, name):
        self.count('probe:' + name)

    def tick(self, dt):
        self.clock += dt
        self.steady += max(dt, 0)

    def now(self, steady=False):
        '''A look at the clock. A wild clock may have jumped since the last look.'''
        self.clock += 0.0001
        self.steady += 0.0001
        if self.wild_clock and self.c.chance(self.wild_clock):
            dt = self.c.pick([0.5, 90.0, 7200.0, 1e6, -90.0, -86400.0])
            self.clock += dt
            self.steady += max(dt, 0)
            self.fault('clock_jump', str(dt))
        return self.steady if steady else self.clock

    def digest(self):
        return hashlib.sha256('\n'.join(self.events).encode()).hexdigest()[:16]

    # --- processes
    @property
    def proc(self):
        if self.sched is not None:
            return self.sched.current.proc
        return self.proc_main

    def new_proc(self, name, fork_of=None):
        self.pid_next += 1
        src = self.base_modules if fork_of is None else capture_modules()
        numpy_globals = self.base_numpy if fork_of is None else NumpyGlobals.current(self)
        return Proc(self, name, self.pid_next, fork_modules(src), numpy_globals.fork())

    def enter(self, proc):
        '''Continue as another process (sequentially).'''
        if self.proc_main is not proc:
            self.proc_main.switch_out()
            self.proc_main = proc
            proc.switch_in()

    def in_proc(self, proc, fn):
        '''
        Runs fn() in a process. Returns ('ok', value), ('err', exception) or ('crash', None).
        '''
        if proc.dead:
            raise HarnessError('process is dead: ' + proc.name)
        self.enter(proc)
        try:
            value = fn()
            if proc.dead:           # died in a finalizer
                return ('crash', None)
            return ('ok', value)
        except SimCrash:
            proc.dead = True
            return ('crash', None)
        except SimHang as e:
            return ('hang', e)
        except (Violation, Discard, HarnessError):
            raise
        except Exception as e:
            return ('err', e)
        except KeyboardInterrupt as e:
            if not getattr(e, 'injected', False):
                raise
            return ('err', e)
        finally:
            sys.settrace(None)
            self.end_sched()
            self.enter(self.root)

    def need_sched(self, preempt=0):
        if self.sched is None:
            self.sched = Sched(self, preempt)
        return self.sched

    def end_sched(self):
        sched = self.sched
        if sched is not None:
            try:
                sched.shutdown()
            finally:
                self.sched = None

    def yield_(self, label=''):
        if self.sched is not None:
            self.sched.yield_(label)

    def concurrently(self, jobs, preempt=0):
        '''
        jobs: [(proc, fn)], each runs as a process of its own; returns list of outcomes.
        Processes are switched at file operations (and at `preempt` chosen lines).
        '''
        self.enter(self.root)
        sched = self.sched = Sched(self, preempt)
        tasks = []
        try:
            for proc, fn in jobs:
                tasks.append(sched.spawn(proc.name, proc, fn))
            sched.block(lambda: all(t.done for t in tasks), 'join')
        finally:
            self.end_sched()
        out = []
        for t in tasks:
            if t.exc is None:
                out.append(('crash', None) if t.proc.dead else ('ok', t.value))
            elif isinstance(t.exc, SimCrash):
                t.proc.dead = True
                out.append(('crash', None))
            elif isinstance(t.exc, (Violation, Discard, HarnessError)):
                raise t.exc
            elif isinstance(t.exc, Exception):
                out.append(('err', t.exc))
            elif isinstance(t.exc, SimHang):
                out.append(('hang', t.exc))
            else:
                raise t.exc
        return out

    # --- an exception (failed allocation, interrupt) at a chosen line of the code under test
    def raise_at_line(self, n, exc, where=None):
        '''
        The n-th line executed in the code under test (in files whose name contains `where`)
        raises exc. Ends with the current in_proc, or when clear_line_fault is called.
        '''
        state = {'n': n}
        prefix = REPO + os.sep
        sim = self

        def local(frame, event, arg):
            if event == 'line' and state['n'] >= 0:
                state['n'] -= 1
                if state['n'] < 0:
                    sys.settrace(None)
                    exc.injected = True
                    sim.fault('exception_at_line', '{} {}:{}'.format(
                        type(exc).__name__, os.path.basename(frame.f_code.co_filename),
                        frame.f_code.co_name))
                    raise exc
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if state['n'] >= 0 and fn.startswith(prefix) and (where is None or where in fn):
                return local
            return None
        sys.settrace(glob)

    def clear_line_fault(self):
        sys.settrace(None)

    def restart(self, name='proc'):
        self.count('restarts')
        clear_function_caches()
        return self.new_proc(name)

    def close(self):
        self.enter(self.root)
        install_modules(self.base_modules)


CURRENT = None      # the Sim of the current run, if any


def active():
    return CURRENT


def set_active(sim):
    global CURRENT
    CURRENT = sim
