'''
Runs many simulated executions of one property, shrinks and records violations, writes evidence.

A property module (props/pNN.py) has
    ID, TITLE
    RUNS = {'quick': n, 'thorough': n}
    scenario(sim)           one execution; raises Violation
    RULE                    what makes a run non-trivial
    REAL, STUB              components that run real code / are simulated or replaced
    PROBES                  names of probes that every quick run of the check must have hit
'''
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import re
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

_time = time.time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RUN_TIMEOUT = 120
DEADLY = (signal.SIGBUS, signal.SIGSEGV, signal.SIGFPE, signal.SIGABRT, signal.SIGILL)


class RunTimeout(BaseException):
    pass


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def load_property(pid):
    return importlib.import_module('props.' + pid.lower())


def seed_value(master, pid, index):
    h = hashlib.sha256('{}:{}:{}'.format(master, pid, index).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class Outcome:
    def __init__(self):
        self.status = None      # ok, violation, discard, error
        self.sig = self.msg = None
        self.events = []
        self.trace = []
        self.counters = {}
        self.digest = ''
        self.sim_time = 0.0
        self.nontrivial = False
        self.states = []
        self.summary = None
        self.wall = 0.0

    def key(self):
        return (self.status, self.sig, self.digest)


def _frames_in_repo(exc):
    from . import kernel
    tb = exc.__traceback__
    return [f for f in traceback.extract_tb(tb)
            if f.filename.startswith(kernel.REPO + os.sep)]


def _not_usable(exc):
    '''
    Whether the oracle could not even look at what the code under test answered: a value of
    another type or shape, None, an unreadable file. An error of the harness itself (a name that
    is not there, other arguments) is no such thing.
    '''
    if isinstance(exc, AttributeError):
        return "'NoneType' object" in str(exc)
    if isinstance(exc, TypeError):
        return not re.search(r'keyword|positional|takes .* argument|for argument|not callable',
                             str(exc))
    return isinstance(exc, (ValueError, IndexError, KeyError, ArithmeticError, EOFError))


def run_one(prop, choices, base, timeout=RUN_TIMEOUT):
    '''One simulated execution.'''
    from . import kernel, world, fs
    out = Outcome()
    t0 = _time()
    root = fs.new_root(base)
    cwd = os.getcwd()
    real_stdout = sys.stdout
    devnull = fs.REAL['open'](os.devnull, 'w')

    def on_alarm(signum, frame):
        raise RunTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    world.before_run()
    sim = None
    try:
        os.chdir(root)
        sys.stdout = devnull
        sim = kernel.Sim(choices, root)
        fs.SimFS(sim, root)
        kernel.set_active(sim)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        if choices.chance(getattr(prop, 'WILD_CLOCK', 0.08)):
            sim.wild_clock = 0.3
        try:
            prop.scenario(sim)
            out.status = 'ok'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.settrace(None)
    except kernel.Violation as e:
        out.status, out.sig, out.msg = 'violation', e.sig, e.msg
    except kernel.Discard as e:
        out.status, out.msg = 'discard', str(e)
    except RunTimeout:
        out.status, out.sig = 'violation', 'does-not-terminate'
        out.msg = 'a simulated run did not end within {} s'.format(timeout)
    except kernel.SimHang as e:
        out.status, out.sig, out.msg = 'violation', 'hang', str(e)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not getattr(e, 'injected', False):
            raise
        frames = _frames_in_repo(e)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-12:])
        if isinstance(e, Exception) and frames and not isinstance(e, kernel.HarnessError):
            # an operation of the code under test failed although no fault was being injected
            out.status = 'violation'
            out.sig = 'unexpected-error:{}'.format(type(e).__name__)
            out.msg = text
        elif isinstance(e, Exception) and _not_usable(e) and \
                not isinstance(e, kernel.HarnessError):
            out.status = 'violation'
            out.sig = 'not-usable:{}'.format(type(e).__name__)
            out.msg = text
        else:
            out.status, out.sig, out.msg = 'error', 'harness', text
    finally:
        signal.signal(signal.SIGALRM, old)
        if sim is not None:
            try:
                sim.fs.off += 1
                sim.end_sched()
            except BaseException:
                pass
            try:
                sim.close()
            except BaseException:
                pass
            kernel.set_active(None)
            out.events = sim.events
            out.counters = sim.counters
            out.sim_time = sim.clock - sim.t0
            out.nontrivial = sim.nontrivial
            out.states = sorted(sim.states)
            out.summary = getattr(sim, 'summary', None)
            out.digest = sim.digest()
        out.trace = list(choices.trace)
        sys.stdout = real_stdout
        devnull.close()
        os.chdir(cwd)
        world.after_run()
    out.wall = _time() - t0
    return out


class _Told(list):
    '''Choices that are told to another process at once, which outlives this one'''

    def __init__(self, fd):
        super().__init__()
        self.fd = fd

    def append(self, v):
        super().append(v)
        os.write(self.fd, b'%d\n' % v)


def run_isolated(prop, choices, base, timeout=RUN_TIMEOUT):
    '''
    One simulated execution in a process of its own, for code under test that takes the whole
    process down (e.g. the system ends it because of a memory access to a file that is gone).
    '''
    r, wfd = os.pipe()
    rt, wt = os.pipe()
    sys.stdout.flush()
    child = os.fork()
    if child == 0:
        code = 0
        try:
            signal.alarm(3 * timeout)
            os.close(r)
            os.close(rt)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 2)
            choices.trace = _Told(wt)
            o = run_one(prop, choices, base, timeout)
            o.trace, o.states = list(o.trace), []
            with os.fdopen(wfd, 'wb') as f:
                pickle.dump(o, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    os.close(wt)
    bufs = {r: b'', rt: b''}
    open_ = set(bufs)
    while open_:
        for fd in select.select(list(open_), [], [])[0]:
            data = os.read(fd, 1 << 20)
            bufs[fd] += data
            if not data:
                open_.discard(fd)
    os.close(r)
    os.close(rt)
    _, st = os.waitpid(child, 0)
    if bufs[r]:
        return pickle.loads(bufs[r])
    o = Outcome()
    o.trace = [int(v) for v in bufs[rt].split(b'\n')[:-1]]
    o.digest = hashlib.sha256(bufs[rt]).hexdigest()[:16]
    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in DEADLY:
        o.status, o.sig = 'violation', 'process-dies:' + signal.Signals(os.WTERMSIG(st)).name
        o.msg = 'the code under test ends its process, the system reports {}'.format(o.sig[13:])
    else:
        o.status, o.sig, o.msg = 'error', 'harness', 'no result (status {})'.format(st)
    return o


# ------------------------------------------------------------------------------ shrinking

def shrink(prop, trace, sig, base, limit, run=run_one):
    '''Smaller list of choices with the same kind of violation.'''
    from . import kernel
    end = _time() + limit
    best = {'trace': list(trace)}
    tries = [0]

    def bad(t):
        if _time() > end:
            return False
        tries[0] += 1
        o = run(prop, kernel.Choices(replay=t), base, timeout=30)
        if o.status == 'violation' and o.sig == sig:
            new = list(o.trace)
            while new and new[-1] == 0:
                new.pop()
            if (len(new), new) < (len(best['trace']), best['trace']):
                best['trace'] = new
            return True
        return False

    t = best['trace']
    while t and t[-1] == 0:
        t.pop()
    improved = True
    while improved and _time() < end:
        improved = False
        before = list(best['trace'])
        size = max(1, len(best['trace']) // 2)
        while size >= 1 and _time() < end:       # delete chunks
            i = 0
            while i < len(best['trace']) and _time() < end:
                cur = best['trace']
                if not bad(cur[:i] + cur[i + size:]) or best['trace'] == cur:
                    i += size
            size //= 2
        size = max(1, len(best['trace']) // 2)
        while size >= 1 and _time() < end:       # zero chunks
            i = 0
            while i < len(best['trace']) and _time() < end:
                cur = best['trace']
                if any(cur[i:i + size]):
                    bad(cur[:i] + [0] * len(cur[i:i + size]) + cur[i + size:])
                i += size
            size //= 2
        i = 0
        while i < len(best['trace']) and _time() < end:     # make values smaller
            lo, hi = 0, best['trace'][i]
            while lo < hi and _time() < end:
                mid = (lo + hi) // 2
                cur = best['trace']
                if i >= len(cur):
                    break
                if bad(cur[:i] + [mid] + cur[i + 1:]) and i < len(best['trace']) and \
                        best['trace'][i] <= mid:
                    hi = best['trace'][i]
                else:
                    lo = mid + 1
            i += 1
        improved = best['trace'] != before
    return best['trace'], tries[0]


# ------------------------------------------------------------------------------ workers

def _worker(pid, master, indices, deadline, wfd, base, recheck, at):
    from . import kernel
    prop = load_property(pid)
    os.makedirs(base, exist_ok=True)
    agg = {'runs': 0, 'discards': 0, 'nontrivial': 0, 'sim_time': 0.0, 'counters': {},
           'digests': set(), 'nt_digests': set(), 'states': set(), 'samples': [],
           'found': [], 'errors': [], 'rechecked': 0, 'run_wall': 0.0, 'max_wall': 0.0,
           'last': -1}
    f = os.fdopen(wfd, 'wb')
    for index in indices:
        if _time() > deadline:
            break
        agg['last'] = index
        at[:] = struct.pack('q', index)
        c = kernel.Choices(seed=seed_value(master, pid, index))
        o = run_one(prop, c, base)
        agg['run_wall'] += o.wall
        agg['max_wall'] = max(agg['max_wall'], o.wall)
        if o.status == 'discard':
            agg['discards'] += 1
            continue
        if o.status == 'error':
            agg['errors'].append((index, o.msg))
            if len(agg['errors']) >= 3:
                break
            continue
        agg['runs'] += 1
        agg['sim_time'] += o.sim_time
        for k, v in o.counters.items():
            agg['counters'][k] = agg['counters'].get(k, 0) + v
        agg['digests'].add(o.digest)
        if o.nontrivial:
            agg['nontrivial'] += 1
            agg['nt_digests'].add(o.digest)
        agg['states'].update(o.states)
        if len(agg['samples']) < 2 and o.nontrivial and len(o.events) < 400:
            agg['samples'].append({'seed_index': index, 'summary': o.summary,
                                   'events': o.events[:40], 'choices': o.trace[:80]})
        if o.status == 'violation':
            agg['found'].append((index, o.sig, o.msg, o.trace, o.digest))
            if len({s for _, s, _, _, _ in agg['found']}) >= 3 or len(agg['found']) >= 12:
                break
        elif recheck and index % recheck == 0:
            # the same seed must give exactly the same execution
            o2 = run_one(prop, kernel.Choices(replay=o.trace), base)
            agg['rechecked'] += 1
            if o2.key() != o.key():
                d = next((i for i, (a, b) in enumerate(zip(o.events, o2.events)) if a != b), -1)
                agg['errors'].append((index, 'NOT DETERMINISTIC: {} / {} at event {}: {!r} / {!r}'
                                      .format(o.key(), o2.key(), d, o.events[d:d + 2],
                                              o2.events[d:d + 2])))
    pickle.dump(agg, f)
    f.close()


def explore(pid, master, runs, seconds, nproc=8, recheck=50):
    '''
    Fork workers; worker w does the seed indices w, w + nproc, ... Returns their results, problems
    and the indices where a worker died
    '''
    base_dir = tempfile.mkdtemp(prefix='verif-{}-'.format(pid.lower()), dir=scratch_base())
    deadline = _time() + seconds
    kids = []
    try:
        sys.stdout.flush()
        for w in range(nproc):
            r, wfd = os.pipe()
            at = mmap.mmap(-1, 8)
            at[:] = struct.pack('q', -1)
            pid_ = os.fork()
            if pid_ == 0:
                code = 0
                try:
                    os.close(r)
                    _worker(pid, master, range(w, runs, nproc), deadline, wfd,
                            os.path.join(base_dir, 'w{}'.format(w)), recheck, at)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            os.close(wfd)
            kids.append((pid_, r, at))
        results = []
        bufs = {r: b'' for _, r, _ in kids}
        open_ = set(bufs)
        hard = deadline + 2 * RUN_TIMEOUT
        while open_ and _time() < hard:
            ready, _, _ = select.select(list(open_), [], [], 1.0)
            for r in ready:
                data = os.read(r, 1 << 20)
                if data:
                    bufs[r] += data
                else:
                    open_.discard(r)
        problems, died = [], []
        for pid_, r, at in kids:
            if r in open_:
                os.kill(pid_, signal.SIGKILL)
            _, st = os.waitpid(pid_, 0)
            os.close(r)
            if not bufs[r] and os.WIFSIGNALED(st) and os.WTERMSIG(st) in DEADLY:
                died.append(struct.unpack('q', at[:])[0])
            if not bufs[r] or r in open_:
                problems.append('worker {} gave no result (status {})'.format(pid_, st))
                continue
            results.append(pickle.loads(bufs[r]))
        return results, problems, died
    finally:
        shutil.rmtree(base_dir, ignore_errors=True)


def merge(results):
    tot = {'runs': 0, 'discards': 0, 'nontrivial': 0, 'sim_time': 0.0, 'counters': {},
           'digests': set(), 'nt_digests': set(), 'states': set(), 'samples': [], 'found': [],
           'errors': [], 'rechecked': 0, 'run_wall': 0.0, 'max_wall': 0.0}
    for a in results:
        for k in ('runs', 'discards', 'nontrivial', 'sim_time', 'rechecked', 'run_wall'):
            tot[k] += a[k]
        for k in ('digests', 'nt_digests', 'states'):
            tot[k] |= a[k]
        for k in ('samples', 'found', 'errors'):
            tot[k] += a[k]
        for k, v in a['counters'].items():
            tot['counters'][k] = tot['counters'].get(k, 0) + v
        tot['max_wall'] = max(tot['max_wall'], a['max_wall'])
    tot['found'].sort(key=lambda x: x[0])
    return tot


# ------------------------------------------------------------------------------ replay files

def write_replay(path, pid, sig, msg, trace, out, master, index, tries, original):
    doc = {'property': pid, 'signature': sig, 'message': msg, 'digest': out.digest,
           'master_seed': master, 'seed_index': index,
           'seed': seed_value(master, pid, index),
           'choices': trace, 'choices_before_shrinking': original, 'shrink_runs': tries,
           'summary': out.summary,
           'faults': {k[6:]: v for k, v in out.counters.items() if k.startswith('fault:')},
           'trace': out.events[-400:]}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)


def replay(path, quiet=False):
    '''Returns 0 if the recorded violation was reproduced exactly.'''
    from . import kernel, world
    with open(path) as f:
        doc = json.load(f)
    world.install()
    world.load()
    prop = load_property(doc['property'])
    if getattr(prop, 'WARM', True):
        world.warm()
    if hasattr(prop, 'prepare'):
        prop.prepare()
    base = tempfile.mkdtemp(prefix='verif-replay-', dir=scratch_base())
    try:
        run = run_isolated if doc['signature'].startswith('process-dies') else run_one
        o = run(prop, kernel.Choices(replay=doc['choices']), base)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    same = (o.status == 'violation' and o.sig == doc['signature'] and
            o.digest == doc['digest'])
    if not quiet:
        for e in o.events[-60:]:
            print('   ', e)
        print('outcome: {} {} digest {}'.format(o.status, o.sig, o.digest))
        print(o.msg)
        print('reproduced exactly' if same else 'NOT reproduced (recorded {} {})'.format(
            doc['signature'], doc['digest']))
    return 0 if same else 1


def known_findings():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def check(pid, tier, master):
    import subprocess
    from . import kernel, world
    t0 = _time()
    world.install()
    missing = world.load()
    prop = load_property(pid)
    if getattr(prop, 'WARM', True):
        world.warm()
    if hasattr(prop, 'prepare'):
        prop.prepare()
    runs = prop.RUNS[tier]
    seconds = {'quick': getattr(prop, 'QUICK_S', 150), 'thorough': 600}[tier]
    gc.collect()
    gc.freeze()
    ready = _time()
    results, problems, died = explore(pid, master, runs, seconds)
    tot = merge(results)
    explored = _time()
    rc = 0
    known = known_findings()
    base = tempfile.mkdtemp(prefix='verif-shrink-', dir=scratch_base())
    reported = set()
    n_viol = 0
    try:
        for index in died[:2]:
            o = run_isolated(prop, kernel.Choices(seed=seed_value(master, pid, index)), base)
            if o.status == 'violation':
                tot['found'].append((index, o.sig, o.msg, o.trace, o.digest))
        for index, sig, msg, trace, digest in tot['found']:
            hit = [k for k in known if k['property'] == pid and k.get('status') == 'known' and
                   k['signature'] == sig]
            if hit:
                if sig not in reported:
                    reported.add(sig)
                    print('KNOWN-FINDING: property={} {}'.format(pid, hit[0]['what']))
                continue
            n_viol += 1
            if sig in reported or len(reported) >= 3:
                continue
            reported.add(sig)
            original = list(trace)
            tries = 0
            run = run_isolated if sig.startswith('process-dies') else run_one
            if sig not in ('does-not-terminate',):
                trace, tries = shrink(prop, trace, sig, base, 40 if tier == 'quick' else 120, run)
            o = run(prop, kernel.Choices(replay=trace), base)
            if o.sig != sig:
                trace = original
                o = run(prop, kernel.Choices(replay=trace), base)
            path = os.path.join(VERIF, 'evidence', 'replay',
                                '{}-{}.json'.format(pid, index))
            write_replay(path, pid, sig, o.msg or msg, trace, o, master, index, tries, original)
            p = subprocess.run([sys.executable, os.path.join(VERIF, 'replay.py'), path, '-q'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            print('{}: {}'.format(sig, (o.msg or msg or '').strip()[:3000]))
            print('  seed index {} of VERIF_SEED={}, {} choices (was {}), fresh-process replay: {}'
                  .format(index, master, len(trace), len(original),
                          'exact' if p.returncode == 0 else 'DIFFERS'))
            print('VIOLATION property={} replay={}'.format(pid, path))
            rc = 1
    finally:
        shutil.rmtree(base, ignore_errors=True)
    wall = _time() - t0
    c = tot['counters']
    hours = max(explored - ready, 1e-6) / 3600.0
    probes = {k[6:]: v for k, v in c.items() if k.startswith('probe:')}
    ev = {
        'property': pid, 'tier': tier, 'seed': master, 'level': 'exploration',
        'wall_s': round(wall, 2), 'violations': n_viol,
        'coverage': {
            'evaluations': tot['runs'],
            'distinct_nontrivial': len(tot['nt_digests']),
            'rule': prop.RULE,
            'distinct_executions': len(tot['digests']),
            'distinct_states': len(tot['states']),
            'state_measure': getattr(prop, 'STATES', 'none'),
            'runs_planned': runs,
            'discarded_runs': tot['discards'],
            'runs_per_hour': int(tot['runs'] / hours),
            'seeds_per_hour': int((tot['runs'] + tot['discards']) / hours),
            'simulated_seconds': round(tot['sim_time'], 3),
            'faults_injected': {k[6:]: v for k, v in sorted(c.items()) if k.startswith('fault:')},
            'probes': probes,
            'situations_never_reached': [p for p in getattr(prop, 'PROBES', [])
                                         if p not in probes],
            'other_counts': {k: v for k, v in sorted(c.items())
                             if not k.startswith(('fault:', 'probe:'))},
            'determinism_rechecks': tot['rechecked'],
            'components_real': prop.REAL,
            'components_simulated_or_stubbed': prop.STUB,
            'modules_missing': missing,
            'longest_run_s': round(tot['max_wall'], 2),
            'samples': tot['samples'][:4],
        },
        'assumptions': getattr(prop, 'ASSUMPTIONS', []),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('{} {}: {} runs ({} discarded), {} distinct non-trivial, {} violations, faults {}, '
          '{:.1f} s'.format(pid, tier, tot['runs'], tot['discards'], len(tot['nt_digests']),
                            n_viol, ev['coverage']['faults_injected'], wall))
    if rc == 0 and n_viol == 0:
        bad = []
        if tot['errors']:
            bad += ['seed index {}: {}'.format(i, m) for i, m in tot['errors'][:3]]
        bad += problems
        missing_probes = [p for p in getattr(prop, 'PROBES', []) if p not in probes]
        if missing_probes:
            # a way of doing the work that differs from today's may make some situation
            # impossible; most of them missing means that nothing was looked at
            print('note: situations never reached: {}'.format(missing_probes))
            if tot['runs'] >= runs * 0.9 and len(missing_probes) * 2 > len(prop.PROBES):
                bad.append('probes never hit: {}'.format(missing_probes))
        if tot['runs'] < 20:
            bad.append('only {} runs'.format(tot['runs']))
        if bad:
            print('ERROR of the check {}:'.format(pid))
            for b in bad:
                print('  ', b)
            return 2
    return rc
