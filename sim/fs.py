'''
Simulated file system: a scratch directory on a real (memory) file system, with every file
operation of the code under test behind a seam at which the simulator schedules other processes
and injects faults.

Durable state is what a finished write() has put in the file; what is still in the buffers of a
process is lost with it. A crash in the middle of a write leaves a prefix of it.
'''
import builtins
import errno
import io
import os
import os.path
import shutil
import stat as stat_mod
import tempfile

from . import kernel
from .kernel import SimCrash, HarnessError

REAL = {}
WRITE_OPS = ('open_w', 'write', 'close_w', 'mkdir', 'rename', 'remove', 'fsync')
READ_OPS = ('open_r', 'read')

# kind -> (operations it can strike)
KINDS = {
    'crash': WRITE_OPS + READ_OPS,
    'crash_write': WRITE_OPS,
    'enospc': ('open_w', 'write', 'mkdir'),
    'eio_write': ('write', 'fsync'),
    'eio_read': ('read',),
    'emfile': ('open_w', 'open_r'),
    'eacces': ('open_w', 'mkdir'),
    'short_write': ('write',),
    'short_read': ('read',),
}
LEGAL = ('short_write', 'short_read')       # not failures: must have no effect


_STAT_TIMES = ('st_atime', 'st_mtime', 'st_ctime')


class Plan:
    '''One fault to come: the n-th operation of its class.'''

    def __init__(self, kind, n, match=None):
        self.kind, self.n, self.match = kind, n, match
        self.fired = False
        self.sticky = False


class SimFS:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        self.plans = []
        self.off = 0
        self.fds = {}
        self.ops = 0
        self.split_writes = False
        sim.fs = self

    # --- scope of faults
    def arm(self, *plans):
        self.plans = [p for p in plans if p is not None]

    def disarm(self):
        '''Returns the kinds of the faults that fired since arm().'''
        fired = [p.kind for p in self.plans if p.fired]
        self.plans = []
        return fired

    def fired(self):
        return [p.kind for p in self.plans if p.fired]

    def failed(self):
        '''A fired fault that the code under test could notice.'''
        return [p.kind for p in self.plans if p.fired and p.kind not in LEGAL]

    def draw_plan(self, kinds, n=20, p=0.8):
        '''Draw a fault (or None) for the next scope.'''
        c = self.sim.c
        if not c.chance(p):
            return None
        kind = c.pick(list(kinds))
        plan = Plan(kind, c.int(0, n))
        plan.sticky = kind == 'enospc' and c.chance(0.5)
        return plan

    class _Quiet:
        def __init__(self, fs):
            self.fs = fs

        def __enter__(self):
            self.fs.off += 1

        def __exit__(self, *a):
            self.fs.off -= 1

    def quiet(self):
        '''Operations of the harness itself.'''
        return SimFS._Quiet(self)

    def inside(self, path):
        if self.off or isinstance(path, int):
            return False
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def rel(self, path):
        p = os.path.abspath(os.fspath(path))
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.relpath(p, self.root)

    # --- the seam
    def op(self, kind, path, size=0):
        '''
        Every operation comes through here. Returns the plan that strikes this one, if any.
        Raises for a crash that hits before the operation does anything.
        '''
        sim = self.sim
        if sim.proc.dead:
            raise SimCrash('dead process')
        self.ops += 1
        rel = path if isinstance(path, str) and not os.path.isabs(path) else self.rel(path)
        sim.yield_(kind)
        if sim.proc.dead:
            raise SimCrash('dead process')
        sim.log('{} {} {} {}'.format(sim.proc.name, kind, rel, size))
        for p in self.plans:
            if p.fired and not p.sticky:
                continue
            if kind not in KINDS[p.kind] or (p.match is not None and not p.match(rel)):
                continue
            if p.fired or p.n <= 0:
                p.fired = True
                sim.fault(p.kind, kind + ' ' + rel)
                return p
            p.n -= 1
        return None

    def die(self):
        proc = self.sim.proc
        proc.dead = True
        raise SimCrash('{} crashed'.format(proc.name))

    def simple(self, kind, path, action):
        '''mkdir, rename, remove, fsync'''
        p = self.op(kind, path)
        if p is None:
            return action()
        if p.kind in ('crash', 'crash_write'):
            if self.sim.c.chance(0.5):
                action()
            self.die()
        self.raise_for(p, path)

    def raise_for(self, p, path):
        code = {'enospc': errno.ENOSPC, 'eio_write': errno.EIO, 'eio_read': errno.EIO,
                'emfile': errno.EMFILE, 'eacces': errno.EACCES}[p.kind]
        raise OSError(code, os.strerror(code), os.fspath(path))

    def stamp(self, file):
        '''Modification times are those of the simulated clock.'''
        os.utime(file, (self.sim.clock, self.sim.clock))

    # --- for the harness
    def read(self, rel):
        with REAL['open'](os.path.join(self.root, rel), 'rb') as f:
            return f.read()

    def files(self):
        out = []
        for d, dirs, names in os.walk(self.root):
            dirs.sort()
            for n in sorted(names):
                out.append(os.path.relpath(os.path.join(d, n), self.root))
        return out

    def snapshot(self):
        return {f: self.read(f) for f in self.files()}

    def truncate(self, rel, size):
        with REAL['open'](os.path.join(self.root, rel), 'r+b') as f:
            f.truncate(size)

    def delete(self, rel):
        REAL['remove'](os.path.join(self.root, rel))

    def damage(self, rel):
        '''What a crash may have left of a file: nothing, an empty file, or a part of it.'''
        size = os.path.getsize(os.path.join(self.root, rel))
        how = self.sim.c.pick(['missing', 'empty', 'torn', 'torn'])
        if how == 'missing':
            self.delete(rel)
        elif how == 'empty':
            self.truncate(rel, 0)
        else:
            self.truncate(rel, min(self.cut(size), max(size - 1, 0)))
        self.sim.fault('file_' + how, rel)
        return how

    def cut(self, size):
        '''A length to cut to: biased to the ends.'''
        c = self.sim.c
        how = c.draw(3)
        if how == 0:
            return min(c.draw(max(size, 1)), size)
        if how == 1:
            return min(c.draw(130), size)
        return max(0, size - 1 - c.draw(200))

    def tree(self):
        return self.files()


class SimRaw(io.RawIOBase):
    '''Raw file: what io.FileIO does, through the seam.'''

    def __init__(self, fs, path, mode, file):
        super().__init__()
        self._fs = fs
        self._f = file
        self.name = path
        self.mode = mode
        self._path = path
        self._w = any(ch in mode for ch in 'wax+')

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def fileno(self):
        return self._f.fileno()

    def isatty(self):
        return False

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self._fs.simple('write', self._path, lambda: self._f.truncate(size))
        return size

    def readinto(self, b):
        fs = self._fs
        if fs.off:
            return self._f.readinto(b)
        p = fs.op('read', self._path, len(b))
        if p is not None:
            if p.kind == 'short_read':
                n = len(b) if len(b) <= 1 else 1 + fs.sim.c.draw(len(b) - 1)
                return self._f.readinto(memoryview(b)[:n])
            if p.kind == 'crash':
                fs.die()
            fs.raise_for(p, self._path)
        return self._f.readinto(b)

    def readall(self):
        chunks = []
        while True:
            buf = bytearray(65536)
            n = self.readinto(buf)
            if not n:
                return b''.join(chunks)
            chunks.append(bytes(buf[:n]))

    def _write_all(self, b):
        view = memoryview(b).cast('B')
        while len(view):
            n = self._f.write(view)
            view = view[n:]
        self._fs.stamp(self._f.fileno())

    def _write_in_parts(self, b, n):
        '''Other processes see (and overlap with) a long write that is under way.'''
        view = memoryview(b).cast('B')
        fs = self._fs
        for _ in range(fs.sim.c.draw(3)):
            if len(view) < 2:
                break
            m = 1 + fs.cut(len(view) - 1)
            self._write_all(view[:m])
            view = view[m:]
            fs.sim.yield_('part of a write')
            if fs.sim.proc.dead:
                raise SimCrash('dead process')
        self._write_all(view)

    def write(self, b):
        fs = self._fs
        n = memoryview(b).nbytes
        if fs.off:
            self._write_all(b)
            return n
        p = fs.op('write', self._path, n)
        if p is None:
            if n > 1 and fs.sim.sched is not None and fs.split_writes:
                self._write_in_parts(b, n)
            else:
                self._write_all(b)
            return n
        part = fs.cut(n) if n else 0
        if p.kind == 'short_write':
            part = max(1, part)
            self._write_all(memoryview(b).cast('B')[:part])
            return part
        if p.kind != 'eio_write':
            self._write_all(memoryview(b).cast('B')[:part])
        if p.kind in ('crash', 'crash_write'):
            fs.die()
        fs.raise_for(p, self._path)

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            self._f.close()
            fs = self._fs
            fs.fds.pop(id(self._f), None)
            if self._w and not fs.off and not fs.sim.proc.dead:
                self._close_op()

    def _close_op(self):
        fs = self._fs
        if fs.sim.proc.dead:
            return
        # no yield at close: it can run from a finalizer
        fs.sim.log('{} close {}'.format(fs.sim.proc.name, fs.rel(self._path)))
        for p in fs.plans:
            if p.kind in ('crash', 'crash_write') and not p.fired and \
                    (p.match is None or p.match(fs.rel(self._path))):
                if p.n <= 0:
                    p.fired = True
                    fs.sim.fault(p.kind, 'close ' + fs.rel(self._path))
                    fs.die()
                p.n -= 1


def _fs_for(path):
    sim = kernel.active()
    if sim is None or sim.fs is None:
        return None
    fs = sim.fs
    return fs if fs.inside(path) else None


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    sim = kernel.active()
    fs = None
    path = file
    if sim is not None and sim.fs is not None:
        if isinstance(file, int) and not isinstance(file, bool):
            if file in sim.fs.fds and not sim.fs.off:
                fs, path = sim.fs, sim.fs.fds[file]
        else:
            fs = _fs_for(file)
    if fs is None:
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if os.path.isdir(path) and not isinstance(file, int):
        return REAL['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '')
    writes = any(ch in raw_mode for ch in 'wax+')
    if not isinstance(file, int):
        kind = 'open_w' if writes else 'open_r'
        p = fs.op(kind, path)
        if p is not None:
            if p.kind in ('crash', 'crash_write'):
                if writes and fs.sim.c.chance(0.5):
                    io.FileIO(file, raw_mode).close()
                fs.die()
            if p.kind == 'enospc' and os.path.exists(path):
                # an existing file can be opened (and truncated) on a full disk
                pass
            else:
                fs.raise_for(p, path)
    f = io.FileIO(file, raw_mode, closefd=closefd, opener=opener)
    if 'w' in raw_mode or 'x' in raw_mode:
        fs.stamp(f.fileno())
    raw = SimRaw(fs, path, raw_mode, f)
    if binary and buffering == 0:
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if '+' in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif writes:
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap1(name, kind, module=os):
    '''os functions of one path'''
    orig = getattr(module, name)
    REAL[name] = orig

    def fn(path, *args, **kwargs):
        fs = _fs_for(path) if kwargs.get('dir_fd') is None else None
        if fs is None:
            return orig(path, *args, **kwargs)
        return fs.simple(kind, path, lambda: orig(path, *args, **kwargs))
    fn.__name__ = name
    setattr(module, name, fn)


def _wrap2(name, kind, module=os):
    orig = getattr(module, name)
    REAL[name] = orig

    def fn(src, dst, *args, **kwargs):
        fs = _fs_for(dst)
        if fs is None:
            return orig(src, dst, *args, **kwargs)
        return fs.simple(kind, dst, lambda: orig(src, dst, *args, **kwargs))
    fn.__name__ = name
    setattr(module, name, fn)


def _wrap_look(name, module):
    '''Looking at the file system is a point at which other processes can run.'''
    orig = getattr(module, name)
    REAL[name] = orig

    def fn(path, *args, **kwargs):
        fs = _fs_for(path)
        if fs is not None:
            if fs.sim.proc.dead:
                raise SimCrash('dead process')
            fs.sim.yield_(name)
        out = orig(path, *args, **kwargs)
        return sorted(out) if name == 'listdir' else out
    fn.__name__ = name
    setattr(module, name, fn)


class _Names:
    '''Deterministic names of temporary files.'''

    def __init__(self):
        self.n = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.n += 1
        return 'sim{:05d}'.format(self.n)


def install():
    REAL['open'] = builtins.open
    REAL['io.open'] = io.open
    builtins.open = sim_open
    io.open = sim_open
    kernel._real_open = REAL['open']

    _wrap1('mkdir', 'mkdir')
    _wrap1('rmdir', 'remove')
    _wrap1('remove', 'remove')
    _wrap1('unlink', 'remove')
    _wrap1('truncate', 'write')
    _wrap2('rename', 'rename')
    _wrap2('replace', 'rename')
    _wrap2('link', 'rename')
    _wrap_look('listdir', os)
    for name in ('exists', 'isfile', 'isdir', 'getsize', 'getmtime'):
        _wrap_look(name, os.path)

    REAL['stat'] = os.stat

    def stat(path, *args, **kwargs):
        st = REAL['stat'](path, *args, **kwargs)
        sim = kernel.active()
        if sim is None or st.st_mtime <= sim.clock or not stat_mod.S_ISREG(st.st_mode) or \
                _fs_for(path) is None:
            return st
        # put there by the harness, before the run or between its operations
        n, fields = st.n_sequence_fields, dict(zip(_STAT_TIMES, [sim.t0] * 3))
        for name in _STAT_TIMES:
            fields[name + '_ns'] = int(sim.t0 * 1e9)
        values = list(st[:n])
        values[7:10] = [int(sim.t0)] * 3
        for name in ('st_blksize', 'st_blocks', 'st_rdev'):
            fields[name] = getattr(st, name)
        return os.stat_result(values, fields)
    os.stat = stat

    # descriptors
    REAL['os.open'] = os.open
    REAL['os.write'] = os.write
    REAL['os.close'] = os.close
    REAL['os.fsync'] = os.fsync
    REAL['os.fdopen'] = os.fdopen

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        fs = _fs_for(path) if dir_fd is None else None
        if fs is None:
            return REAL['os.open'](path, flags, mode, dir_fd=dir_fd)
        writes = flags & (os.O_WRONLY | os.O_RDWR)
        p = fs.op('open_w' if writes else 'open_r', path)
        if p is not None:
            if p.kind in ('crash', 'crash_write'):
                fs.die()
            fs.raise_for(p, path)
        fd = REAL['os.open'](path, flags, mode)
        fs.fds[fd] = path
        return fd

    def os_write(fd, data):
        sim = kernel.active()
        fs = sim.fs if sim is not None else None
        if fs is None or fd not in fs.fds or fs.off:
            return REAL['os.write'](fd, data)
        p = fs.op('write', fs.fds[fd], len(data))
        if p is None:
            return REAL['os.write'](fd, data)
        part = fs.cut(len(data))
        if p.kind == 'short_write':
            return REAL['os.write'](fd, data[:max(1, part)])
        REAL['os.write'](fd, data[:part])
        if p.kind in ('crash', 'crash_write'):
            fs.die()
        fs.raise_for(p, fs.fds[fd])

    def os_close(fd):
        sim = kernel.active()
        if sim is not None and sim.fs is not None:
            sim.fs.fds.pop(fd, None)
        return REAL['os.close'](fd)

    def os_fsync(fd):
        sim = kernel.active()
        if not isinstance(fd, int):
            fd = fd.fileno()
        if sim is None or sim.fs is None or sim.fs.off:
            return None if sim is not None else REAL['os.fsync'](fd)
        return sim.fs.simple('fsync', 'fsync', lambda: None)

    os.open, os.write, os.close, os.fsync = os_open, os_write, os_close, os_fsync

    REAL['getpid'] = os.getpid

    def getpid():
        sim = kernel.active()
        return sim.proc.pid if sim is not None else REAL['getpid']()
    os.getpid = getpid

    import numpy.lib.format as npf
    real_isfileobj = npf.isfileobj

    def isfileobj(f):
        raw = getattr(f, 'raw', f)
        return False if isinstance(raw, SimRaw) else real_isfileobj(f)
    npf.isfileobj = isfileobj


def new_root(base):
    root = os.path.join(base, 'run')
    with _NoSim():
        shutil.rmtree(root, ignore_errors=True)
        REAL.get('mkdir', os.mkdir)(root)
    tempfile._name_sequence = _Names()
    return root


class _NoSim:
    def __enter__(self):
        self.sim = kernel.active()
        kernel.set_active(None)

    def __exit__(self, *a):
        kernel.set_active(self.sim)
