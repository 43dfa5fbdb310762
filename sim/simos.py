"""The simulated operating system: files, directories, working directory, clock.

Files live in a scratch directory (removed afterwards); every call the code makes
on a path below it goes through this layer, which
  * is a yield point of the scheduler (one simulated process at a time),
  * can fail with an errno, tear a write, or kill the process, before or after the
    call takes effect, as the plan says,
  * discards user-space buffers of a killed process, and on a simulated power loss
    keeps only a prefix of what was written and never fsynced.
Paths outside the scratch directory are passed through untouched.
"""
import builtins
import errno as _errno
import io
import os
import sys
import time
import _io

from .sched import Sched, SimCrash

REAL = {}
ERR = {n: getattr(_errno, n) for n in
       ('EIO ENOSPC EACCES EMFILE EINTR ENOENT EROFS EDQUOT ENOMEM EEXIST').split()}


class Clock:
    """Simulated time.  Steps forward only when somebody waits or by `tick`."""

    def __init__(self, start=1.4e9, tick=0.0):
        self.start = start
        self.now = 0.0              # true simulated time
        self.offset = start         # wall clock = now + offset (jumps change it)
        self.tick = tick            # charged per wall clock reading
        self.jumps = []             # [reading index, delta]
        self.readings = 0
        self.fired = 0

    def advance_to(self, t):
        if t > self.now:
            self.now = t

    def advance(self, dt):
        self.now += max(0.0, dt)

    def wall(self):
        self.readings += 1
        self.now += self.tick
        for at, delta in self.jumps:
            if at == self.readings:
                self.offset += delta
                self.fired += 1
        return self.now + self.offset

    def monotonic(self):
        self.now += self.tick
        return self.now


class Proc:
    def __init__(self, name, cwd, faults=()):
        self.name = name
        self.cwd = cwd
        self.faults = [dict(f) for f in faults]   # {'at': n, 'kind':..., 'frac':...}
        self.nops = 0
        self.crashed = False
        self.armed = True
        self.fired = []


class World:
    """Files + clock + processes of one run."""

    def __init__(self, root, sched=None, clock=None, log=None, shuffle=None):
        self.root = os.path.realpath(root)
        self.sched = sched
        self.clock = clock or Clock()
        self.log = log if log is not None else []
        self.procs = []
        self.default = Proc('main', self.root)
        self.default.armed = False
        self.fds = {}                # fd -> path, for descriptors made by os.open
        self.written = {}            # path -> [size synced, size written] since start
        self.fault_counts = {}
        self.op_counts = {}
        self.shuffle = shuffle       # Random for directory order (or None: sorted)
        self.observer = None         # called (proc, kind, path, phase)
        self.installed = False
        self.np_open = None
        self.blocks = None           # disk space left, in bytes (None: plenty)
        self.powerloss_frac = None

    # ------------------------------------------------------------ helpers
    def proc(self):
        if self.sched is not None:
            t = self.sched.me()
            if t is not None and t.proc is not None:
                return t.proc
        return self.default

    def add_proc(self, name, cwd=None, faults=()):
        p = Proc(name, cwd or self.root, faults)
        self.procs.append(p)
        return p

    def inside(self, path):
        """Absolute path if it lies in the scratch directory, else None."""
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            path = os.fspath(path)
        except TypeError:
            return None
        if isinstance(path, bytes):
            path = os.fsdecode(path)
        if not path.startswith('/'):
            cwd = self.proc().cwd
            path = cwd + '/' + path
        path = _normpath(path)
        if path == self.root or path.startswith(self.root + '/'):
            return path
        return None

    def rel(self, path):
        return path[len(self.root) + 1:] or '.'

    def count(self, kind):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1

    # ------------------------------------------------------------ the gate
    def gate(self, kind, path, size=0):
        """Called before each intercepted operation.  Returns None or a fault that
        the caller has to apply itself ('torn')."""
        p = self.proc()
        if p.crashed:
            raise SimCrash()
        if self.sched is not None:
            self.sched.yield_point((kind, path))
            if p.crashed:
                raise SimCrash()
        p.nops += 1
        self.op_counts[kind] = self.op_counts.get(kind, 0) + 1
        self.log.append('%s %s %s' % (p.name, kind, self.rel(path)))
        if self.observer is not None:
            self.observer(p, kind, path)
        if not p.armed:
            return None
        for f in p.faults:
            if f.get('done'):
                continue
            if f.get('op') is not None:
                if kind != f['op']:
                    continue
                f['seen'] = f.get('seen', 0) + 1
                if f['seen'] != f['at']:
                    continue
            elif p.nops != f['at']:
                continue
            k = f['kind']
            f['done'] = True
            p.fired.append((p.nops, k, kind))
            if k == 'crash':
                self.count('crash before ' + kind)
                self.log.append('%s CRASH' % p.name)
                self.crash(p)
                raise SimCrash()
            if k == 'crash_after':
                self.count('crash after ' + kind)
                return {'after': 'crash'}
            if k in ('torn', 'torn_error'):
                if kind == 'write':
                    return {'torn': f.get('frac', 0.5),
                            'then': 'crash' if k == 'torn' else f.get('errno', 'ENOSPC')}
                if k == 'torn':
                    self.count('crash before ' + kind)
                    self.crash(p)
                    raise SimCrash()
                k = f.get('errno', 'ENOSPC')
            if k == 'jump':
                self.clock.offset += f.get('delta', 3600)
                self.count('clock jump')
                continue
            if k == 'vanish':
                # somebody else removes the file just before the call
                if kind in ('open_r', 'stat', 'chdir'):
                    try:
                        REAL['unlink'](path)
                        self.count('file vanishes')
                    except OSError:
                        pass
                continue
            if k in ERR:
                self.count('%s on %s' % (k, kind))
                self.log.append('%s %s' % (p.name, k))
                e = OSError(ERR[k], os.strerror(ERR[k]), path)
                e.sim_injected = True
                raise e
            if k == 'interrupt':
                self.count('interrupt at ' + kind)
                self.log.append('%s INTERRUPT' % p.name)
                raise KeyboardInterrupt()
        return None

    def after(self, act):
        if act and act.get('after') == 'crash':
            p = self.proc()
            self.log.append('%s CRASH' % p.name)
            self.crash(p)
            raise SimCrash()

    def crash(self, p):
        p.crashed = True

    def power_loss(self, frac):
        """Every file written since the start and not fsynced keeps a prefix only."""
        n = 0
        for path in sorted(self.written):
            synced, size = self.written[path]
            if size > synced and REAL['isfile'](path):
                cur = REAL['getsize'](path)
                keep = min(cur, synced + int(round((cur - synced) * next(frac))))
                if keep < cur:
                    REAL['truncate'](path, keep)
                    n += 1
                    self.count('unsynced data lost')
        self.written = {}
        return n

    # ------------------------------------------------------------ patches
    def install(self):
        assert not self.installed
        self.installed = True
        self.saved = []
        w = self

        def patch(mod, name, new):
            if hasattr(mod, name):
                self.saved.append((mod, name, getattr(mod, name)))
                setattr(mod, name, new)

        real = {n: getattr(os, n) for n in
                ('open mkdir listdir scandir rename replace remove unlink rmdir stat lstat '
                 'chdir getcwd fsync write close truncate ftruncate link symlink utime '
                 'access makedirs removedirs read fdopen getcwdb').split()}
        real['builtin_open'] = builtins.open

        def wrap1(name, kind):
            fn = real[name]

            def g(path, *a, **k):
                ap = w.inside(path)
                if ap is None:
                    return fn(path, *a, **k)
                act = w.gate(kind, ap)
                r = fn(ap if not isinstance(path, int) else path, *a, **k)
                w.after(act)
                return r
            g.__name__ = name
            return g

        def wrap2(name, kind):
            fn = real[name]

            def g(src, dst, *a, **k):
                s, d = w.inside(src), w.inside(dst)
                if s is None and d is None:
                    return fn(src, dst, *a, **k)
                act = w.gate(kind, d or s)
                r = fn(s or src, d or dst, *a, **k)
                if s in w.written and d is not None:
                    w.written[d] = w.written.pop(s)
                w.after(act)
                return r
            g.__name__ = name
            return g

        def listdir(path='.'):
            ap = w.inside(path)
            if ap is None:
                return real['listdir'](path)
            act = w.gate('listdir', ap)
            names = sorted(real['listdir'](ap))
            if w.shuffle is not None:
                w.shuffle.shuffle(names)
            w.after(act)
            return names

        def scandir(path='.'):
            ap = w.inside(path)
            if ap is None:
                return real['scandir'](path)
            act = w.gate('listdir', ap)
            with real['scandir'](ap) as it:
                ents = sorted(it, key=lambda e: e.name)
            if w.shuffle is not None:
                w.shuffle.shuffle(ents)
            w.after(act)
            return _Scan(ents)

        def chdir(path):
            ap = w.inside(path)
            p = w.proc()
            if ap is None:
                # an escape from the scratch directory: keep it virtual
                q = os.fspath(path)
                q = _normpath(q if q.startswith('/') else p.cwd + '/' + q)
                real['stat'](q)
                p.cwd = q
                return
            act = w.gate('chdir', ap)
            st = real['stat'](ap)
            import stat as S
            if not S.S_ISDIR(st.st_mode):
                raise NotADirectoryError(_errno.ENOTDIR, 'Not a directory', ap)
            p.cwd = ap
            w.after(act)

        def getcwd():
            p = w.proc()
            if p.crashed:
                raise SimCrash()
            if p.cwd.startswith(w.root) and not REAL['isdir'](p.cwd):
                raise FileNotFoundError(_errno.ENOENT, 'No such file or directory')
            return p.cwd

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            ap = w.inside(path)
            if ap is None or dir_fd is not None:
                return real['open'](path, flags, mode, dir_fd=dir_fd)
            wr = flags & (os.O_WRONLY | os.O_RDWR)
            act = w.gate('open_w' if wr else 'open_r', ap)
            fd = real['open'](ap, flags, mode)
            w.fds[fd] = ap
            if wr and (flags & os.O_TRUNC):
                w.written[ap] = [0, 0]
            w.after(act)
            return fd

        def os_close(fd):
            w.fds.pop(fd, None)
            return real['close'](fd)

        def os_write(fd, data):
            ap = w.fds.get(fd)
            if ap is None:
                return real['write'](fd, data)
            return w.do_write(fd, ap, data)

        def os_fsync(fd):
            if hasattr(fd, 'fileno'):
                fd = fd.fileno()
            ap = w.fds.get(fd)
            if ap is None:
                return real['fsync'](fd)
            act = w.gate('fsync', ap)
            try:
                n = real['stat'](fd).st_size
                w.written[ap] = [n, n]
            except OSError:
                pass
            w.after(act)

        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
                     newline=None, closefd=True, opener=None):
            ap = w.inside(file)
            if ap is None:
                return real['builtin_open'](file, mode, buffering, encoding, errors,
                                            newline, closefd, opener)
            return w.open(file, ap, mode, buffering, encoding, errors, newline,
                          closefd, opener)

        def access(path, mode, **k):
            ap = w.inside(path)
            if ap is None:
                return real['access'](path, mode, **k)
            act = w.gate('stat', ap)
            r = real['access'](ap, mode)
            w.after(act)
            return r

        REAL.setdefault('unlink', real['unlink'])
        REAL.setdefault('isfile', _mk_is(real['stat'], 'reg'))
        REAL.setdefault('isdir', _mk_is(real['stat'], 'dir'))
        REAL.setdefault('getsize', lambda p, s=real['stat']: s(p).st_size)
        REAL.setdefault('truncate', real['truncate'])
        REAL.setdefault('open', real['builtin_open'])
        REAL.setdefault('listdir', real['listdir'])
        self.real = real

        patch(os, 'mkdir', wrap1('mkdir', 'mkdir'))
        patch(os, 'rmdir', wrap1('rmdir', 'rmdir'))
        patch(os, 'remove', wrap1('remove', 'unlink'))
        patch(os, 'unlink', wrap1('unlink', 'unlink'))
        patch(os, 'stat', wrap1('stat', 'stat'))
        patch(os, 'lstat', wrap1('lstat', 'stat'))
        patch(os, 'utime', wrap1('utime', 'utime'))
        patch(os, 'truncate', wrap1('truncate', 'truncate'))
        patch(os, 'rename', wrap2('rename', 'rename'))
        patch(os, 'replace', wrap2('replace', 'rename'))
        patch(os, 'link', wrap2('link', 'link'))
        patch(os, 'listdir', listdir)
        patch(os, 'scandir', scandir)
        patch(os, 'access', access)
        patch(os, 'chdir', chdir)
        patch(os, 'getcwd', getcwd)
        patch(os, 'open', os_open)
        patch(os, 'close', os_close)
        patch(os, 'write', os_write)
        patch(os, 'fsync', os_fsync)
        if hasattr(os, 'fdatasync'):
            real['fdatasync'] = os.fdatasync
            patch(os, 'fdatasync', os_fsync)
        patch(builtins, 'open', sim_open)
        patch(io, 'open', sim_open)
        patch(_io, 'open', sim_open)
        if 'numpy' in sys.modules:           # genfromtxt and loadtxt keep their own reference
            from numpy.lib import _datasource
            op = _datasource._file_openers
            op._load()
            self.np_open = op._file_openers, op._file_openers[None]
            op._file_openers[None] = sim_open

        c = self.clock
        rt = {n: getattr(time, n) for n in
              ('time monotonic perf_counter sleep strftime localtime gmtime time_ns '
               'process_time asctime ctime').split()}

        def sleep(s):
            if w.sched is not None and w.sched.me() is not None:
                w.sched.wait(lambda: False, s)
            else:
                c.advance(s)

        def strftime(fmt, t=None):
            return rt['strftime'](fmt, rt['gmtime'](c.wall()) if t is None else t)

        def localtime(s=None):
            return rt['gmtime'](c.wall() if s is None else s)
        patch(time, 'time', c.wall)
        patch(time, 'time_ns', lambda: int(c.wall() * 1e9))
        patch(time, 'monotonic', c.monotonic)
        patch(time, 'perf_counter', c.monotonic)
        patch(time, 'process_time', c.monotonic)
        patch(time, 'sleep', sleep)
        patch(time, 'strftime', strftime)
        patch(time, 'localtime', localtime)
        patch(time, 'gmtime', localtime)
        return self

    def uninstall(self):
        for mod, name, old in reversed(self.saved):
            setattr(mod, name, old)
        if self.np_open:
            self.np_open[0][None] = self.np_open[1]
            self.np_open = None
        self.installed = False

    def __enter__(self):
        return self.install()

    def __exit__(self, *a):
        self.uninstall()

    # ------------------------------------------------------------ files
    def open(self, file, ap, mode, buffering, encoding, errors, newline, closefd, opener):
        m = set(mode)
        binary = 'b' in m
        upd = '+' in m
        base = (m & set('rwax'))
        if len(base) != 1:
            raise ValueError('must have exactly one of create/read/write/append mode')
        base = base.pop()
        writing = upd or base in 'wax'
        if isinstance(file, int):
            fd = file
        else:
            flags = {'r': os.O_RDWR if upd else os.O_RDONLY,
                     'w': (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_TRUNC,
                     'a': (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_APPEND,
                     'x': (os.O_RDWR if upd else os.O_WRONLY) | os.O_CREAT | os.O_EXCL}[base]
            flags |= getattr(os, 'O_CLOEXEC', 0)
            if opener is not None:
                fd = opener(file, flags)
                self.fds.setdefault(fd, ap)
            else:
                act = self.gate('open_w' if writing else 'open_r', ap)
                fd = self.real['open'](ap, flags, 0o666)
                import stat as S
                if S.S_ISDIR(self.real['stat'](fd).st_mode):
                    self.real['close'](fd)
                    raise IsADirectoryError(_errno.EISDIR, 'Is a directory', ap)
                self.fds[fd] = ap
                if base in 'wx':
                    self.written[ap] = [0, 0]
                elif base == 'a':
                    n = self.real['stat'](ap).st_size
                    self.written.setdefault(ap, [n, n])
                self.after(act)
        raw = SimRaw(self, fd, ap, base, upd, writing, closefd, file)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else 8192
        if upd:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                             line_buffering=buffering == 1)
        t.mode = mode
        return t

    def do_write(self, fd, ap, data):
        p = self.proc()
        if p.crashed:
            return len(data)                 # the process is gone: nothing happens
        data = bytes(data)
        act = self.gate('write', ap, len(data))
        if self.blocks is not None:
            if self.blocks <= 0:
                self.count('disk full')
                raise OSError(_errno.ENOSPC, 'No space left on device', ap)
            data = data[:self.blocks]
            self.blocks -= len(data)
        if act and 'torn' in act:
            k = int(len(data) * act['torn'])
            if k:
                self._raw_write(fd, ap, data[:k])
            if act['then'] == 'crash':
                self.count('torn write then crash')
                self.log.append('%s TORN CRASH %d/%d' % (p.name, k, len(data)))
                self.crash(p)
                raise SimCrash()
            self.count('short write then ' + act['then'])
            self.log.append('%s TORN %s %d/%d' % (p.name, act['then'], k, len(data)))
            e = OSError(ERR[act['then']], os.strerror(ERR[act['then']]), ap)
            e.sim_injected = True
            raise e
        n = self._raw_write(fd, ap, data)
        self.after(act)
        return n

    def _raw_write(self, fd, ap, data):
        n = self.real['write'](fd, data)
        w = self.written.setdefault(ap, [0, 0])
        w[1] += n
        return n


class _Scan:
    def __init__(self, ents):
        self.ents = iter(ents)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.ents)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


class SimRaw(io.RawIOBase):
    def __init__(self, world, fd, ap, base, upd, writing, closefd, name):
        self.w, self.fd, self.ap = world, fd, ap
        self._r = base == 'r' or upd
        self._w = writing
        self._closefd = closefd
        self.name = name
        self.mode = base + 'b' + ('+' if upd else '')
        self._proc = world.proc()

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def readinto(self, b):
        act = self.w.gate('read', self.ap)
        n = len(b)
        data = self.w.real['read'](self.fd, n)
        b[:len(data)] = data
        self.w.after(act)
        return len(data)

    def write(self, b):
        if self._proc.crashed:
            return len(b)
        return self.w.do_write(self.fd, self.ap, b)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if size is None:
            size = self.tell()
        self.w.gate('truncate', self.ap)
        self.w.real['ftruncate'](self.fd, size)
        return size

    def close(self):
        if self.closed:
            return
        try:
            super().close()
        finally:
            if self._closefd and self.fd >= 0:
                fd, self.fd = self.fd, -1
                self.w.fds.pop(fd, None)
                try:
                    self.w.real['close'](fd)
                except OSError:
                    pass


def _normpath(p):
    parts = []
    for x in p.split('/'):
        if x in ('', '.'):
            continue
        if x == '..':
            if parts:
                parts.pop()
        else:
            parts.append(x)
    return '/' + '/'.join(parts)


def _mk_is(stat, what):
    import stat as S

    def f(p):
        try:
            m = stat(p).st_mode
        except OSError:
            return False
        return S.S_ISREG(m) if what == 'reg' else S.S_ISDIR(m)
    return f


def snapshot(root):
    """{relative path: bytes, or None for a directory} using the real calls."""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in sorted(files):
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out
