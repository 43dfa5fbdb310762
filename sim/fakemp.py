"""A simulated `multiprocessing` module: processes are tasks of the deterministic
scheduler, pipes have a capacity, queues have their feeder thread, descriptors are
inherited on fork and go away with the process that held them."""
import errno
import io
import pickle
import struct
import sys
import traceback
import types

from .sched import Sched, SimCrash, SimLock, SimRLock

CAP = 65536


class PProc:
    """An operating system process."""

    def __init__(self, mp, name, parent=None):
        self.mp, self.name, self.parent = mp, name, parent
        self.alive = True
        self.tasks = []
        self.exitcode = None
        self.pid = mp.next_pid()
        mp.procs.append(self)

    def die(self, code):
        if not self.alive:
            return
        self.alive = False
        self.exitcode = code
        for t in self.tasks:
            if not t.done:
                t.killed = True
        for e in self.mp.ends:
            e.holders.discard(self)
            e.closed_in.discard(self)
        self.mp.log.append('%s exits %s' % (self.name, code))


class End:
    """One end of a pipe."""

    def __init__(self, mp, owner):
        self.holders = {owner}
        self.closed_in = set()
        mp.ends.append(self)


class Pipe1:
    def __init__(self, mp, owner, cap=None):
        self.buf = bytearray()
        self.r, self.w = End(mp, owner), End(mp, owner)
        self.cap = cap or mp.cap


class Connection:
    def __init__(self, mp, rp=None, wp=None):
        self._mp, self._rp, self._wp = mp, rp, wp
        self.readable, self.writable = rp is not None, wp is not None
        self._fd = mp.next_fd()

    # -- plumbing
    def _here(self, end):
        me = self._mp.me()
        if end is None or me not in end.holders:
            raise OSError('handle is closed')

    @property
    def closed(self):
        me = self._mp.me()
        return not any(e is not None and me in e.holders
                       for e in (self._rp and self._rp.r, self._wp and self._wp.w))

    def fileno(self):
        if self.closed:
            raise OSError('handle is closed')
        return self._fd

    def close(self):
        me = self._mp.me()
        self._mp.step('close')
        if self._rp:
            self._rp.r.holders.discard(me)
        if self._wp:
            self._wp.w.holders.discard(me)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __reduce__(self):
        raise TypeError('connections of the simulator are inherited')

    # -- data
    def send(self, obj):
        if self._wp is None:
            raise OSError('connection is read-only')
        self._here(self._wp.w)
        self.send_bytes(self._mp.dumps(obj))

    def send_bytes(self, data, offset=0, size=None):
        data = bytes(data)
        self._raw(struct.pack('!Q', len(data)) + data)

    def _raw(self, data):
        p, mp = self._wp, self._mp
        while data:
            mp.step('write')
            self._here(p.w)
            if not p.r.holders:
                raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
            room = p.cap - len(p.buf)
            if room <= 0:
                mp.probes['writer blocked on a full pipe'] = \
                    mp.probes.get('writer blocked on a full pipe', 0) + 1
                mp.wait(lambda: len(p.buf) < p.cap or not p.r.holders)
                continue
            n = min(room, len(data))
            p.buf += data[:n]
            me = mp.me()
            if getattr(me, 'posted', None) is None:
                me.posted = mp.clock.now
            data = data[n:]

    def poll(self, timeout=0.0):
        if self._rp is None:
            raise OSError('connection is write-only')
        self._here(self._rp.r)
        p = self._rp
        ready = lambda: bool(p.buf) or not p.w.holders
        self._mp.step('poll')
        if timeout == 0.0 and timeout is not None:
            return ready()
        return self._mp.wait(ready, timeout)

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def recv_bytes(self, maxlength=None):
        if self._rp is None:
            raise OSError('connection is write-only')
        self._here(self._rp.r)
        head = self._read(8, True)
        n = struct.unpack('!Q', head)[0]
        return self._read(n, False)

    def _read(self, n, first):
        p, mp = self._rp, self._mp
        out = bytearray()
        while len(out) < n:
            mp.step('read')
            if not p.buf:
                if not p.w.holders:
                    if first and not out:
                        raise EOFError
                    raise OSError('got end of file during message')
                mp.wait(lambda: p.buf or not p.w.holders)
                continue
            k = min(len(p.buf), n - len(out))
            out += p.buf[:k]
            del p.buf[:k]
        return bytes(out)


class Sem:
    def __init__(self, mp, value, bound=None):
        self.mp, self.value, self.bound = mp, value, bound

    def acquire(self, block=True, timeout=None):
        self.mp.step('sem')
        if self.value <= 0:
            if not block:
                return False
            if not self.mp.wait(lambda: self.value > 0, timeout):
                return False
        self.value -= 1
        return True

    def release(self):
        self.value += 1

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Queue:
    def __init__(self, mp, maxsize=0):
        import queue
        self._mp, self._q = mp, queue
        self._max = maxsize if maxsize > 0 else 2 ** 31 - 1
        self._sem = Sem(mp, self._max)
        self._reader, self._writer = mp.Pipe(duplex=False)
        self._rlock, self._wlock = Sem(mp, 1), Sem(mp, 1)
        self._local = {}            # per process: buffer, feeder task, flags

    def _st(self):
        return self._local.setdefault(self._mp.me(), {'buf': [], 'feeder': None, 'closed': False,
                                                      'cancel': False})

    def put(self, obj, block=True, timeout=None):
        st = self._st()
        if st['closed']:
            raise ValueError('Queue is closed')
        if not self._sem.acquire(block, timeout):
            raise self._q.Full
        st['buf'].append(obj)
        if st['feeder'] is None:
            mp = self._mp
            st['feeder'] = mp.thread('feeder', lambda: self._feed(st), daemon='join')
            mp.me().__dict__.setdefault('feeders', []).append(st)

    def _feed(self, st):
        mp = self._mp
        while True:
            mp.wait(lambda: st['buf'] or st['closed'] or mp.me().__dict__.get('exiting'))
            if not st['buf']:
                return
            obj = st['buf'].pop(0)
            try:
                data = mp.dumps(obj)
            except Exception:
                self._sem.release()
                mp.probes['feeder could not pickle'] = 1
                continue
            try:
                self._wlock.acquire()
                try:
                    self._writer.send_bytes(data)
                finally:
                    self._wlock.release()
            except BrokenPipeError:
                return

    def get(self, block=True, timeout=None):
        mp = self._mp
        end = None if timeout is None else mp.clock.now + timeout
        if not self._rlock.acquire(block, timeout):
            raise self._q.Empty
        try:
            if block and timeout is None:
                data = self._reader.recv_bytes()
            else:
                left = max(0, end - mp.clock.now) if block else 0
                if not self._reader.poll(left):
                    raise self._q.Empty
                data = self._reader.recv_bytes()
            self._sem.release()
        finally:
            self._rlock.release()
        return pickle.loads(data)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, obj):
        return self.put(obj, False)

    def full(self):
        return self._sem.value <= 0

    def empty(self):
        return not self._reader.poll()

    def qsize(self):
        return self._max - self._sem.value

    def close(self):
        self._st()['closed'] = True

    def join_thread(self):
        st = self._st()
        if st['feeder'] is not None:
            self._mp.wait(lambda: st['feeder'].done)

    def cancel_join_thread(self):
        self._st()['cancel'] = True


class SimpleQueue:
    def __init__(self, mp):
        self._reader, self._writer = mp.Pipe(duplex=False)
        self._rl, self._wl = Sem(mp, 1), Sem(mp, 1)

    def put(self, obj):
        with self._wl:
            self._writer.send(obj)

    def get(self):
        with self._rl:
            return self._reader.recv()

    def empty(self):
        return not self._reader.poll()

    def close(self):
        self._reader.close()
        self._writer.close()


class Event:
    def __init__(self, mp):
        self._mp, self._f = mp, False

    def set(self):
        self._f = True

    def clear(self):
        self._f = False

    def is_set(self):
        self._mp.step('event')
        return self._f

    def wait(self, timeout=None):
        return self._mp.wait(lambda: self._f, timeout)


class ProcessError(Exception):
    pass


class TimeoutError_(ProcessError):
    pass


class AuthenticationError(ProcessError):
    pass


class MP:
    """One simulated machine; `module()` is what the code imports."""

    def __init__(self, sched, clock, log, plan):
        self.sched, self.clock, self.log, self.plan = sched, clock, log, plan
        self.cap = plan.get('cap', CAP)
        self.procs, self.ends = [], []
        self._pid, self._fd = 100, 10
        self.probes, self.faults = {}, {}
        self.nproc = 0
        self.root = PProc(self, 'parent')
        self.quiet = False
        mp = self

        class Process:
            _start_method = None

            def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *,
                         daemon=None):
                self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs)
                self.name = name or 'Process-%d' % mp._pid
                self._p = None
                self._daemon = bool(daemon)
                self._closed = False

            def run(self):
                if self._target:
                    self._target(*self._args, **self._kwargs)

            def start(self):
                mp.start_process(self)

            def _need(self):
                if self._closed:
                    raise ValueError('process object is closed')
                if self._p is None:
                    raise AssertionError('can only join a started process')

            def join(self, timeout=None):
                self._need()
                mp.step('join')
                if timeout is not None and timeout <= 0:
                    return
                mp.wait(lambda: not self._p.alive, timeout)

            def is_alive(self):
                self._closed and self._need()
                mp.step('is_alive')
                return self._p is not None and self._p.alive

            def terminate(self):
                self._kill(-15)

            def kill(self):
                self._kill(-9)

            def _kill(self, code):
                self._need()
                mp.step('kill')
                if self._p.alive:
                    if code == -15 and mp.plan_for(self).get('ignores_term'):
                        mp.fault('SIGTERM ignored')
                        return
                    mp.count('children killed by the caller')
                    self._p.die(code)

            def close(self):
                if self._p is not None and self._p.alive:
                    raise ValueError('Cannot close a process while it is still running.')
                self._closed = True

            @property
            def exitcode(self):
                return None if self._p is None else self._p.exitcode

            @property
            def pid(self):
                return None if self._p is None else self._p.pid
            ident = pid

            @property
            def daemon(self):
                return self._daemon

            @daemon.setter
            def daemon(self, v):
                self._daemon = v

            @property
            def sentinel(self):
                self._need()
                return Sentinel(self._p)
        self.Process = Process

    def plan_for(self, process):
        return getattr(process._p, 'plan', {})

    def count(self, k):
        self.probes[k] = self.probes.get(k, 0) + 1

    def fault(self, k):
        self.faults[k] = self.faults.get(k, 0) + 1

    def next_pid(self):
        self._pid += 1
        return self._pid

    def next_fd(self):
        self._fd += 1
        return self._fd

    def me(self):
        t = self.sched.me()
        return getattr(t, 'pproc', None) or self.root

    def step(self, what):
        p = self.me()
        if not p.alive:
            raise SimCrash()
        self.sched.yield_point(what)
        if not p.alive:
            raise SimCrash()
        f = getattr(p, 'plan', None)
        if f:
            f['nstep'] = f.get('nstep', 0) + 1
            if f.get('die_at') == f['nstep'] and p is not self.root:
                self.fault('child killed from outside')
                p.die(-9)
                raise SimCrash()

    def wait(self, pred, timeout=None):
        return bool(self.sched.wait(pred, timeout))

    def dumps(self, obj):
        return pickle.dumps(obj)

    def thread(self, name, fn, daemon=None):
        p = self.me()
        t = self.sched.spawn('%s.%s' % (p.name, name), fn, trace=False)
        t.pproc = p
        p.tasks.append(t)
        return t

    def start_process(self, process):
        assert process._p is None, 'cannot start a process twice'
        me = self.me()
        self.step('fork')
        spec = self.plan['children'][self.nproc % len(self.plan['children'])] \
            if self.plan.get('children') else {}
        self.nproc += 1
        if spec.get('fork_fails'):
            self.fault('fork fails')
            raise OSError(errno.EAGAIN, 'Resource temporarily unavailable')
        p = PProc(self, 'child%d' % self.nproc, me)
        p.plan = dict(spec)
        process._p = p
        for e in self.ends:
            if me in e.holders:
                e.holders.add(p)
        mp = self

        def body():
            code = 1
            try:
                if spec.get('slow_start'):
                    mp.fault('slow start of the child')
                    mp.wait(lambda: False, spec['slow_start'])
                mp.step('begin')
                try:
                    process.run()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except (SimCrash,):
                    raise
                except Exception:
                    code = 1
                except KeyboardInterrupt:
                    code = 1
                # leave like multiprocessing does: flush what is queued
                p.exiting = True
                for st in p.__dict__.get('feeders', []):
                    if not st['cancel']:
                        mp.wait(lambda: st['feeder'].done)
                mp.step('exit')
                if spec.get('slow_exit'):
                    mp.fault('slow exit of the child')
                    mp.wait(lambda: False, spec['slow_exit'])
            finally:
                p.die(code)
        t = self.sched.spawn(p.name, body, trace=True)
        t.pproc = p
        p.tasks.append(t)
        self.step('forked')

    def Pipe(self, duplex=True):
        if self.plan.get('pipe_fails') and self.plan['pipe_fails'] == self._fd:
            pass
        me = self.me()
        self.step('pipe')
        a = Pipe1(self, me)
        if not duplex:
            return Connection(self, rp=a), Connection(self, wp=a)
        b = Pipe1(self, me)
        return Connection(self, rp=a, wp=b), Connection(self, rp=b, wp=a)

    def conn_wait(self, objs, timeout=None):
        objs = list(objs)

        def ready(o):
            if isinstance(o, Sentinel):
                return not o.p.alive
            return bool(o._rp.buf) or not o._rp.w.holders
        self.step('wait')
        if timeout is not None and timeout <= 0:
            return [o for o in objs if ready(o)]
        self.wait(lambda: any(ready(o) for o in objs), timeout)
        return [o for o in objs if ready(o)]

    def module(self):
        mp = self
        m = types.ModuleType('multiprocessing')
        m.Process = self.Process
        m.Queue = lambda maxsize=0: Queue(mp, maxsize)
        m.JoinableQueue = m.Queue
        m.SimpleQueue = lambda: SimpleQueue(mp)
        m.Pipe = self.Pipe
        m.Lock = SimLock
        m.RLock = SimRLock
        m.Event = lambda: Event(mp)
        m.Semaphore = lambda v=1: Sem(mp, v)
        m.cpu_count = lambda: 8
        m.ProcessError, m.TimeoutError = ProcessError, TimeoutError_
        m.AuthenticationError = AuthenticationError
        m.active_children = lambda: []
        m.get_context = lambda method=None: m
        m.get_start_method = lambda allow_none=False: 'fork'
        m.current_process = lambda: types.SimpleNamespace(name=mp.me().name, pid=mp.me().pid,
                                                          daemon=False)
        m.log_to_stderr = lambda level=None: __import__('logging').getLogger('mp')
        m.get_logger = m.log_to_stderr
        m.freeze_support = lambda: None
        c = types.ModuleType('multiprocessing.connection')
        c.wait, c.Connection, c.Pipe = self.conn_wait, Connection, self.Pipe
        m.connection = c
        q = types.ModuleType('multiprocessing.queues')
        q.Queue = Queue
        import queue
        q.Empty, q.Full = queue.Empty, queue.Full
        m.queues = q
        m.__path__ = []
        return m, {'multiprocessing': m, 'multiprocessing.connection': c,
                   'multiprocessing.queues': q}


class Sentinel:
    def __init__(self, p):
        self.p = p
