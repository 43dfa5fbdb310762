"""Deterministic scheduler: simulated tasks are real threads of which exactly one
runs at any time; who runs next is decided only at yield points and only by the
plan (a list of [step, task] preemptions), never by the operating system.

Yield points are: intercepted system calls, simulated lock / sleep / wait
operations and, for tasks spawned with trace=True, every line (or bytecode) that
executes in a file of the repository.
"""
import sys
import threading
import _thread

_alloc = _thread.allocate_lock


class SimCrash(BaseException):
    """The simulated process this task belongs to has been killed."""


class SimAbort(BaseException):
    """The simulator is tearing the run down."""


class SimDeadlock(Exception):
    pass


class SimBudget(Exception):
    """The run used more steps than it is allowed."""


class Task:
    def __init__(self, idx, name, fn, proc=None, trace=False):
        self.idx, self.name, self.fn, self.proc, self.trace = idx, name, fn, proc, trace
        self.baton = _alloc()
        self.baton.acquire()
        self.done = False
        self.started = False
        self.result = None
        self.exc = None
        self.waiting = None          # predicate
        self.deadline = None
        self.killed = False
        self.atomic = 0
        self.steps = 0


class Sched:
    current = None                   # the installed scheduler

    def __init__(self, switches=(), max_steps=2000000, clock=None, trace_files=None,
                 opcodes=False, log=None):
        self.switches = sorted([tuple(s) for s in switches])
        self.sw = 0
        self.step = 0
        self.max_steps = max_steps
        self.clock = clock
        self.tasks = []
        self.by_ident = {}
        self.main = _alloc()
        self.main.acquire()
        self.running = None
        self.error = None
        self.trace_files = trace_files
        self.opcodes = opcodes
        self.log = log
        self.nswitch = 0
        self.preemptions = []        # those that really changed the running task
        self.aborting = False
        self.on_step = None
        self.quiet_after = None
        self.on_yield = None

    # ---- building
    def spawn(self, name, fn, proc=None, trace=False):
        t = Task(len(self.tasks), name, fn, proc, trace)
        self.tasks.append(t)
        return t

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # ---- thread body
    def _body(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.aborting or t.killed:
                return
            if t.trace:
                sys.settrace(self._gtrace)
            try:
                t.result = t.fn()
            finally:
                if t.trace:
                    sys.settrace(None)
        except SimAbort:
            pass
        except BaseException as e:        # kept as the task's outcome
            t.exc = e
        finally:
            t.done = True
            if not self.aborting:
                try:
                    self._handover(None)
                except SimAbort:
                    pass
            else:
                self._release(self.main)

    @staticmethod
    def _release(lock):
        try:
            lock.release()
        except RuntimeError:
            pass

    def _gtrace(self, frame, event, arg):
        if event == 'call':
            fn = frame.f_code.co_filename
            if fn.startswith(self.trace_files):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return self._ltrace
        return None

    def _ltrace(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.yield_point()
        return self._ltrace

    # ---- scheduling
    def _runnable(self):
        out = []
        now = self.clock.now if self.clock else 0
        for t in self.tasks:
            if t.done:
                continue
            if t.waiting is None or t.killed:
                out.append(t)
            else:
                if t.waiting() or (t.deadline is not None and now >= t.deadline):
                    out.append(t)
        return out

    def _pick_any(self):
        """Who runs when the current task cannot go on."""
        while True:
            r = self._runnable()
            if r:
                return r[0] if self.running is None else self._after(r)
            dl = [t.deadline for t in self.tasks if not t.done and t.deadline is not None]
            if not dl:
                return None
            self.clock.advance_to(min(dl))

    def _after(self, r):
        # the lowest runnable index: deterministic, and biased to let the first go on
        return r[0]

    def _give(self, t):
        self.running = t
        self.nswitch += 1
        if not t.started:
            t.started = True
            threading.Thread(target=self._body, args=(t,), daemon=True).start()
        self._release(t.baton)

    def _handover(self, me):
        """Give the baton away; returns when `me` has it again (None: never)."""
        nxt = self._pick_any()
        if nxt is None:
            live = [t for t in self.tasks if not t.done]
            if live:
                self.error = SimDeadlock('no task can run: ' +
                                         ', '.join(t.name for t in live))
            self.running = None
            self._release(self.main)
            if me is not None:
                me.baton.acquire()
                raise SimAbort()
            return
        if nxt is me:
            self.running = me
            return
        self._give(nxt)
        if me is not None:
            me.baton.acquire()
            if self.aborting:
                raise SimAbort()

    def yield_point(self, what=None):
        t = self.by_ident.get(_thread.get_ident())
        if t is None or t is not self.running:
            return
        if self.aborting:
            raise SimAbort()
        if t.killed:
            raise SimCrash()
        self.step += 1
        t.steps += 1
        if self.step > self.max_steps:
            self.error = SimBudget('more than %d steps' % self.max_steps)
            self.running = None
            self._release(self.main)
            t.baton.acquire()
            raise SimAbort()
        if self.on_yield is not None:
            self.on_yield(t, what)
        if t.atomic:
            return
        while self.sw < len(self.switches) and self.switches[self.sw][0] <= self.step:
            _, want = self.switches[self.sw]
            self.sw += 1
            r = self._runnable()
            others = [x for x in r if x is not t]
            if not others:
                continue
            nxt = others[want % len(others)]
            self.preemptions.append((self.step, t.idx, nxt.idx))
            self._give(nxt)
            t.baton.acquire()
            if self.aborting:
                raise SimAbort()
            if t.killed:
                raise SimCrash()

    def wait(self, pred, timeout=None):
        """Block the running task until pred() or the simulated timeout."""
        t = self.me()
        if t is None:
            if not pred():
                raise SimDeadlock('wait outside a task')
            return True
        self.yield_point('wait')
        if pred():
            return True
        t.waiting = pred
        t.deadline = None if timeout is None else self.clock.now + max(0.0, timeout)
        try:
            self._handover(t)
        finally:
            ok = bool(pred())
            t.waiting = None
            t.deadline = None
        if t.killed:
            raise SimCrash()
        return ok

    def kill(self, t):
        t.killed = True

    def run(self):
        """Run every task to completion; raises SimDeadlock / SimBudget."""
        Sched.current = self
        try:
            first = self._pick_any()
            if first is None:
                return
            self._give(first)
            self.main.acquire()
        finally:
            Sched.current = None
            self.stuck = [t.name for t in self.tasks if not t.done]
            if any(not t.done and t.started for t in self.tasks):
                self.aborting = True
                for t in self.tasks:
                    if t.started and not t.done:
                        self._release(t.baton)
                        self.main.acquire(timeout=5)
        if self.error is not None:
            raise self.error


class SimLock:
    """threading.Lock for tasks of the simulator (falls back to a plain flag)."""

    def __init__(self, *a):
        self._owner = None
        self._count = 0
        self._re = False

    def acquire(self, blocking=True, timeout=-1):
        s = Sched.current
        me = (s.me() if s else None) or 'main'
        if self._re and self._owner is me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if s is None or me == 'main':
                raise SimDeadlock('lock held for ever')
            if not s.wait(lambda: self._owner is None,
                          None if timeout is None or timeout < 0 else timeout):
                return False
        self._owner = me
        self._count = 1
        if s is not None and me != 'main':
            s.yield_point('lock')
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s = Sched.current
        return self._owner is ((s.me() if s else None) or 'main')


class SimRLock(SimLock):
    def __init__(self):
        SimLock.__init__(self)
        self._re = True


def install_locks(prefix):
    """threading.Lock()/RLock() called from a file under `prefix` makes a SimLock."""
    real_lock, real_rlock = threading.Lock, threading.RLock

    def from_repo():
        f = sys._getframe(2)
        return f.f_code.co_filename.startswith(prefix)

    def Lock():
        return SimLock() if from_repo() else real_lock()

    def RLock():
        return SimRLock() if from_repo() else real_rlock()
    threading.Lock, threading.RLock = Lock, RLock


def make_switches(rng, ntasks, horizon, n=None):
    """Preemption points: a few well spread, or clustered after one another."""
    if n is None:
        n = rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 20])
    out = []
    style = rng.random()
    if style < 0.5:
        for _ in range(n):
            out.append([rng.randrange(1, max(2, horizon)), rng.randrange(8)])
    else:
        s = rng.randrange(1, max(2, horizon))
        for _ in range(n):
            out.append([s, rng.randrange(8)])
            s += rng.choice([1, 1, 2, 3, 5, 8, 20, 100])
    out.sort()
    return out
