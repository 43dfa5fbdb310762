"""C05: the timeout wrapper, with simulated processes, pipes and clock."""
import importlib.util
import os
import sys
import types

from sim.core import Check, Run, digest
from sim.fakemp import MP
from sim.sched import Sched, SimBudget, SimCrash, SimDeadlock, make_switches
from sim.simos import Clock

REPO = os.environ.get('SIM_REPO', '/repo')
PATH = os.path.join(REPO, 'geotecha/inputoutput/timeout.py')


class Custom(Exception):
    pass


class TwoArgs(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, '%s-%s' % (a, b))


VALUES = {
    'int': lambda k, n: k, 'none': lambda k, n: None, 'false': lambda k, n: False,
    'empty': lambda k, n: b'', 'bytes': lambda k, n: bytes([k % 256]) * n,
    'list': lambda k, n: list(range(k, k + n // 8)), 'exc': lambda k, n: ValueError('value %d' % k),
    'tuple': lambda k, n: (True, k), 'tuple2': lambda k, n: (False, k), 'zero': lambda k, n: 0.0,
    'dict': lambda k, n: {'a': [k], 'b': 'x' * n},
}
RAISES = {'value': lambda k: ValueError('problem %d' % k), 'custom': lambda k: Custom(k),
          'key': lambda k: KeyError(k), 'os': lambda k: OSError(k, 'os'),
          'assert': lambda k: AssertionError('a%d' % k), 'eof': lambda k: EOFError('e%d' % k),
          'stop': lambda k: StopIteration(k), 'timeout': lambda k: TimeoutError('t%d' % k)}


def eq(a, b):
    if isinstance(a, BaseException):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


class TimeoutRun:
    def __init__(self, plan):
        self.plan, self.run = plan, Run()

    def go(self):
        plan, run = self.plan, self.run
        clock = self.clock = Clock(tick=plan['tick'])
        clock.jumps = [tuple(j) for j in plan['jumps']]
        s = self.s = Sched(plan['switches'], max_steps=60000, clock=clock, trace_files=PATH)
        mp = self.mp = MP(s, clock, run.log, plan)
        mod, sysmods = mp.module()
        ft = types.ModuleType('time')
        import time as rt
        for n in dir(rt):
            if not n.startswith('_'):
                setattr(ft, n, getattr(rt, n))
        ft.time, ft.monotonic, ft.perf_counter = clock.wall, clock.monotonic, clock.monotonic
        ft.sleep = lambda d: (mp.step('sleep'), mp.wait(lambda: False, d))
        names = dict(sysmods, time=ft)
        saved = {n: sys.modules.get(n) for n in names}
        sys.modules.update(names)
        try:
            spec = importlib.util.spec_from_file_location('timeout_under_test', PATH)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            # threading of the interpreter itself keeps the real clock
        finally:
            for n, v in saved.items():
                if v is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = v
        self.m = m
        self.running = {}
        self.bodies, self.shared = [], {}
        for i, calls in enumerate(plan['callers']):
            s.spawn('caller%d' % i, (lambda i=i, calls=calls: self.caller(i, calls)), trace=True)
        try:
            s.run()
        except (SimDeadlock, SimBudget) as e:
            # a child that nobody listens to any more may stay blocked for ever
            if any(n.startswith('caller') for n in s.stuck):
                run.bad('the call never returns', str(e))
        for t in s.tasks:
            if t.exc is not None and t.name.startswith('caller') and run.violation is None:
                import traceback
                raise RuntimeError('harness: ' + ''.join(traceback.format_exception(t.exc)))
        run.steps, run.sim_time = s.step, clock.now
        run.merge_faults(mp.faults)
        if clock.fired:
            run.fault('clock jump', clock.fired)
        for k, v in mp.probes.items():
            run.probe(k, v)
        run.states.append(digest(s.preemptions))
        return run

    # ------------------------------------------------------------- the functions
    def body(self, c, rec):
        mp = self.mp

        def function(*args, **kwargs):
            rec['started'] = self.clock.now
            rec['args'] = (args, kwargs)
            rec['proc'] = mp.me()
            act = c['act']
            if c['ticks']:
                dt = c['work'] / c['ticks']
                for _ in range(c['ticks']):
                    mp.step('compute')
                    self.clock.advance(dt)
                    rec['progress'] = rec.get('progress', 0) + 1
            else:
                mp.step('compute')
                mp.wait(lambda: False, c['work'])
            if act == 'hang':
                while True:
                    mp.step('hang')
                    mp.wait(lambda: False, 10.0)
                    rec['progress'] = rec.get('progress', 0) + 1
            rec['finished'] = self.clock.now
            if act == 'value':
                return VALUES[c['value']](c['k'], c['n'])
            if act == 'raise':
                raise RAISES[c['value']](c['k'])
            if act == 'lambda':
                return lambda: 1
            if act == 'badexc':
                raise TwoArgs(1, 2)
            if act == 'lockexc':
                raise ValueError(lambda: 2)
            if act == 'exit':
                raise SystemExit(c['k'] % 3)
            if act == 'interrupt':
                raise KeyboardInterrupt()
            if act == 'die':
                mp.fault('child dies')
                mp.me().die(9)
                raise SimCrash()
            return c['k']
        return function

    def wrapped(self, c, token):
        """The time limited function: made anew for this call, or with a decorator or wrapped
        function that other calls and callers use as well."""
        def function(token, *args, **kwargs):
            return self.bodies[token](*args, **kwargs)

        key = (c['seconds'], c['force'])
        kw = {} if c['force'] else {'force_kill': False}
        share = self.plan.get('share')
        if share is None:
            return self.m.timeout(c['seconds'], **kw)(function)
        if key not in self.shared:
            made = self.m.timeout(c['seconds'], **kw)
            self.shared[key] = made(function) if share == 'function' else made
        made = self.shared[key]
        return made if share == 'function' else made(function)

    def caller(self, i, calls):
        run, mp, clock = self.run, self.mp, self.clock
        for c in calls:
            if run.violation:
                return
            rec = {}
            self.running[i] = rec
            token = len(self.bodies)
            self.bodies.append(self.body(c, rec))
            wrapped = self.wrapped(c, token)
            t0 = clock.now
            nproc0 = mp.nproc
            run.ops += 1
            out, err = None, None
            try:
                out = wrapped(token, c['k'], *range(c['k'] % 3), **({'b': c['k']} if c['k'] % 2 else {}))
            except (SimCrash,):
                raise
            except BaseException as e:
                if type(e).__name__ == 'SimAbort':
                    raise
                err = e
            t1 = clock.now
            self.judge(i, c, rec, t0, t1, out, err)

    def judge(self, i, c, rec, t0, t1, out, err):
        run, mp, s = self.run, self.mp, self.s
        T = self.m.TimeoutException
        what = 'caller %d, limit %s s, %s after %.3f s' % (
            i, c['seconds'], c['act'] + ' ' + str(c.get('value', '')), c['work'])
        how = 'returned %r' % (str(out)[:60],) if err is None else 'raised %r' % (err,)
        run.log.append('%d %s %s' % (i, c['act'], how[:80]))
        child = rec.get('proc')
        plan = getattr(child, 'plan', {}) if child else {}
        killed = mp.faults.get('child killed from outside') or mp.faults.get('fork fails')
        limit = c['seconds']
        fin = rec.get('finished')
        eps = 1e-6
        if 'args' in rec:
            want = ((c['k'],) + tuple(range(c['k'] % 3)), {'b': c['k']} if c['k'] % 2 else {})
            if rec['args'] != want:
                run.bad('function called with other arguments', '%s: %r instead of %r' % (
                    what, rec['args'], want))
                return
        timed = isinstance(err, T)
        definite = c['act'] in ('value', 'raise')
        if definite:
            if c['act'] == 'value':
                right = err is None and eq(VALUES[c['value']](c['k'], c['n']), out)
            else:
                right = err is not None and eq(RAISES[c['value']](c['k']), err)
        else:
            right = err is not None and not timed
        if c['act'] == 'badexc' and err is None:
            right = False
        if err is None and not (definite and right):
            run.bad('wrong result', '%s: %s' % (what, how))
            return
        if timed:
            if limit is None:
                run.bad('timed out without a limit', '%s: %s' % (what, how))
                return
            if t1 < t0 + limit - eps:
                run.bad('timed out too early', '%s: %s at %.3f' % (what, how, t1 - t0))
                return
            # ready: the result is in the pipe; or nothing else kept the child from putting
            # it there
            posted = getattr(child, 'posted', None) if child else None
            ready = posted is not None and posted < t0 + limit - eps or \
                fin is not None and fin < t0 + limit - 0.2 and len(self.plan['callers']) == 1
            if ready and not killed and c['act'] in ('value', 'raise'):
                run.bad('timed out although the function had finished',
                        '%s: finished at %.3f, %s' % (what, fin - t0, how))
                return
            run.probe('timed out')
            if not self.plan['jumps']:
                import re
                num = [int(x) for x in re.findall(r'-?\d+', str(err))]
                if len(num) == 1 and not int(limit) - 1 <= num[0] <= t1 - t0 + 1.5:
                    run.bad('wrong run time reported', '%s: %s after %.3f s' % (
                        what, how, t1 - t0))
                    return
            if c['force'] and child is not None and not plan.get('ignores_term'):
                if child.alive:
                    # a signal takes effect when the child is scheduled again
                    mp.wait(lambda: not child.alive, 1.0)
                if child.alive:
                    run.bad('the function was not stopped', what)
                    return
            if not c['force'] and child is not None and not killed and \
                    c['act'] in ('value', 'raise'):
                if not child.alive and rec.get('finished') is None:
                    run.bad('the function was stopped although it should go on', what)
                    return
                run.probe('function goes on after its time is up')
            return
        if definite and not right:
            if (killed or isinstance(err, OSError) and mp.faults.get('fork fails')) \
                    and err is not None:
                run.probe('the caller was told that the child died')
                return
            run.bad('wrong result', '%s: %s' % (what, how))
            return
        if not definite and err is not None:
            run.probe('no result, and the caller was told')
        if limit is not None and definite and fin is not None and not c['ticks'] and \
                len(self.plan['callers']) == 1 and fin > t0 + limit + 0.06 + self.clock.tick * 500:
            run.bad('the limit is not kept', '%s: finished at %.3f, %s at %.3f' % (
                what, fin - t0, how, t1 - t0))
            return
        # the limit is kept, whatever happens to the child
        if limit is not None and err is not None and not definite:
            late = (t1 - t0) - limit
            busy = sum(x['work'] for cs in self.plan['callers'] for x in cs)
            if late > busy + 1.0 + self.clock.tick * 500:
                run.bad('the limit is not kept', '%s: %s after %.3f s' % (what, how, t1 - t0))
                return
        if fin is None and definite:
            run.bad('result before the function has finished', what)
        if definite and right:
            run.probe('result passed on' if err is None else 'error passed on')


class CHECK(Check):
    prop = 'C05'
    quick = (12000, 45)
    thorough = (400000, 1500)
    run_timeout = 60
    rule = ('A run is 1-3 callers (threads) making 1-4 calls each through timeout(): functions '
            'that sleep, compute, hang, return values of 0 bytes to several pipe capacities, '
            'raise, return what cannot be pickled, exit or are killed, around the limit and far '
            'from it; preempted at every line of the wrapper and every pipe, process and clock '
            'operation; slow starts and exits, failing forks, ignored SIGTERM, clock jumps.')
    real = ['geotecha.inputoutput.timeout', 'pickle']
    stub = ['multiprocessing (processes, pipes with a capacity, queues with a feeder thread, '
            'sentinels)', 'clock']
    assumptions = ['fork start method; the child sees the parent\'s objects as they are']

    def generate(self, rng, index, tier):
        callers = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            calls = []
            for _ in range(rng.choice([1, 1, 2, 3, 4])):
                sec = rng.choice([0.5, 1, 2, 2.5, 10, 0.01, 100, 100, None])
                base = sec if sec is not None else 3.0
                work = rng.choice([0.0, 0.0, base * 0.5, base * 0.9, base, base * 1.01, base * 1.5,
                                   base * 3, max(0.0, base - 1e-7), max(0.0, base - 0.2)])
                act = rng.choice(['value'] * 9 + ['raise'] * 5 +
                                 ['lambda', 'badexc', 'lockexc', 'exit', 'interrupt', 'die', 'hang'])
                if act == 'hang' and sec is None:
                    act = 'value'
                c = {'seconds': sec, 'work': work, 'act': act, 'k': rng.randrange(1000),
                     'ticks': rng.choice([0, 0, 1, 3, 10]), 'force': rng.random() < 0.75,
                     'n': rng.choice([1, 10, 1000, 4080, 4096, 60000, 65536, 65537, 70000, 200000])}
                if act == 'value':
                    c['value'] = rng.choice(sorted(VALUES) + ['bytes', 'bytes', 'dict'])
                elif act == 'raise':
                    c['value'] = rng.choice(sorted(RAISES))
                if act == 'hang' and not c['force']:
                    c['force'] = True
                calls.append(c)
            callers.append(calls)
        ch = []
        for _ in range(6):
            d = {}
            if rng.random() < 0.08:
                d['die_at'] = rng.randrange(1, 14)
            if rng.random() < 0.06:
                d['slow_start'] = rng.choice([0.1, 1.0, 5.0])
            if rng.random() < 0.08:
                d['slow_exit'] = rng.choice([0.1, 1.0, 50.0])
            if rng.random() < 0.03:
                d['fork_fails'] = True
            ch.append(d)
        n = len(callers)
        share = rng.choice([None, 'function', 'function', 'decorator'])
        if share and rng.random() < 0.7:
            for c in sum(callers, []):      # so that there is something to share
                if c['seconds'] is None or c['act'] == 'hang' and callers[0][0]['seconds'] is None:
                    continue
                if callers[0][0]['seconds'] is not None:
                    c['work'] *= callers[0][0]['seconds'] / c['seconds']
                    c['seconds'] = callers[0][0]['seconds']
                    c['force'] = callers[0][0]['force'] or c['act'] == 'hang'
        return {'callers': callers, 'share': share, 'children': ch, 'tick': rng.choice([0.0, 0.0, 1e-4]),
                'cap': rng.choice([65536, 65536, 4096, 512]),
                'jumps': [[rng.randrange(1, 6), rng.choice([-1e6, 1e6, -3.0, 86400.0])]
                          for _ in range(rng.choice([0, 0, 1, 2]))],
                'switches': make_switches(rng, 3, rng.choice([40, 100, 300])),
                '_shrink': ['callers'] + ['callers.%d' % i for i in range(n)] +
                ['switches', 'jumps', 'children']}

    def execute(self, plan):
        return TimeoutRun(plan).go()


