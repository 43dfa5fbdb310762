"""C03: batch processing of input files (GenericInputFileArgParser)."""
import io
import logging
import os
import random
import re
import sys

from sim import saving
from sim.core import Check, Run, digest, scratch
from sim.saving import disk, mkfile, verify_outputs
from sim.sched import Sched, SimBudget, SimCrash, SimDeadlock, make_switches
from sim.simos import Clock, World


class Odd(Exception):
    def __init__(self, a, b):
        Exception.__init__(self, a, b)


ERRORS = {'value': lambda: ValueError('bad value'), 'odd': lambda: Odd(1, 2),
          'assert': lambda: AssertionError(), 'os': lambda: OSError(5, 'io'),
          'memory': lambda: MemoryError(), 'recursion': lambda: RecursionError('deep'),
          'unicode': lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'bad'),
          'stop': lambda: StopIteration(3), 'key': lambda: KeyError('missing'),
          'fmt': lambda: ValueError('100% {0} %s %(x)d')}


def chained(e, exc):
    while e is not None:
        if e is exc:
            return True
        e = e.__context__
    return False


class Handler(logging.Handler):
    def __init__(self, run):
        logging.Handler.__init__(self, level=0)
        self.run = run

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as e:
            msg = 'UNFORMATTABLE %s' % e
        self.run.records.append((self.run.who(), record.levelno, msg,
                                 record.exc_info[1] if record.exc_info else None))


class Batch:
    def __init__(self, plan):
        self.plan = plan
        self.run = Run()
        self.records = []
        self.parsers, self.current = {}, {}

    def who(self):
        return self.w.proc().name

    def go(self):
        plan, run = self.plan, self.run
        root = scratch()
        clock = Clock(tick=plan['tick'])
        clock.jumps = [tuple(j) for j in plan['jumps']]
        w = self.w = World(root, clock=clock, log=run.log,
                           shuffle=random.Random(plan['shuffle']))
        for d in plan['dirs']:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        os.makedirs(os.path.join(root, 'home'), exist_ok=True)
        self.files = plan['files']
        self.text = {}
        for n, f in enumerate(self.files):
            self.place(root, n, f)
        self.by_path = {os.path.join(w.root, f['path']): f for f in self.files}
        h = Handler(self)
        lg = logging.getLogger()
        old = lg.level, list(lg.handlers)
        for x in old[1]:
            lg.removeHandler(x)
        lg.addHandler(h)
        old_err, sys.stderr = sys.stderr, io.StringIO()   # argparse usage messages
        try:
            with w:
                for i, ph in enumerate(plan['phases']):
                    self.phase(i, ph)
                    if run.violation:
                        break
        finally:
            sys.stderr = old_err
            lg.removeHandler(h)
            for x in old[1]:
                lg.addHandler(x)
            lg.setLevel(old[0])
        run.merge_faults(w.fault_counts)
        if clock.fired:
            run.fault('clock jump', clock.fired)
        run.sim_time = clock.now
        run.states.append(digest(sorted(run.probes), [(r[0], r[1]) for r in self.records]))
        return run

    def place(self, root, n, f):
        p = f['path']
        k = f['kind']
        if k == 'missing':
            return
        if k == 'dir':
            os.makedirs(os.path.join(root, p), exist_ok=True)
            return
        tok = 'tok%04dx' % n
        f['tok'] = tok
        if 'job' in f:
            text = saving.text_for(f['job'], tok, None)
            if k == 'syntax':
                text += 'def broken(:\n'
            elif k == 'forbidden':
                text += 'import os\n'
            elif k == 'badvalue':
                text += "tvals = 1/0\nrows = 1/0\n"
            elif k == 'incomplete':
                text = text.replace('alpha', 'gamma_').replace('mvref', 'mvr')\
                    .replace('surcharge_vs_time', 'surch')
        else:
            text = '# %s\nx = 1\n' % tok
        data = text.encode('utf-8')
        if k == 'binary':
            data = b'\xff\xfe\x00\x81' + data
        self.text[p] = text
        mkfile(root, p, data)

    # ----------------------------------------------------------------- one phase
    def phase(self, i, ph):
        w, run = self.w, self.run
        s = Sched(ph.get('switches', []), max_steps=200000, clock=w.clock)
        w.sched = s
        procs = []
        self.single = len(ph['procs']) == 1
        for n, pp in enumerate(ph['procs']):
            p = w.add_proc('p%d.%d' % (i, n), cwd=os.path.join(w.root, 'home'),
                           faults=pp.get('faults', []))
            procs.append(p)
            s.spawn(p.name, (lambda p=p, pp=pp: self.proc(p, pp)), proc=p)
        try:
            s.run()
        except (SimBudget, SimDeadlock) as e:
            run.bad('run does not end', 'phase %d: %s' % (i, e))
        w.sched = None
        run.steps += s.step
        if s.preemptions:
            run.states.append('i' + digest(s.preemptions))
        for t in s.tasks:
            if t.exc is not None and not isinstance(t.exc, SimCrash):
                import traceback
                raise RuntimeError('harness: ' + ''.join(traceback.format_exception(t.exc)))
        w.fds.clear()

    def proc(self, p, pp):
        for b in pp['batches']:
            if self.run.violation:
                return
            self.batch(p, b, 0)

    def batch(self, p, b, depth):
        from geotecha.inputoutput.inputoutput import GenericInputFileArgParser
        w, run = self.w, self.run
        lg = logging.getLogger()
        lg.setLevel(b.get('level', logging.WARNING))
        if depth == 0:
            p.cwd = os.path.join(w.root, 'home')
            if self.single:
                try:
                    w.real['mkdir'](p.cwd)
                except OSError:
                    pass
        level0 = lg.level
        cwd0 = p.cwd
        nfired = len(p.fired)
        start = len(self.records)
        attempts = []
        state = {'handles': [], 'rmcwd': False}
        listed = [self.files[i] for i in b['files']]
        run.ops += 1

        def obj(arg):
            return self.callback(p, b, arg, attempts, state, listed, depth)

        if b['mode'] == 'f':
            argv = ['-f'] + [self.name(p, f, b) for f in listed]
            expected = [os.path.join(w.root, f['path']) for f in listed]
        else:
            argv = ['-d'] + [os.path.relpath(os.path.join(w.root, d), p.cwd) if b.get('rel')
                             else os.path.join(w.root, d) for d in b['dirs']] \
                + ['-p', b['pattern']]
            expected = []
            real = disk(w)
            import fnmatch
            for d in b['dirs']:
                for q in sorted(real):
                    if os.path.dirname(q) == d and fnmatch.fnmatchcase(os.path.basename(q),
                                                                       b['pattern']):
                        expected.append(os.path.join(w.root, q))
        methods = [('first', (1, 'two'), {'x': [3]})] * b.get('before', 0) + \
            [('make_all', (), {})] + [('last', (), {'n': 4})] * b.get('after', 0)
        a_bad = self.bad_arguments(b, argv, listed)
        if a_bad:
            argv, expected = a_bad, []
        key = (p.name, b['open'], len(methods), b.get('sub')) if b.get('reuse') else object()
        if key not in self.parsers:
            self.parsers[key] = self.make_parser(b, methods, key)
        before, self.current[key] = self.current.get(key), obj
        parser = self.parsers[key]
        err = None
        old_argv = sys.argv
        try:
            if b.get('argv') == 'sys' and self.single:
                sys.argv = ['prog'] + argv
                try:
                    parser.main()
                finally:
                    sys.argv = old_argv
            else:
                parser.main(argv)
        except SimCrash:
            raise
        except BaseException as e:
            if type(e).__name__ == 'SimAbort':
                raise
            err = e
        self.current[key] = before
        for a in attempts:
            w.log.append('%s %s %s' % (p.name, w.rel(a['path']), a['how']))
        if err is not None:
            w.log.append('%s main raised %s' % (p.name, type(err).__name__))
        faulted = p.fired[nfired:]
        run.states.append(digest([(a['how'], a['kind']) for a in attempts],
                                 type(err).__name__ if err else None))
        recs = [r for r in self.records[start:] if r[0] == p.name]

        # ---- state of the process
        if self.single and depth == 0 and lg.level != level0:
            run.bad('logging level not restored', 'root logger level was %s, is %s after %s' % (
                level0, lg.level, type(err).__name__ if err else 'the batch'))
            return
        back_fault = any(k[2] == 'chdir' for k in faulted)
        if p.cwd != cwd0 and not back_fault and not run.faults.get('original working directory removed'):
            run.bad('working directory not restored', 'was %s, is %s after %s' % (
                w.rel(cwd0), p.cwd, type(err).__name__ if err else 'the batch'))
            return
        for hd in state['handles']:
            if not hd.closed:
                run.bad('input file left open', str(hd.name))
                return
        if a_bad:
            if attempts or not isinstance(err, BaseException):
                run.bad('contradictory arguments were accepted', '%s: processed %s' % (
                    argv[:1] + ['...'], [w.rel(a['path']) for a in attempts]))
            else:
                run.probe('contradictory arguments refused')
            return
        for a in attempts:
            want = ['first'] * b.get('before', 0) + ['make_all'] + ['last'] * b.get('after', 0)
            got = a['calls']
            if a['how'] == 'ok' and not faulted and got != want or got != want[:len(got)] or \
                    a.get('bad_args'):
                run.bad('the methods of an object were not called as asked',
                        '%s: %s instead of %s %s' % (w.rel(a['path']), got, want,
                                                     a.get('bad_args', '')))
                return
        # ---- which files were processed, how often, in what order
        stopped = err is not None
        if stopped:
            cause = state.get('stop') or any(k[1] == 'interrupt' for k in faulted)
            early = not attempts and not recs
            if isinstance(err, Exception) or isinstance(err, SystemExit) and not state.get('stop'):
                # before anything was processed: an empty match or a failed listing
                if early and (not expected or faulted):
                    run.probe('batch refused before it started')
                    return
                run.bad('batch stopped by the failure of a file', '%s: %s after %d attempts' % (
                    type(err).__name__, err, len(attempts)))
                return
            if not cause:
                run.bad('batch stopped by the failure of a file', '%s: %s' % (
                    type(err).__name__, err))
                return
            run.probe('batch interrupted')
        names = [r for r in recs if r[1] == logging.INFO]
        errs = [r for r in recs if r[1] >= logging.ERROR]
        seen = [a['path'] for a in attempts]
        if not stopped:
            # every file that reached the callback or failed before it is accounted for
            todo = list(expected)
            for a in seen:
                if a in todo:
                    todo.remove(a)
                elif b['mode'] == 'd' and not self.single and a not in expected:
                    pass         # appeared while the folder was being listed
                else:
                    run.bad('a file was processed that was not asked for, or twice',
                            w.rel(a))
                    return
            for path in todo:
                f = self.by_path.get(path)
                ok = any(path in r[2] for r in errs)
                if not ok and b['mode'] == 'd' and not os.path.lexists(path):
                    continue     # removed by the other process before it was listed
                if not ok:
                    run.bad('a file was skipped silently', '%s (processed: %s; problems: %s)' % (
                        w.rel(path), [w.rel(x) for x in seen], [r[2][:80] for r in errs]))
                    return
                legit = f is None or f['kind'] in ('missing', 'dir', 'vanished') or faulted \
                    or f.get('gone') or f['kind'] == 'binary' \
                    or w.fault_counts.get('file vanishes')
                if not legit:
                    run.bad('a good file was not processed', '%s: %s' % (w.rel(path), [
                        '%s %r' % (r[2][:200], r[3]) for r in errs if path in r[2]][:2]))
                    return
                run.probe('file could not be opened and the batch went on')
            if b['mode'] == 'f' and not faulted:
                order = [x for x in expected if x in seen]
                if order != seen and len(set(expected)) == len(expected):
                    run.bad('files processed in another order', '%s instead of %s' % (
                        [w.rel(x) for x in seen], [w.rel(x) for x in order]))
                    return
        for n, a in enumerate(attempts):
            d = os.path.dirname(a['path'])
            if a['cwd'] != d:
                run.bad('a file was processed in another working directory',
                        '%s in %s' % (w.rel(a['path']), a['cwd']))
                return
            last = n == len(attempts) - 1
            if stopped and last:
                continue
            mine = [r for r in errs if a['path'] in r[2]]
            if a['how'] != 'ok':
                if not mine:
                    run.bad('the failure of a file was not reported', '%s: %s' % (
                        w.rel(a['path']), a['how']))
                    return
                if a.get('exc') is not None and not any(chained(r[3], a['exc']) for r in mine):
                    run.bad('another error was reported for a file', '%s raised %r, logged %r' % (
                        w.rel(a['path']), a['exc'], [r[3] for r in mine]))
                    return
                run.probe('file failed and the batch went on')
            elif mine and not faulted and not run.faults.get('original working directory removed') and \
                    not w.fault_counts.get('file vanishes') and expected.count(a['path']) == 1 == seen.count(a['path']):
                run.bad('a problem was reported for a file that was processed',
                        '%s: %s %r' % (w.rel(a['path']), mine[0][2][:200], mine[0][3]))
                return
        if not stopped and self.single:
            for path in expected:
                if not any(path in r[2] for r in names):
                    run.bad('no progress was reported for a file', w.rel(path))
                    return
        # ---- the results
        if depth == 0 and self.single or not p.fired:
            self.results(p, attempts)

    def make_parser(self, b, methods, key):
        from geotecha.inputoutput.inputoutput import GenericInputFileArgParser
        base = GenericInputFileArgParser
        if b.get('sub'):
            class Sub(GenericInputFileArgParser):
                '''Documented way to do more with a file.'''
                def process(self, path):
                    return GenericInputFileArgParser.process(self, path)
            base = Sub
        return base(lambda arg: self.current[key](arg), pass_open_file=b['open'],
                    methods=methods)

    def bad_arguments(self, b, argv, listed):
        k = b.get('contradict')
        if k == 'both':
            if b['mode'] == 'f':
                return argv + ['-d', self.w.root, '-p', '*.py']
            return argv + ['-f'] + [os.path.join(self.w.root, f['path'])
                                    for f in self.files[:1]]
        if k == 'half':
            return ['-d', self.w.root] if b['mode'] == 'f' else ['-p', '*.py']
        return None

    def name(self, p, f, b):
        full = os.path.join(self.w.root, f['path'])
        return os.path.relpath(full, p.cwd) if b.get('rel') else full

    # ----------------------------------------------------------------- the callable
    def callback(self, p, b, arg, attempts, state, listed, depth):
        w, run = self.w, self.run
        path = arg.name if b['open'] else arg
        if b['open']:
            state['handles'].append(arg)
        path = os.path.normpath(path if path.startswith('/') else p.cwd + '/' + path)
        f = self.by_path.get(path)
        a = {'path': path, 'cwd': p.cwd, 'how': 'started', 'kind': f and f['kind'], 'calls': []}
        attempts.append(a)
        outer = self
        early = bool(f and (f.get('act') or {}).get('where') == 'init')

        def guarded(fn):
            try:
                fn()
            except (SimCrash,):
                raise
            except BaseException as e:
                if not isinstance(e, Exception):
                    state['stop'] = type(e).__name__
                a['how'] = 'raised ' + type(e).__name__
                a['exc'] = e
                raise

        def work():
            outer.work(p, b, arg, f, a, state, listed, depth)
            a['how'] = 'ok'

        class Result:
            def first(self, *args, **kwargs):
                a['calls'].append('first')
                if (args, kwargs) != ((1, 'two'), {'x': [3]}):
                    a['bad_args'] = 'first %r %r' % (args, kwargs)

            def make_all(self):
                a['calls'].append('make_all')
                if not early:
                    guarded(work)

            def last(self, *args, **kwargs):
                a['calls'].append('last')
                if (args, kwargs) != ((), {'n': 4}):
                    a['bad_args'] = 'last %r %r' % (args, kwargs)
                if f and f.get('late'):
                    def fail():
                        raise ERRORS[f['late']]()
                    guarded(fail)
        if early:
            guarded(work)
        return Result()

    def work(self, p, b, arg, f, a, state, listed, depth):
        w, run = self.w, self.run
        if f is None or f['kind'] in ('missing',):
            raise FileNotFoundError(2, 'no such file', a['path'])
        act = f.get('act')
        if b['open'] and arg.closed and 'job' not in f:
            # methods run after the file was closed; an analysis has read it by then
            pass
        if act:
            if act['do'] == 'rmnext':
                idx = [x for x in listed if x['path'] != f['path']]
                for x in idx[-1:]:
                    q = os.path.join(w.root, x['path'])
                    if os.path.isfile(q):
                        w.real['unlink'](q)
                        x['gone'] = True
                        run.fault('file removed during the batch')
            elif act['do'] == 'chdir':
                os.chdir(os.path.join(w.root, 'home') if p.cwd != w.root + '/home' else w.root)
                run.fault('callback changes directory')
            elif act['do'] == 'rmcwd':
                try:
                    w.real['rmdir'](os.path.join(w.root, 'home'))
                    state['rmcwd'] = True
                    run.fault('original working directory removed')
                except OSError:
                    pass
            elif act['do'] == 'level':
                logging.getLogger().setLevel(logging.ERROR - 35)
                run.fault('callback changes logging level')
            elif act['do'] == 'nested' and depth == 0 and self.single:
                inner = {'mode': 'f', 'files': act['files'], 'open': not b['open'], 'rel': False,
                         'level': logging.getLogger().level}
                lvl = logging.getLogger().level
                n = len(self.records)
                self.batch(p, inner, 1)
                del self.records[n:]
                if logging.getLogger().level != lvl:
                    run.bad('logging level not restored', 'nested batch')
                run.probe('nested batch')
            if act.get('raise'):
                k = act['raise']
                if k == 'interrupt':
                    raise KeyboardInterrupt()
                if k == 'exit':
                    raise SystemExit(3)
                if k == 'genexit':
                    raise GeneratorExit()
                run.fault('callback raises')
                raise ERRORS[k]()
        if 'job' in f:
            if b['open']:
                with open(a['path']) as fh:
                    text = fh.read()
            else:
                with open(a['path']) as fh:
                    text = fh.read()
            obj = saving.make_object(f['job'], text)
            obj.make_all()
            a['obj'] = obj
            a['text'] = text
            a['tables'] = saving.tables(f['job'], obj)
            a['figs'] = [x.text for x in getattr(obj, '_figures', None) or []
                         if hasattr(x, 'text')]

    def results(self, p, attempts):
        w, run = self.w, self.run
        real = None
        for a in attempts:
            if 'obj' not in a or a['how'] != 'ok':
                continue
            f = self.by_path[a['path']]
            if real is None:
                real = disk(w)
            tok = f['tok'].encode()
            src = w.rel(a['path'])
            mine = {q: d for q, d in real.items() if d is not None and tok in d and q != src}
            rel_dir = os.path.dirname(src)
            stems = {}
            for q in mine:
                m = re.match(re.escape(f['job']['prefix']) + r'\d+', os.path.basename(q))
                if m:
                    stems.setdefault(m.group(0), {})[q] = mine[q]
            rec = {'tok': f['tok'], 'obj': a['obj'], 'text': a['text'], 'tables': a['tables'],
                   'figs': a['figs']}
            problems = []
            for st, qs in sorted(stems.items()):
                e, _ = verify_outputs(f['job'], rec, qs, rel_dir)
                if e is None:
                    run.probe('outputs of a batch file complete')
                    break
                problems.append('%s: %s' % (st, e))
            else:
                run.bad('results of a file missing after the batch', '%s: %s' % (
                    src, problems or 'nothing found next to the input file'))
                return


class CHECK(Check):
    prop = 'C03'
    quick = (4000, 60)
    thorough = (150000, 1500)
    run_timeout = 60
    rule = ('A run is 1-2 phases of 1-2 simulated processes, each passing 1-7 input files (good, '
            'broken, missing, undecodable, directories, duplicates; relative and absolute; by '
            'name or by folder and pattern) through GenericInputFileArgParser.main with real '
            'analyses or callbacks that raise, interrupt, change directory or logging level, '
            'delete later files or the original folder, or start another batch; with I/O errors, '
            'vanishing files, crashes, interrupts and clock jumps.')
    real = ['geotecha.inputoutput.GenericInputFileArgParser, working_directory, loading and '
            'saving', 'speccon1d_vr / schiffmanandstein1970 analyses', 'logging', 'argparse']
    stub = ['operating system calls (proxy with faults)', 'clock', 'processes (threads run one '
            'at a time)', 'file dialog (never reached)']
    assumptions = ['a process is switched only at its file-system calls']

    def prepare(self, tier, seed):
        saving.imports()
        saving.LIGHT = saving.light_class()

    def generate(self, rng, index, tier):
        return gen(rng)

    def execute(self, plan):
        return Batch(plan).go()


def gen(rng):
    dirs = ['d%d' % i for i in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < 0.3:
        dirs.append('d0/sub')
    if rng.random() < 0.2:
        dirs.append('with space')
    nproc = rng.choice([1, 1, 1, 2])
    files = []
    names = ['in%d.py', 'case %d.py', 'f%d.txt', 'Ü%d.py', '%d.py', 'a{%d}.py', 'p%%s%d.py']
    for n in range(rng.choice([1, 2, 3, 4, 5, 7])):
        d = rng.choice(dirs + ['home'] * (rng.random() < 0.2))
        f = {'path': '%s/%s' % (d, rng.choice(names) % n)}
        r = rng.random()
        if r < 0.45:
            f['kind'] = 'good'
            f['job'] = {'model': rng.choice(['light'] * 4 + ['vr', 'vr', 'ss']),
                        'k': rng.randrange(1, 200), 'prefix': rng.choice(['out', 'r_', 'x.y']),
                        'nt': 2, 'outs': rng.randrange(1, 8), 'rows': rng.choice([1, 3, 20]),
                        'figs': rng.random() < 0.3}
            if rng.random() < 0.25:
                f['kind'] = rng.choice(['syntax', 'forbidden', 'badvalue', 'binary'])
        else:
            f['kind'] = rng.choice(['plain', 'plain', 'plain', 'plain', 'plain', 'missing', 'dir', 'binary'])
            if f['kind'] == 'plain':
                r = rng.random()
                if r < 0.3:
                    f['act'] = {'do': None, 'raise': rng.choice(sorted(ERRORS))}
                elif r < 0.75:
                    f['act'] = {'do': rng.choice(['rmnext', 'chdir', 'chdir', 'rmcwd', 'level',
                                                  'nested'])}
                    if rng.random() < 0.5:
                        f['act']['raise'] = rng.choice(sorted(ERRORS) + ['interrupt'])
                elif r < 0.85:
                    f['act'] = {'do': None, 'raise': rng.choice(['interrupt', 'exit', 'genexit'])}
                if 'act' in f and rng.random() < 0.35:
                    f['act']['where'] = 'init'
        if rng.random() < 0.06:
            f['late'] = rng.choice(sorted(ERRORS))
        files.append(f)
    for f in files:
        if (f.get('act') or {}).get('do') == 'nested':
            f['act']['files'] = [i for i, g in enumerate(files)
                                 if g is not f and (g.get('act') or {}).get('do') is None
                                 and (g.get('act') or {}).get('raise') not in
                                 ('interrupt', 'exit', 'genexit')][:3]
    phases = []
    faulty = rng.random() < 0.55
    for i in range(rng.choice([1, 1, 2])):
        procs = []
        for n in range(nproc):
            batches = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                b = {'open': rng.random() < 0.6, 'rel': rng.random() < 0.4,
                     'level': rng.choice([0, 10, 30, 30, 40])}
                if rng.random() < 0.3:
                    b['before'], b['after'] = rng.randrange(3), rng.randrange(2)
                for o in ('sub', 'reuse'):
                    if rng.random() < 0.3:
                        b[o] = True
                if rng.random() < 0.1:
                    b['argv'] = 'sys'
                if rng.random() < 0.03:
                    b['contradict'] = rng.choice(['both', 'half'])
                if rng.random() < 0.7:
                    b['mode'] = 'f'
                    b['files'] = [j for j in range(len(files)) if rng.random() < 0.9] or [0]
                    if rng.random() < 0.3:
                        rng.shuffle(b['files'])
                    if rng.random() < 0.15:
                        b['files'].append(rng.choice(b['files']))
                else:
                    b['mode'] = 'd'
                    b['dirs'] = [d for d in dirs if rng.random() < 0.8] or [dirs[0]]
                    b['pattern'] = rng.choice(['*.py', '*.py', '*', 'in*', '*.txt', 'zz*'])
                    b['files'] = []
                batches.append(b)
            procs.append({'batches': batches, 'faults': gen_faults(rng) if faulty and
                          rng.random() < 0.8 else []})
        phases.append({'procs': procs,
                       'switches': make_switches(rng, nproc, 120) if nproc > 1 else []})
    if nproc > 1:
        for f in files:
            f.pop('act', None)
            f.pop('late', None)
    return {'dirs': dirs, 'files': files, 'phases': phases, 'shuffle': rng.randrange(1 << 30),
            'tick': rng.choice([0.0, 0.0, 0.01, 3.0, 4000.0]),
            'jumps': [[rng.randrange(1, 12), rng.choice([-1e9, -4000.5, -1.0, 3600.0, 1e8])]
                      for _ in range(rng.choice([0, 0, 1, 2]))],
            '_shrink': ['phases'] + ['phases.%d.procs' % i for i in range(2)] +
            ['phases.%d.procs.%d.%s' % (i, n, x) for i in range(2) for n in range(2)
             for x in ('batches', 'faults')] +
            ['phases.%d.procs.%d.batches.%d.files' % (i, n, k) for i in range(2)
             for n in range(2) for k in range(2)] + ['phases.%d.switches' % i for i in range(2)] +
            ['jumps']}


def gen_faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['EIO', 'EACCES', 'EMFILE', 'ENOENT', 'vanish', 'vanish', 'crash',
                        'interrupt', 'ENOSPC', 'jump'])
        f = {'at': rng.randrange(1, 40), 'kind': k}
        if rng.random() < 0.7:
            f['op'] = rng.choice(['open_r', 'open_r', 'chdir', 'read', 'open_w', 'write', 'stat',
                                  'listdir', 'mkdir'])
            f['at'] = rng.choice([1, 1, 1, 2, 2, 3, 4, 5])
        if k == 'jump':
            f['delta'] = rng.choice([-5000, 7200])
        out.append(f)
    return out
