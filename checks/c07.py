"""C07: elasto-plastic unsaturated soil paths and profiles: repeatable, engine and thread
independent."""
import json
import os
import sys

import numpy as np

from checks import c08, c09
from sim import build, core, corpus, heap, refs, sched

EPUS = 'geotecha.constitutive_models.epus'
PERM = 'geotecha.constitutive_models.void_ratio_permeability'
COLS = ('ss', 'st', 'e', 'w', 'Sr', 'vw')
BASE = COLS + ('z', 'gam', 'uw')
INDEXES = ('m1s', 'm2s', 'm1w', 'm2w', 'm1a', 'm2a')
SWCC = ('wsat', 'a', 'b', 'wr', 'sl')
BREAK = ('logDS', 'Gs', 'beta', 'K0', 'Npoint', 'NumSr', 'MinSuction', 'pm')


class Failed(Exception):
    pass


def cls(name):
    return corpus.resolve('%s:%s' % (EPUS, name))


def path_of(p):
    return cls('StressPath')([dict(ist=bool(i), vl=v, npp=n) for i, v, n in p])


def swcc_of(s):
    return cls('CurveFittingSWCC')(**dict(zip(SWCC, s)))


def build_epus(sp, swcc=None, impl=None):
    return cls('EPUS')(SimpleSWCC=swcc or swcc_of(sp['swcc']), stp=path_of(sp['path']),
                       implementation=impl or sp['impl'], **sp['kw'])


def build_prof(sp, container=None):
    e = container or cls('EPUS')(SimpleSWCC=swcc_of(sp['swcc']), stp=path_of([[True, 20, 5]]),
                                 **sp['ekw'])
    kw = dict(sp['kw'])
    if kw.get('initial_stress'):
        kw['initial_stress'] = tuple(np.array(v, float) for v in kw['initial_stress'])
    return cls('EpusProfile')(e, **kw)


def perm(x):
    if x is None:
        return None
    return corpus.resolve('%s:%s' % (PERM, x[0]))(*x[1])


def epus_results(o):
    return {'%s of step %d' % (c, i): corpus.canon(np.array(getattr(d, c), float))
            for i, d in enumerate(o.stp.datapoints) for c in COLS}


def prof_results(o, names):
    return {'niter': corpus.canon(np.array(o.niter, float)),
            **{v: corpus.canon(np.array(getattr(o.profile, v), float)) for v in names}}


def extras(o, ops):
    """The further results of a profile: [[kind, arguments], ...] -> names of columns"""
    names = list(BASE)
    for k, a in ops:
        if k == 'comp':
            o.compression_indexes(*a)
            names += [n for n in INDEXES if n not in names]
        elif k == 'wperm':
            o.water_permeability(perm(a[0]), a[1])
            names += [n for n in ['kw'] if n not in names]
        elif k == 'aperm':
            o.air_permeability(perm(a[0]), a[1])
            names += [n for n in ['ka'] if n not in names]
    return names


def reference(sp, ops=()):
    """A new object with these inputs, alone in a fresh process, without compiled code."""
    def compute():
        refs.quiet()
        c09.Loads(core.Run(), {'fail': {k: {'mode': 'always', 'exc': 0}
                                        for k in c09.EXT}}).install()
        out = {}

        def go():
            try:
                with np.errstate(all='ignore'):
                    if 'path' in sp:
                        o = build_epus(sp, impl='scalar')
                        n[0] = refs._lines(o.Calresults)[1]
                        out['out'] = ['ok', epus_results(o), None]
                    else:
                        o = build_prof(sp)

                        def all_of():
                            o.calc()
                            return extras(o, ops)
                        names, n[0] = refs._lines(all_of)
                        out['out'] = ['ok', prof_results(o, names), None]
            except Exception as e:
                out['out'] = ['exc', type(e).__name__, str(e)[:200]]
        n = [0]
        go()
        out['steps'] = n[0]
        return out
    r = refs._cached('c07' + json.dumps([sp if 'path' not in sp else dict(sp, impl=0), ops],
                                        sort_keys=True), compute, 150)
    if 'out' not in r:
        raise RuntimeError('no reference: %s' % str(r)[:300])
    return r


def numbers(got, want, rtol=1e-6):
    for a in sorted(want):
        if a not in got:
            return 'no %s' % a
        w = c08.close(got[a], want[a])
        if w:
            return '%s: %s' % (a, w)
    return None


# ------------------------------------------------------------------ plans
def swcc_spec(rng):
    return [rng.choice([0.262, 0.3]), rng.choice([3.1e6, 1e5, 2e4]),
            rng.choice([3.377, 2.0, 1.2]), rng.choice([0.128, 0.08]), rng.choice([0.115, 0.2])]


def common(rng):
    return dict(logDS=rng.choice([0.6, 0.3, 1.0]), logRS=rng.choice([2, 1.5]), Ccs=rng.choice(
        [0.115, 0.2]), Css=rng.choice([0.019, 0.01]), Ccd=rng.choice([0.0, 0.01]),
        beta=rng.choice([0.1, 0.0]), pm=rng.choice([1.0, 2.0]), K0=rng.choice([1.0, 0.6]),
        Assumption=rng.choice([1, 0]), NumSr=rng.choice([10, 20]))


def epus_spec(rng):
    path = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        path.append([rng.random() < 0.5 if i else rng.random() < 0.8,
                     rng.choice([1.0, 20.0, 100.0, 1500.0, 3e4, 1e6]
                                if path and not path[-1][0] else [20.0, 60.0, 500.0, 2000.0]),
                     rng.choice([2, 4, 6])])
    return {'swcc': swcc_spec(rng), 'path': path,
            'kw': dict(common(rng), Npoint=rng.choice([15, 20, 30])),
            'impl': rng.choice(['fortran', 'fortran', 'scalar'])}


def prof_spec(rng):
    H = rng.choice([10.0, 5.0])
    kw = dict(H=H, zw=rng.choice([0.0, 0.4 * H, 0.5 * H, H]), q0=rng.choice([1.0, 10.0, 50.0]),
              gamw=rng.choice([10, 9.81]), nz=rng.choice([2, 3, 4]), Npoint=rng.choice([15, 30]),
              npp=rng.choice([3, 5]), max_iter=rng.choice([3, 5]), atol=rng.choice([0.1, 1.0]))
    if rng.random() < 0.3:
        kw.update(nz_refine=[0.7, 1], Npoint_refine=[0.7, 1], npp_refine=[0.7, 1])
        kw['nz'] = 4
    if rng.random() < 0.2:
        kw['initial_stress'] = [[0.0, H], [20.0, 60.0]]
    return {'swcc': swcc_spec(rng), 'ekw': common(rng), 'kw': kw}


def model(rng):
    return rng.choice([None, None, ['ConstantPermeabilityModel', [2.5]],
                       ['CkPermeabilityModel', [1.5, 10.0, 0.8]]])


def extra(rng):
    r = rng.random()
    if r < 0.55:
        return ['comp', [rng.choice([20, 5]), rng.choice([20, 60])]]
    if r < 0.8:
        return ['wperm', [model(rng), rng.choice([10, 15])]]
    return ['aperm', [model(rng), rng.choice([0.5, 0.8])]]


class CHECK(core.Check):
    prop = 'C07'
    need_ext = True
    run_timeout = 200
    died_is_violation = True
    quick = (1000, 75)
    thorough = (200000, 1500)
    rule = ('event logs (operations on each object, edits, interruptions, preemptions, failing '
            'calculations, whether the compiled engine loads, outcomes) that differ from one '
            'another; a state is (object kind, engine, operation, operation before)')
    real = ['EPUS, EpusProfile, StressPath, CurveFittingSWCC, both engines, numpy, matplotlib']
    stub = ['thread scheduling (one runs at a time, switches at lines of the repository chosen '
            'by the seed)', 'loading of the compiled engine (fails or not)',
            'the moment of an interruption (a line chosen by the seed)']
    assumptions = ['results agree to 6 digits of the largest number of each column',
                   'two threads never use one EPUS or EpusProfile object; they may share the '
                   'soil water characteristic curve and the container given to profiles',
                   'threads switch between lines, not inside the compiled engine']

    def prepare(self, tier, seed):
        import matplotlib.pyplot  # noqa
        import scipy.integrate, scipy.linalg, scipy.optimize, scipy.special  # noqa
        import scipy.interpolate, sympy  # noqa
        core.drop_scratch()
        sched.install_locks(build.REPO)
        sys.pycache_prefix = core.scratch()
        sys.dont_write_bytecode = False
        core.forked(lambda: __import__(EPUS) and 1, 100)
        for m in ('plotting.one_d', 'constitutive_models.void_ratio_permeability'):
            __import__('geotecha.' + m)
        for m in list(sys.modules):
            if m == EPUS or m == c09.EXT['epus']:
                del sys.modules[m]

    # ---------------------------------------------------------------- plans
    def edit(self, rng, sp):
        """[[attribute, value], ...]; value of the path as a list"""
        if 'path' in sp:
            new = epus_spec(rng)
            r = rng.random()
            if r < 0.3:
                i = rng.randrange(len(sp['path']))
                p = [list(x) for x in sp['path']]
                p[i][1] *= rng.choice([0.5, 1.2, 3.0])
                return [['vl', p]]
            if r < 0.5:
                return [['path', new['path']]]
            if r < 0.6:
                return [['impl', new['impl']]]
            if r < 0.7:
                return [['swcc', new['swcc']]]
            k = rng.choice(sorted(sp['kw']) + ['NumSr', 'Npoint', 'NumSr'])
            v = new['kw'][k]
            if k in ('NumSr', 'Npoint'):
                v = sp['kw'][k] + rng.choice([-4, 5, 10])
            return [[k, v]]
        new = prof_spec(rng)
        k = rng.choice(['H', 'zw', 'q0', 'gamw', 'nz', 'Npoint', 'npp', 'max_iter', 'atol',
                        'initial_stress'])
        v = new['kw'].get(k)
        if k == 'nz':
            v = 4
        if k == 'zw':
            v = sp['kw']['H'] * rng.choice([0.0, 0.3, 0.5, 1.0])
        return [[k, v]]

    def generate(self, rng, index, tier):
        threads = rng.random() < 0.45
        nobj = rng.choice([2, 2, 3]) if threads else rng.choice([1, 1, 2, 3])
        objs = [epus_spec(rng) if rng.random() < 0.6 else prof_spec(rng) for _ in range(nobj)]
        if rng.random() < 0.5:       # objects that differ little
            for i in range(1, nobj):
                b = json.loads(json.dumps(objs[0]))
                for a, v in self.edit(rng, b):
                    self.put(b, a, v)
                objs[i] = b
        cur = [json.loads(json.dumps(o)) for o in objs]
        tasks = [[] for _ in range(nobj)] if threads else [[]]
        for _ in range(rng.randint(nobj, nobj + 4)):
            i = rng.randrange(nobj)
            ops = tasks[i] if threads else tasks[0]
            r = rng.random()
            if r < 0.25:
                e = self.edit(rng, cur[i])
                for a, v in e:
                    self.put(cur[i], a, v)
                ops.append({'k': 'edit', 'o': i, 'e': e})
            elif r < 0.38:
                ops.append({'k': 'interrupt', 'o': i, 'at': round(rng.random(), 6)})
            elif r < 0.5:
                ops.append({'k': 'fail', 'a': rng.choice(BREAK), 'v': 'bad', 'n': rng.randrange(1, 40),
                    's': epus_spec(rng), 'o': i})
            elif r < 0.6:
                ops.append({'k': 'scribble', 'o': i})
            elif r < 0.68 and not threads:
                ops.append({'k': 'show', 'o': i})
            ops.append({'k': 'run', 'o': i})
            if 'path' not in cur[i]:
                for _ in range(rng.choice([0, 1, 1, 2])):
                    k, a = extra(rng)
                    if rng.random() < 0.15:
                        ops.append({'k': 'stop ' + k, 'o': i, 'a': a,
                                    'at': round(rng.random(), 6)})
                    ops.append({'k': k, 'o': i, 'a': a})
        for i in range(nobj):
            (tasks[i] if threads else tasks[0]).append({'k': 'run', 'o': i})
        sw = []
        if threads:
            sw = sorted([round(rng.random(), 6), rng.randrange(4)]
                        for _ in range(rng.choice([1, 2, 3, 5, 9])))
        return {'objs': objs, 'tasks': tasks, 'sw': sw, 'share': rng.random() < 0.5,
                'noext': rng.random() < 0.2,
                'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.4 else None,
                '_shrink': ['tasks.%d' % i for i in range(len(tasks))] + ['sw']}

    def put(self, sp, a, v):
        if a == 'vl':
            a = 'path'
        if a in ('swcc', 'path', 'impl'):
            sp[a] = v
        else:
            sp['kw'][a] = v

    def apply(self, o, sp, a, v):
        if a == 'vl':
            o.stp.vl[:] = [x[1] for x in v]
        elif a == 'path':
            o.stp = path_of(v)
        elif a == 'swcc':
            for n, x in zip(SWCC, v):
                setattr(o.SimpleSWCC, n, x)
        elif a == 'impl':
            o.implementation = v
        elif a == 'initial_stress' and v:
            o.initial_stress = tuple(np.array(x, float) for x in v)
        else:
            setattr(o, a, v)

    # ---------------------------------------------------------------- execution
    def execute(self, plan):
        run = core.Run()
        refs.quiet()
        log = run.log
        nobj = len(plan['objs'])
        cur = [json.loads(json.dumps(o)) for o in plan['objs']]
        done = [None] * nobj
        total = 0
        for ops in plan['tasks']:
            for op in ops:
                i = op['o']
                if op['k'] == 'edit':
                    for a, v in op['e']:
                        self.put(cur[i], a, v)
                    done[i] = None
                    continue
                if op['k'] in ('run', 'interrupt'):
                    op['sp'] = json.loads(json.dumps(cur[i]))
                    done[i] = [] if op['k'] == 'run' else None
                    r = reference(op['sp'])
                elif op['k'] in ('comp', 'wperm', 'aperm'):
                    if done[i] is None or 'path' in cur[i]:
                        op['skip'] = True
                        continue
                    done[i] = [x for x in done[i] if x[0] != op['k']] + [[op['k'], op['a']]]
                    op['sp'] = json.loads(json.dumps(cur[i]))
                    r = reference(op['sp'], done[i])
                elif op['k'].startswith('stop'):
                    if done[i] is None or 'path' in cur[i]:
                        op['skip'] = True
                        continue
                    op['sp'] = json.loads(json.dumps(cur[i]))
                    done[i] = [x for x in done[i] if x[0] != op['k'][5:]]
                    r = reference(op['sp'], [[op['k'][5:], op['a']]])
                else:
                    if op['k'] in ('scribble', 'fail'):
                        if op['k'] == 'scribble':
                            done[i] = None
                    continue
                op['ref'] = r
                total += r['steps']
        threads = len(plan['tasks']) > 1
        if threads and total > 800000:
            plan['noext'] = False     # pure Python would take too long
        if plan['heap'] is not None:
            heap.dirty(plan['heap'])
            run.fault('free memory filled with a pattern')
        loads = c09.Loads(run, {'fail': {k: {'mode': 'always' if plan['noext'] else 'never',
                                             'exc': 0} for k in c09.EXT}})
        loads.install()
        corpus.resolve(EPUS + ':EPUS')
        pool = {}
        objs = []
        edits_swcc = any(a == 'swcc' for ops in plan['tasks'] for op in ops
                         if op['k'] == 'edit' for a, _ in op['e'])
        for sp in plan['objs']:
            if not plan['share'] or edits_swcc:
                objs.append(build_epus(sp) if 'path' in sp else build_prof(sp))
                continue
            s = pool.setdefault(json.dumps(sp['swcc']), swcc_of(sp['swcc']))
            if 'path' in sp:
                objs.append(build_epus(sp, swcc=s))
            else:
                k = json.dumps([sp['swcc'], sp['ekw']], sort_keys=True)
                if k not in pool:
                    pool[k] = cls('EPUS')(SimpleSWCC=s, stp=path_of([[True, 20, 5]]),
                                          **sp['ekw'])
                objs.append(build_prof(sp, pool[k]))
        state = [{'last': '', 'held': None} for _ in objs]
        # with several threads the line count of the real engines is not known beforehand:
        # compiled runs are much shorter than the references
        live = {'n': 0}

        def result(i):
            o = objs[i]
            if 'path' in plan['objs'][i]:
                return epus_results(o)
            return prof_results(o, [v for v in o.profile._attr])

        def others(i, what):
            if threads:
                return
            for j, s in enumerate(state):
                if j != i and s['held'] is not None:
                    w = numbers(result(j), s['held'])
                    if w:
                        run.bad('other object changed', 'object %d changed by %s of object %d: '
                                '%s' % (j, what, i, w))

        def guard(i, sp):
            """The inputs are still those that were set."""
            o = objs[i]
            if 'path' in sp:
                bad = [k for k, v in sp['kw'].items() if getattr(o, k) != v]
                bad += [n for n, v in zip(SWCC, sp['swcc']) if getattr(o.SimpleSWCC, n) != v]
                bad += ['stp.vl'] * (list(o.stp.vl) != [x[1] for x in sp['path']])
                bad += ['stp.npp'] * (list(o.stp.npp) != [x[2] for x in sp['path']])
                bad += ['stp.ist'] * (list(o.stp.ist) != [bool(x[0]) for x in sp['path']])
            else:
                bad = [k for k, v in sp['kw'].items()
                       if k != 'initial_stress' and getattr(o, k) != v]
                bad += [k for k, v in sp['ekw'].items() if getattr(o.epus_object, k) != v]
                bad += [n for n, v in zip(SWCC, sp['swcc'])
                        if getattr(o.epus_object.SimpleSWCC, n) != v]
                if sp['kw'].get('initial_stress') and corpus.same(
                        corpus.canon(list(o.initial_stress)),
                        corpus.canon([np.array(x, float) for x in sp['kw']['initial_stress']])):
                    bad.append('initial_stress')
            if bad:
                run.bad('input changed', 'an analysis changed its input %s' % ', '.join(bad))

        def compare(i, op, what, names=None):
            want = op['ref']['out'][1]
            if names is not None:
                want = {k: v for k, v in want.items() if k in names + ('niter',)}
            got = result(i)
            w = numbers(got, want)
            if w:
                run.bad('different result', '%s (object %d, %s%s): %s; here / a new object in '
                        'a fresh process, pure Python' % (
                            what, i, op['sp'].get('impl', 'profile'),
                            ', no compiled engine' if plan['noext'] else '', w))
            state[i]['held'] = got

        def stop(fn, at, steps):
            def go():
                with np.errstate(all='ignore'):
                    fn()
            hit = refs.stop(go, 1 + int(at * steps))
            if hit:
                run.fault('interrupted at a line')
            return bool(hit)

        def steps_here(op):
            """Lines the run will take: few when the compiled engine does the work."""
            fast = not plan['noext'] and op['sp'].get('impl') != 'scalar'
            return min(op['ref']['steps'], 60 * (1 + 40 * ('path' not in op['sp']))) \
                if fast else op['ref']['steps']

        def fails(i, op):
            """The pure Python engine failed: so must this one."""
            o = objs[i]
            try:
                with np.errstate(all='ignore'):
                    (o.Calresults if 'path' in op['sp'] else o.calc)()
            except Exception as e:
                log.append('fails: %s' % type(e).__name__)
                return
            run.bad('different result', 'object %d (%s): a result here, but a new object in a '
                    'fresh process with the pure Python engine raised %s' % (
                        i, op['sp'].get('impl', 'profile'), op['ref']['out'][1:]))

        def body(ti, ops):
            def go():
                for op in ops:
                    i, k = op['o'], op['k']
                    o = objs[i]
                    kind = 'epus' if 'path' in plan['objs'][i] else 'profile'
                    run.states.append('%s/%s/%s/%s' % (
                        kind, k, state[i]['last'], plan['noext']))
                    if op.get('skip') or (k not in ('run', 'interrupt') and 'ref' in op and
                                          op['ref']['out'][0] == 'exc'):
                        continue
                    state[i]['last'] = k
                    run.ops += 1
                    log.append('%d %s %d' % (ti, k, i))
                    if k == 'edit':
                        for a, v in op['e']:
                            self.apply(o, None, a, v)
                        state[i]['held'] = None
                    elif k == 'run':
                        if op['ref']['out'][0] == 'exc':
                            return fails(i, op)
                        with np.errstate(all='ignore'):
                            (o.Calresults if kind == 'epus' else o.calc)()
                        compare(i, op, 'results')
                        guard(i, op['sp'])
                        others(i, 'a run')
                    elif k == 'interrupt':
                        h = stop(o.Calresults if kind == 'epus' else o.calc, op['at'],
                                 steps_here(op))
                        log.append('interrupted %s' % h)
                        state[i]['held'] = None
                        guard(i, op['sp'])
                        others(i, 'an interrupted run')
                    elif k in ('comp', 'wperm', 'aperm'):
                        with np.errstate(all='ignore'):
                            extras(o, [[k, op['a']]])
                        compare(i, op, 'results after %s' % k)
                        guard(i, op['sp'])
                        others(i, k)
                    elif k.startswith('stop'):
                        h = stop(lambda: extras(o, [[k[5:], op['a']]]), op['at'],
                                 steps_here(op))
                        log.append('interrupted %s' % h)
                        compare(i, op, 'the profile after interrupted %s' % k[5:], BASE)
                        state[i]['held'] = None
                    elif k == 'fail':
                        self.fail(run, op, plan)
                        others(-1, 'a failing calculation')
                    elif k == 'scribble':
                        n = 0
                        for d in ([o.profile] if kind == 'profile' and hasattr(o, 'profile')
                                  else o.stp.datapoints if kind == 'epus' else []):
                            for v in d._attr:
                                n += corpus.scribble(getattr(d, v))
                        run.fault('caller overwrites results', n)
                        state[i]['held'] = None
                        others(i, 'overwriting results')
                    elif k == 'show':
                        self.show(run, i, o, kind)
            return go
        if threads:
            # the number of steps of the real run: the references count pure Python
            total = sum(steps_here(op) for ops in plan['tasks'] for op in ops if 'ref' in op)
            switches = [[1 + int(f * total), t] for f, t in plan['sw']]
            s = sched.Sched(switches, max_steps=40000000, trace_files=refs.TRACE)
            for ti, ops in enumerate(plan['tasks']):
                s.spawn('t%d' % ti, body(ti, ops), trace=True)
            s.run()
            run.steps += s.step
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
            for st, a, b in s.preemptions:
                run.fault('thread switch')
                run.states.append('switch %s' % (st * 50 // max(1, total)))
                log.append('switch %d %d %d' % (st, a, b))
        else:
            for ti, ops in enumerate(plan['tasks']):
                body(ti, ops)()
                run.steps += total
        run.nontrivial = run.ops > 1
        return run

    def fail(self, run, op, plan):
        """Some other calculation fails, through a bad parameter or a failing curve."""
        try:
            sp = op['s']
            e = build_epus(sp)
            if op['n'] % 2:
                n = [0]
                real = e.SimpleSWCC

                class Curve(type(real)):
                    def __getattribute__(self, name):
                        n[0] += 1
                        if n[0] >= op['n']:
                            raise Failed()
                        return getattr(real, name)
                e.SimpleSWCC = Curve.__new__(Curve)
            else:
                setattr(e, op['a'], op['v'])
            with np.errstate(all='ignore'):
                e.Calresults()
        except Failed:
            run.fault('failing calculation')
        except Exception:
            run.fault('failing calculation')

    def show(self, run, i, o, kind):
        """Plot and save: the profile stays, the file holds it."""
        if kind == 'epus':
            if o.stp.nsteps > 1:
                before = epus_results(o)
                o.stp.combine_datapoints()
                c = o.stp.datapoints_combined
                for v in COLS:
                    flat = np.concatenate([getattr(d, v) for d in o.stp.datapoints])
                    if not np.array_equal(flat, getattr(c, v), equal_nan=True):
                        run.bad('different result', 'combined %s is not that of the steps' % v)
                w = numbers(epus_results(o), before)
                if w:
                    run.bad('other object changed', 'combining results changed them: ' + w)
            return
        if not hasattr(o, 'profile'):
            return
        import matplotlib.pyplot as plt
        names = list(o.profile._attr)
        before = prof_results(o, names)
        try:
            o.plot_profile()
        finally:
            plt.close('all')
        p = os.path.join(core.scratch(), 'profile.csv')
        o.save_profile_to_file(p)
        with open(p) as f:
            head = f.readline().strip().split(',')
            rows = [[float(x) for x in ln.split(',')] for ln in f]
        if head != names:
            run.bad('wrong file', 'columns %s of a profile with %s' % (head, names))
        want = np.column_stack([getattr(o.profile, v) for v in names])
        if not np.allclose(np.array(rows), want, rtol=1e-4, atol=1e-9, equal_nan=True):
            run.bad('wrong file', 'the saved profile is not the one in memory')
        w = numbers(prof_results(o, names), before)
        if w or list(o.profile._attr) != names:
            run.bad('other object changed', 'plotting and saving changed the profile: %s' % w)

    def shrink(self, plan):
        yield from core.generic_shrink(plan)
        if plan['heap'] is not None:
            yield dict(plan, heap=None)
        if plan['noext']:
            yield dict(plan, noext=False)
        if plan['share']:
            yield dict(plan, share=False)

    def sample(self, plan):
        return {'objects': ['epus' if 'path' in o else 'profile' for o in plan['objs']],
                'tasks': [[(op['k'], op['o']) for op in ops] for ops in plan['tasks']],
                'switches': plan['sw'], 'compiled engine missing': plan['noext']}
