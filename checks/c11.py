"""C11: a failing or re-entrant user function is the only thing that fails."""
import importlib
import json
import os
import sys

import numpy as np

from sim import build, core, corpus, refs, sched
from sim.corpus import CALLBACKS, C, CB, FN


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


EXCS = {'Boom': lambda: Boom('user', 1), 'KeyboardInterrupt': lambda: KeyboardInterrupt('user'),
        'Halt': lambda: Halt('user'), 'ValueError': lambda: ValueError('user'),
        'TypeError': lambda: TypeError('user'), 'IndexError': lambda: IndexError('user'),
        'KeyError': lambda: KeyError('user'), 'AttributeError': lambda: AttributeError('user'),
        'ZeroDivisionError': lambda: ZeroDivisionError('user'),
        'FloatingPointError': lambda: FloatingPointError('user'),
        'OverflowError': lambda: OverflowError('user'), 'MemoryError': lambda: MemoryError('user'),
        'RuntimeError': lambda: RuntimeError('user'), 'ImportError': lambda: ImportError('user'),
        'AssertionError': lambda: AssertionError('user'), 'StopIteration': lambda: StopIteration(7),
        'SystemExit': lambda: SystemExit(3), 'NameError': lambda: NameError('user'),
        'LinAlgError': lambda: np.linalg.LinAlgError('user')}


# ------------------------------------------------------------------ objects made from functions
def o_talbot(f, n, vec, shift=0.0):
    from geotecha.mathematics.laplace import Talbot
    return Talbot(f, n=n, vectorized=vec, shift=shift)


def o_plot(f, module, base, method):
    """A user's own material model, drawn."""
    import matplotlib.figure
    cls = getattr(importlib.import_module('geotecha.constitutive_models.' + module), base)
    mine = type('Mine', (cls,), {method: lambda self, **kw: f(**kw)})
    model = mine()

    def draw(n):
        ax = matplotlib.figure.Figure().add_subplot(111)
        for i in range(3):
            model.plot_model(ax=ax, n=n + i)
        return [np.asarray(ln.get_xydata()) for ln in ax.get_lines()]
    return draw


def o_velocity(f, g):
    """A user's own flow law that uses the methods of the base class."""
    from geotecha.constitutive_models.velocity_hydraulic_gradient import DarcyFlowModel

    class Mine(DarcyFlowModel):
        def v_from_i(self, hyd_grad, **kw):
            return f(DarcyFlowModel.v_from_i(self, hyd_grad, **kw))

        def i_from_v(self, velocity, **kw):
            return g(DarcyFlowModel.i_from_v(self, velocity, **kw))
    m = Mine(k=2.5)
    return lambda npts: m.v_and_i_for_plotting(npts=npts)


def o_real(f, which):
    import geotecha.mathematics.fourier as F
    fn = getattr(F, which)
    return lambda x: [fn(x, f), fn(2 * x, F.real_func, f), fn(3 * x, f)]


def o_mptalbot(f, n):
    from geotecha.mathematics.mp_laplace import Talbot
    t = Talbot(f, n=n)
    return lambda *a, **k: [float(v) for v in np.atleast_1d(t(*a, **k))]


def o_hankel(f, order, m, shanks, points):
    from geotecha.mathematics.hankel import HankelTransform
    return HankelTransform(f, order=order, m=m, ng=10, ng0=15, shanks_ind=shanks, points=points)


def o_fourier(f, b, opts):
    from geotecha.mathematics.fourier import FourierTransform
    return FourierTransform(f, b=b, **{k: True for k in opts})


def o_soil(f, g, h):
    from geotecha.constitutive_models.void_ratio_stress import FunctionSoilModel
    m = FunctionSoilModel(f, g, h, b=3.0)
    return lambda s: (m.e_from_stress(s), m.stress_from_e(s), m.av_from_stress(s))


def o_perm(f, g):
    from geotecha.constitutive_models.void_ratio_permeability import FunctionPermeabilityModel
    m = FunctionPermeabilityModel(f, g, b=3.0)
    return lambda s: (m.e_from_k(s), m.k_from_e(s), m.k_from_e(2 * s))


OBJS = {
    'talbot': [(o_talbot, ['lap'], [18, True], [[0.7], [[0.7, 1.4]], [1.1]], [(1.5,), ()]),
               (o_talbot, ['lap_cplx'], [14, False], [[0.7], [[0.7, 1.4]]], [(1.5,), ()])],
    'mptalbot': [(o_mptalbot, ['lap'], [12], [[0.7], [[0.7, 1.4]]], [(1.5,), ()])],
    'hankel': [(o_hankel, ['hankel'], [0, 6, None, None], [[0.5], [1.5], [2.0]], None),
               (o_hankel, ['hankel'], [1, 8, -3, [0.5]], [[0.5], [1.5], [1.1]], None)],
    'fourier': [(o_fourier, ['gauss'], [4.0, ['func_is_real', 'real_part_even']],
                 [[0.5], [1.5]], None),
                (o_fourier, ['gauss'], [4.0, ['func_is_real']], [[0.5], [1.5]], None),
                (o_fourier, ['gauss'], [4.0, []], [[0.5], [1.5]], None),
                (o_fourier, ['gauss'], [np.inf, ['func_is_real', 'real_part_even']],
                 [[0.5], [1.5]], None)],
    'fourier kinds': [
        (o_fourier, ['cplx'], [4.0, [k] + j], [[0.5], [1.5]], None)
        for k, j in (('real_part_even', ['inv']), ('real_part_odd', []),
                     ('imag_part_even', []), ('inv', []))] + [
        (o_fourier, ['gauss'], [3.0, o], [[0.5], [1.5]], None)
        for o in (['func_is_imag'], ['func_is_imag', 'imag_part_odd'],
                  ['func_is_imag', 'imag_part_even'], ['func_is_real', 'real_part_odd', 'inv'])],
    'talbot shift': [(o_talbot, ['lap'], [20, True, 0.2], [[0.7], [[0.7, 1.4]]], [(1.5,), ()]),
                     (o_talbot, ['lap_cplx'], [9, False, 0.1], [[0.7], [[0.7, 1.4]]], [(1.5,)])],
    'own model': [(o_plot, ['curve'], list(m), [[3], [5]], None) for m in (
        ('void_ratio_stress', 'OneDimensionalVoidRatioEffectiveStress',
         'e_and_stress_for_plotting'),
        ('void_ratio_permeability', 'PermeabilityVoidRatioRelationship', 'e_and_k_for_plotting'),
        ('swcc', 'SWCC', 'psi_and_w_for_plotting'),
        ('velocity_hydraulic_gradient', 'OneDimensionalFlowRelationship',
         'v_and_i_for_plotting'))],
    'own flow law': [(o_velocity, ['twice', 'twice'], [], [[7], [4]], None)],
    'part of a function': [(o_real, ['cplx'], [w], [[0.3], [[0.3, 1.2]]], None) for w in (
        'real_func', 'imag_func', 'func_mirror_for_even_weight', 'func_mirror_for_odd_weight')],
    'soil': [(o_soil, ['efs', 'sfe', 'afs'], [], [[2.0], [3.0]], None)],
    'perm': [(o_perm, ['efs', 'sfe'], [], [[2.0], [3.0]], None)],
}


def hand():
    A = np.array
    q = 'mathematics.quadrature:'
    return [
        C(q + 'gk_quad', CB('osc'), A([0.0, 0.5, 1.0]), A([0.5, 1.0, 4.0]), n=15),
        C(q + 'gl_quad', CB('osc'), A([0.0, 0.5, 1.0]), A([0.5, 1.0, 4.0]), n=9,
          sum_intervals=True),
        C(q + 'gl_quad', CB('osc'), A([0.0, 0.5, 1.0, 2.0, 3.0]), A([0.5, 1.0, 2.0, 3.0, 4.0]),
          n=7, shanks_ind=1),
        C(q + 'gk_quad', CB('poly'), 0.0, 2.0, (1.5,), n=10),
        C('mathematics.root_finding:find_n_roots', CB('sin'), n=4, x0=0.1, dx=0.1, p=1.02),
        C('mathematics.root_finding:fixed_point_no_accel', CB('fixed'), 1.2, (10.0, 3.0)),
        C('mathematics.hankel:vhankel_transform', CB('hankel'), A([0.5, 1.5]), m=6, ng=8,
          shanks_ind=-3),
        C('mathematics.fourier:sine_transform', CB('decay'), 1.5, (2.0,), 0.0, 2.0),
        C('mathematics.fourier:v2dcosine_transform', CB('gauss2'), A([0.5, 1.5]), A([0.7, 1.2]),
          m=4, ng=5),
        C('mathematics.fourier:vcosine_transform', CB('gauss'), A([0.5, 1.5, 2.0]), m=8, ng=6,
          shanks_ind=-4),
        C('mathematics.fourier:cosine_transform', CB('gauss'), 1.5, (), 0.0, 2.0),
        C('mathematics.multi_transform:ntransform', CB('two'), ['Hankel', 'Fourier'],
          (1.1, 1.2), (1.8, 2.2), [{'m': 3, 'ng': 7, 'ng0': 10},
                                  {'func_is_real': True, 'real_part_even': True, 'b': 3}]),
        C('consolidation.smear_zones:non_darcy_drain_eta', 1.0, 10.0, 10.0, CB('nd'), 20.0,
          nflow=1.3),
        C('consolidation.smear_zones:back_calc_drain_spacing_from_eta', 5.0, 't', CB('mu'), 0.05,
          2.0, 3.0),
    ]


def cb_cplx(x, *a):
    x = np.asarray(x, dtype=float)
    return np.exp(-x ** 2) * (1 + x + 1j * (0.5 - 0.3 * x))


def cb_curve(n=3, **kw):
    return np.linspace(0, 1, n), np.linspace(1, 2, n) ** 2


def cb_twice(x):
    return 2 * x


CALLBACKS['cplx'] = cb_cplx
CALLBACKS['curve'] = cb_curve
CALLBACKS['twice'] = cb_twice


def cb_nd(n, *a, **k):
    return 0.4 + 0.1 * np.log(n)


CALLBACKS['nd'] = cb_nd


def has_cb(case):
    return '{"cb": ' in json.dumps(case)


def fcases():
    out = [c for c in hand() + corpus.cases() if has_cb(c)]
    for c in corpus.cases():
        if '"fn"' in json.dumps(c) and 'smear_zones' in c['call']:
            out.append(c)
    return out


class Hook:
    """A user function under the simulator's control."""

    def __init__(self, on_call):
        self.on_call = on_call

    def wrap(self, f):
        def user(*a, **k):
            return self.on_call(f, a, k)
        user.__name__ = getattr(f, '__name__', 'user')
        return user


def targets():
    """[(name, make(wrap) -> callable, [args,...])]"""
    out = []
    for c in fcases():
        def make(wrap, c=c):
            f, a, k = corpus.prepare(wrapped(c), wrap=wrap)
            return lambda: f(*a, **k)
        out.append((corpus.name_of(c), make, [()], json.dumps(c, sort_keys=True)))
    for n in sorted(OBJS):
        for i, (mk, cbs, pars, args, more) in enumerate(OBJS[n]):
            def make(wrap, mk=mk, cbs=cbs, pars=pars):
                return mk(*[wrap(CALLBACKS[c]) for c in cbs], *pars)
            calls = []
            for a in args:
                a = tuple(np.array(v) if isinstance(v, list) else v for v in a)
                for x in (more or [None]):
                    calls.append((a, {} if x is None else {'args': x}))
            out.append(('object %s' % n, make, calls, 'obj/%s/%d' % (n, i)))
    return out


def wrapped(c):
    """Functions of the repository passed as user functions are hooked as well."""
    def w(e):
        if isinstance(e, dict):
            if 'fn' in e:
                name = e['fn']
                if name not in CALLBACKS:
                    CALLBACKS[name] = corpus.resolve(name)
                return {'cb': name}
            return {k: w(v) for k, v in e.items()}
        if isinstance(e, list):
            return [w(v) for v in e]
        return e
    return dict(c, args=[w(v) for v in c['args']], kw={k: w(v) for k, v in c['kw'].items()})


def run_call(fn, call):
    if call == ():
        return corpus.outcome(fn, (), {})
    return corpus.outcome(fn, call[0], call[1])


class CHECK(core.Check):
    prop = 'C11'
    need_ext = False
    run_timeout = 100
    died_is_violation = True
    quick = (4500, 90)
    thorough = (150000, 1200)
    rule = ('event logs (calls, where a user function failed or called back, outcomes, '
            'preemptions) that differ from one another; a state is a (routine, failure kind, '
            'position of the failing call)')
    real = ['all routines that take user functions (root finding, quadrature, Laplace, Fourier '
            'and Hankel transforms, their nesting, smear zone back-calculation, function based '
            'soil models)', 'numpy', 'scipy', 'mpmath']
    stub = ['the user functions', 'thread scheduling']
    assumptions = ['a user function fails by raising; it does not modify the arrays it is given',
                   'a function that scipy\'s odeint calls does not call odeint itself']

    def prepare(self, tier, seed):
        core.drop_scratch()
        core.scratch()
        sched.install_locks(build.REPO)
        corpus.preload()
        self.targets = targets()
        self.refs = {}
        use = [i for i, t in enumerate(self.targets)
               if all(self.ref(i, j).get('n') for j in range(len(t[2])))]
        self.targets = [self.targets[i] for i in use]
        self.refs = {}

    def ref(self, ti, ci):
        name, make, calls, key = self.targets[ti]

        def compute():
            refs.quiet()
            n = [0]

            def on(f, a, k):
                n[0] += 1
                return f(*a, **k)
            fn = make(Hook(on).wrap)
            o, steps = refs._lines(lambda: run_call(fn, calls[ci]))
            return {'out': o[:2] if o[0] == 'ok' else [o[0], o[1], str(o[2])], 'n': n[0],
                    'steps': steps}
        if (ti, ci) not in self.refs:
            self.refs[ti, ci] = refs._cached('c11 %s %d' % (key, ci), compute, 60)
        return self.refs[ti, ci]

    def generate(self, rng, index, tier):
        first = (index * 7) % len(self.targets) if index < 2 * len(self.targets) else \
            rng.randrange(len(self.targets))
        name = self.targets[first][0]
        tasks = []
        for t in range(rng.choice([1, 1, 1, 2, 2, 3])):
            ti = first if t == 0 or rng.random() < 0.6 else rng.choice(
                [i for i, x in enumerate(self.targets) if x[0] == name]
                if rng.random() < 0.5 else range(len(self.targets)))
            ops = []
            for _ in range(rng.randint(1, 4)):
                op = {'c': rng.randrange(len(self.targets[ti][2]))}
                r = rng.random()
                if r < 0.55:
                    op.update(k='fail', at=rng.choice([0.0, 0.999999, round(rng.random(), 6)]),
                              exc=rng.choice(sorted(EXCS)))
                elif r < 0.85:
                    op.update(k='reenter', at=rng.choice([0.0, 0.999999, round(rng.random(), 6)]),
                              c2=rng.randrange(len(self.targets[ti][2])),
                              depth=rng.choice([1, 1, 2, 3]), same=rng.random() < 0.6,
                              fail=rng.choice([None, None, rng.choice(sorted(EXCS))]),
                              other=rng.randrange(len(self.targets))
                              if rng.random() < 0.25 else None)
                else:
                    op.update(k='plain')
                ops.append(op)
            ops.append({'k': 'plain', 'c': rng.randrange(len(self.targets[ti][2]))})
            tasks.append({'t': ti, 'keep': rng.random() < 0.8, 'ops': ops})
        sw = []
        if len(tasks) > 1:
            sw = sorted([round(rng.random(), 6), rng.randrange(4)]
                        for _ in range(rng.choice([0, 1, 2, 3, 5, 8])))
        return {'tasks': tasks, 'sw': sw, '_shrink': ['tasks', 'tasks.0.ops', 'tasks.1.ops',
                                                      'tasks.2.ops', 'sw']}

    def execute(self, plan):
        run = core.Run()
        refs.quiet()
        log = run.log
        total = 0
        for t in plan['tasks']:
            for op in t['ops']:
                total += self.ref(t['t'], op['c'])['steps'] * 2

        def judge(where, got, ref, name):
            w = corpus.agree(got, ref['out'])
            log.append('%s %s %s' % (where, name, got[0]))
            if w:
                run.bad('wrong result', '%s, %s: %s; undisturbed it %s' % (
                    name, where, w, corpus.brief(ref['out'])))

        def body(i, t):
            ti = t['t']
            name, make, calls, key = self.targets[ti]
            st = {'n': 0, 'plan': None, 'hit': None, 'level': 0}

            def on(f, a, k):
                st['n'] += 1
                p = st['plan']
                if p and st['n'] == p['when'] and st['hit'] is None:
                    st['hit'] = True
                    if p['k'] == 'fail':
                        st['exc'] = EXCS[p['exc']]()
                        raise st['exc']
                    self.inner(run, judge, st, p, ti, name, make, calls)
                return f(*a, **k)
            hook = Hook(on)
            box = {}

            def obj():
                if not t['keep'] or 'fn' not in box:
                    box['fn'] = make(hook.wrap)
                return box['fn']

            def go():
                for op in t['ops']:
                    ref = self.ref(ti, op['c'])
                    if 'out' not in ref or ref['out'][0] != 'ok' or not ref['n']:
                        log.append('skip')
                        continue
                    fn = obj()
                    st.update(n=0, hit=None, exc=None, plan=None)
                    if op['k'] != 'plain':
                        st['plan'] = dict(op, when=1 + int(op['at'] * ref['n']), fn=fn)
                    run.ops += 1
                    try:
                        got = run_call(fn, calls[op['c']])
                    except BaseException as e:
                        got = ['exc', type(e).__name__, e]
                    st['plan'] = None
                    if op['k'] == 'fail':
                        run.states.append('%s/%s/%d' % (name, op['exc'], int(op['at'] * 8)))
                        if st['hit'] is None:
                            log.append('not reached')
                            judge('without failing', got, ref, name)
                            continue
                        run.fault('user function raises ' + op['exc'])
                        log.append('fail %s %s' % (op['exc'], got[0]))
                        if got[0] != 'exc':
                            run.bad('error lost', '%s returned %s although call %d of the user '
                                    'function raised %s' % (name, corpus.short(got[1]),
                                                            st['n'], op['exc']))
                        elif got[2] is not st['exc']:
                            run.bad('other error', '%s raised %r, not the %r its user function '
                                    'raised' % (name, got[2], st['exc']))
                    elif op['k'] == 'reenter':
                        judge('with a user function that calls it again' if st['hit'] else
                              'plain', got, ref, name)
                    else:
                        judge('called normally', got, ref, name)
            return go

        switches = [[1 + int(f * total), x] for f, x in plan['sw']]
        s = sched.Sched(switches, max_steps=8000000, trace_files=refs.TRACE)
        for i, t in enumerate(plan['tasks']):
            s.spawn('t%d' % i, body(i, t), trace=True)
        try:
            s.run()
        except sched.SimDeadlock as e:
            run.bad('lock left held', 'a call never returns: %s' % e)
        run.steps += s.step
        for t in s.tasks:
            if t.exc is not None:
                raise t.exc
        for st, a, b in s.preemptions:
            run.fault('thread switch')
            log.append('switch %d %d %d' % (st, a, b))
        return run

    def inner(self, run, judge, st, p, ti, name, make, calls):
        """The user function calls a routine itself."""
        tj = ti if p.get('other') is None else p['other']
        nm, mk, cl, _ = self.targets[tj]
        ci = p['c2'] if tj == ti else 0
        ref = self.ref(tj, ci)
        if 'out' not in ref or ref['out'][0] != 'ok' or not ref['n']:
            return
        run.fault('user function calls %s routine' % ('the same' if tj == ti else 'another'))
        level = [0]

        def on(f, a, k):
            level[0] += 1
            if level[0] < p['depth']:
                g = mk(Hook(on).wrap)
                judge('%d levels down' % level[0], run_call(g, cl[ci]), ref, nm)
            return f(*a, **k)
        if tj == ti and p['same'] and cl[0] != ():
            saved = dict(st)
            st['plan'] = None
            got = run_call(p['fn'], cl[ci])
            st.update(saved)
        else:
            if p['fail']:
                e = EXCS[p['fail']]()

                def bad(f, a, k):
                    raise e
                try:
                    run_call(mk(Hook(bad).wrap), cl[ci])
                except BaseException:
                    pass
                run.fault('user function fails in a nested call')
            got = run_call(mk(Hook(on).wrap), cl[ci])
        judge('called by the user function', got, ref, nm)

    def sample(self, plan):
        return {'tasks': [{'routine': self.targets[t['t']][0],
                           'ops': [{k: v for k, v in op.items()} for op in t['ops']]}
                          for t in plan['tasks']], 'switches': plan['sw']}
