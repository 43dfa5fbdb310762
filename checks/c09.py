"""C09: compiled extensions are an optimisation: losing them changes no result."""
import builtins
import importlib.abc
import json
import os
import sys

import numpy as np

from checks import c08
from sim import build, core, corpus, heap, refs

INTEG = 'geotecha.speccon.integrals'
EXT = {'integrals': 'geotecha.speccon.ext_integrals',
       'epus': 'geotecha.constitutive_models.epus_ext'}
DEPTH = {'pdim1sin_af_linear': 1, 'pdim1sin_abf_linear': 2, 'pdim1sin_D_aDf_linear': 1,
         'pdim1sin_ab_linear': 2, 'pdim1sin_abc_linear': 3, 'pdim1sin_D_aDb_linear': 2,
         'pdim1sin_DD_abDDf_linear': 2}
TIME = {'pEDload_linear': 0, 'pEload_linear': 0, 'pEDload_coslinear': 1,
        'pEload_coslinear': 1, 'pEload_sinlinear': 1}
STAGED = ('Speccon1dVR', 'Speccon1dVRW', 'Speccon1dVRC', 'Speccon1dUnsat')
RTOL = 1e-6


class Loads(importlib.abc.MetaPathFinder):
    """The seam: every attempt to load a compiled extension is numbered, and fails or not as
    the plan says.  Once loaded an extension stays loaded, as in a real process."""

    def __init__(self, run, plan):
        self.run, self.plan = run, plan
        self.n = {e: 0 for e in EXT.values()}
        self.inside = False
        self.real = builtins.__import__
        self.key = {v: k for k, v in EXT.items()}

    def install(self):
        sys.meta_path.insert(0, self)
        builtins.__import__ = self.imp

    def fails(self, name):
        f = self.plan['fail'][self.key[name]]
        n = self.n[name]
        self.n[name] += 1
        bad = f['mode'] == 'always' or (f['mode'] == 'first' and n < f['k'])
        self.run.log.append('load %s %d %s' % (self.key[name], n, 'fails' if bad else 'ok'))
        self.run.states.append('load %s %s %d' % (self.key[name], bad, min(n, 9)))
        if bad:
            self.run.fault('extension cannot be loaded')
            cls = ModuleNotFoundError if f['exc'] else ImportError
            raise cls('%s: cannot open shared object file' % name, name=name)

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.n and not self.inside:
            self.fails(fullname)
        return None

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        full = name
        if level and globals:
            pkg = globals.get('__package__') or ''
            pkg = pkg.rsplit('.', level - 1)[0] if level > 1 else pkg
            full = '%s.%s' % (pkg, name) if name else pkg
        want = [e for e in self.n if e not in sys.modules and
                (full == e or any('%s.%s' % (full, x) == e for x in (fromlist or ())))]
        for e in want:
            self.fails(e)
        old, self.inside = self.inside, self.inside or bool(want)
        try:
            return self.real(name, globals, locals, fromlist, level)
        finally:
            self.inside = old


# ------------------------------------------------------------------ calculations
def layout(rng, lo, hi, n):
    """Ascending positions, some doubled, no other two close together."""
    xs = [lo, hi]
    while len(xs) < n:
        x = round(rng.uniform(lo, hi), 3)
        if min(abs(x - q) for q in xs) > 0.03 * (hi - lo):
            xs.append(x)
    xs.sort()
    for i in range(1, len(xs)):
        if rng.random() < 0.2:
            xs[i] = xs[i - 1] if i + 1 < len(xs) else xs[i]
    return xs


def vals(rng, xs):
    if rng.random() < 0.2:
        return [rng.choice([0.5, 1.0, 2.0])] * len(xs)
    v = []
    for i, _ in enumerate(xs):
        v.append(v[-1] if v and rng.random() < 0.3 else
                 rng.choice([0.0, 1.0, 2.5, round(rng.uniform(0.1, 5), 3)]))
    return v


def integ_case(rng):
    A = corpus.enc
    if rng.random() < 0.5:
        f = rng.choice(sorted(DEPTH))
        xs = layout(rng, 0.0, 1.0, rng.randint(2, 4))
        args = [{'P': [xs, vals(rng, xs)]} for _ in range(DEPTH[f])]
        bc = rng.choice([0, 1])
        m = [np.pi * (i + 1 - 0.5 * bc) for i in range(rng.randint(1, 6))]
        args = [A(np.array(m))] + args
    else:
        f = rng.choice(sorted(TIME))
        xs = layout(rng, 0.0, 10.0, rng.randint(2, 5))
        eigs = sorted(rng.choice([0.5, 1.3, 2.0, 10.0, round(rng.uniform(0.05, 60), 3)])
                      for _ in range(rng.randint(1, 4)))
        tv = sorted(rng.choice([0.0, rng.choice(xs), round(rng.uniform(0, 12), 3)])
                    for _ in range(rng.randint(1, 5)))
        args = [{'P': [xs, vals(rng, xs)]}]
        if TIME[f]:
            args += list(rng.choice([(1.0, 0.3), (6.2, 0.0), (0.5, -1.0)]))
        args += [A(np.array(eigs)), A(np.array(tv)), rng.choice([1.0, 0.3, 2.0])]
    return {'k': 'integ', 'f': f, 'args': args}


def edit_deck(rng, prog):
    e = []
    if rng.random() < 0.4:
        e.append(['neig', rng.choice([3, 5, 9])])
    if rng.random() < 0.2:
        e.append(['dT', rng.choice([1.0, 3.0])])
    return e


def work(op, impl):
    """One calculation -> JSON outcome."""
    try:
        with np.errstate(all='ignore'):
            if op['k'] == 'integ':
                f = corpus.resolve('%s:%s' % (INTEG, op['f']))
                args = [corpus.dec(a) for a in op['args']]
                return ['ok', {'result': canon(f(*args, implementation=impl))}, None]
            if op['k'] == 'call':
                c = json.loads(json.dumps(op['c']))
                c['kw']['implementation'] = impl
                f, a, k = corpus.prepare(c)
                return ['ok', {'result': canon(f(*a, **k))}, None]
            if op['k'] == 'prog':
                o = c08.make(op['prog'], op['deck'])
                for a, v in op['edit']:
                    setattr(o, a, v)
                o.implementation = impl
                return c08.run_it(op['prog'], o, 'run')
            if op['k'] == 'epus':
                r = corpus.SCRIPTS['epus'](impl, *op['args'])
                return ['ok', {'%d %d' % (i, j): canon(v) for i, row in enumerate(r)
                               for j, v in enumerate(row)}, None]
            if op['k'] == 'profile':
                r = corpus.SCRIPTS['epus_profile'](*op['args'])
                return ['ok', {str(i): canon(v) for i, v in enumerate(r)}, None]
    except ImportError as e:
        return ['exc', 'ImportError', str(e)[:200]]
    except Exception as e:
        return ['exc', type(e).__name__, str(e)[:200]]
    raise ValueError(op['k'])


def canon(v):
    v = np.asarray(v)
    if v.dtype.kind == 'c' and not np.any(np.abs(v.imag) > 1e-9 * (1e-3 + np.abs(v).max())):
        v = v.real
    return corpus.canon(v.astype(complex if v.dtype.kind == 'c' else float))


def size(op):
    """Numbers below this are rounding errors of the terms that cancel."""
    if op['k'] != 'integ':
        return 0.0
    s = 1.0
    for a in op['args']:
        if isinstance(a, dict) and 'P' in a:
            s *= max(1.0, max(abs(v) for v in a['P'][1]))
    if op['f'] == 'pdim1sin_DD_abDDf_linear':
        s *= max(op['args'][0]['a']) ** 4
    return s * 1e-9


def differ(op, got, want):
    if got[0] == 'exc' or want[0] == 'exc':
        return c08.differ(got, want)
    floor = size(op)
    for a in sorted(want[1]):
        if a not in got[1]:
            return 'no %s' % a
        p, q = got[1][a], want[1][a]
        if floor and p[:1] == q[:1] == ['#a'] and p[1] == q[1] and all(
                not isinstance(x, (str, list)) and not isinstance(y, (str, list)) and
                abs(x - y) <= floor for x, y in zip(p[2], q[2])):
            continue
        w = c08.close(p, q)
        if w:
            return '%s: %s' % (a, w)
    return None


def ref(op):
    """The same calculation in a fresh process that never touches an extension."""
    def compute():
        refs.quiet()
        run = core.Run()
        Loads(run, {'fail': {k: {'mode': 'always', 'exc': 0} for k in EXT}}).install()
        return {'out': work(op, 'scalar' if op['k'] in ('epus', 'profile') else 'vectorized')}
    r = refs._cached('c09' + json.dumps(op, sort_keys=True), compute, 100)
    if 'out' not in r:
        raise RuntimeError('no reference: %s' % str(r)[:300])
    return r['out']


class CHECK(core.Check):
    prop = 'C09'
    need_ext = True
    run_timeout = 200
    died_is_violation = True
    quick = (1600, 60)
    thorough = (200000, 1200)
    rule = ('event logs (every attempt to load an extension with its outcome, every calculation '
            'and its outcome) that differ from one another; a state is (calculation, '
            'implementation, whether its extension is loaded)')
    real = ['the integrals in all three implementations, the four spectral programs, EPUS and '
            'EpusProfile, the compiled extensions built from the tree']
    stub = ['the import system at attempts to load a compiled extension (each fails or '
            'succeeds as the seed says)']
    assumptions = ['results agree to 6 digits of the largest number of each array, segments of '
                   'piecewise-linear data are not narrower than 3 % of the whole',
                   'an extension that was loaded once stays loaded']

    def prepare(self, tier, seed):
        import matplotlib.pyplot  # noqa
        import mpmath  # noqa
        import pandas  # noqa
        import scipy.integrate, scipy.linalg, scipy.optimize, scipy.special  # noqa
        import scipy.interpolate, sympy, testfixtures  # noqa
        for m in ('inputoutput.inputoutput', 'plotting.one_d', 'plotting.two_d',
                  'mathematics.transformations', 'mathematics.root_finding',
                  'mathematics.quadrature', 'mathematics.mp_laplace', 'mathematics.fourier',
                  'mathematics.hankel', 'mathematics.laplace',
                  'piecewise.piecewise_linear_1d', 'consolidation.smear_zones'):
            try:
                __import__('geotecha.' + m)
            except ImportError:
                pass
        for m in list(sys.modules):
            if m.startswith(('geotecha.speccon', 'geotecha.constitutive')):
                del sys.modules[m]
        core.drop_scratch()
        # bytecode of this tree, for this run of the check only
        sys.pycache_prefix = core.scratch()
        sys.dont_write_bytecode = False
        core.forked(lambda: [__import__('geotecha.' + m) for m in (
            'speccon.speccon1d_vr', 'speccon.speccon1d_vrw', 'speccon.speccon1d_vrc',
            'speccon.speccon1d_unsat', 'constitutive_models.epus')] and 1, 100)
        self.calls = [c for c in corpus.cases() if str(c.get('call', '')).startswith(INTEG) and
                      'implementation' in c['kw']]
        self.decks = [(p, i) for p in STAGED for i in range(len(c08.texts(p)))
                      if i not in c08.LONG.get(p, ())]
        self.mods = []
        top = os.path.join(build.REPO, 'geotecha')
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x not in ('test', 'tests', 'testing'))
            for f in sorted(files):
                if f.endswith('.py') and f != 'setup.py' and 'generate_code' not in f:
                    m = os.path.relpath(os.path.join(d, f), build.REPO)[:-3].replace(os.sep, '.')
                    self.mods.append(m[:-9] if m.endswith('.__init__') else m)

    def one(self, rng):
        r = rng.random()
        if r < 0.5:
            op = integ_case(rng)
        elif r < 0.58 and self.calls:
            op = {'k': 'call', 'c': rng.choice(self.calls)}
        elif r < 0.86:
            p, i = rng.choice(self.decks)
            op = {'k': 'prog', 'prog': p, 'deck': i, 'edit': edit_deck(rng, p)}
        elif r < 0.95:
            op = {'k': 'epus', 'args': [rng.choice([20, 30]), rng.choice([10, 15]),
                                        rng.choice([4, 6]), rng.choice([20.0, 60.0]),
                                        rng.choice([1, 2])]}
        else:
            op = {'k': 'profile', 'args': [rng.choice([0.0, 2.0, 4.0]), rng.choice([10, 50]),
                                           rng.choice([3, 4])]}
        op['impl'] = rng.choice(['fortran', 'fortran', 'fortran', 'vectorized', 'scalar'])
        return op

    def generate(self, rng, index, tier):
        def pat():
            m = rng.choice(['always', 'first', 'first', 'first', 'never'])
            return {'mode': m, 'k': rng.choice([1, 1, 2, 3, 5, 8, 20]), 'exc': rng.randrange(2)}
        ops = [self.one(rng) for _ in range(rng.randint(1, 5))]
        if rng.random() < 0.5:        # the same again, now that something may have changed
            ops.append(dict(rng.choice(ops), impl='fortran'))
        if rng.random() < 0.15:
            ops.insert(rng.randrange(len(ops) + 1), {'k': 'import', 'm': rng.choice(self.mods)})
        return {'ops': ops, 'fail': {k: pat() for k in EXT},
                'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.4 else None,
                '_shrink': ['ops']}

    def execute(self, plan):
        run = core.Run()
        want = [None if op['k'] == 'import' else
                ref({k: v for k, v in op.items() if k != 'impl'}) for op in plan['ops']]
        refs.quiet()
        if plan['heap'] is not None:
            heap.dirty(plan['heap'])
            run.fault('free memory filled with a pattern')
        loads = Loads(run, plan)
        loads.install()
        for i, op in enumerate(plan['ops']):
            run.ops += 1
            run.steps += 1
            if op['k'] == 'import':
                try:
                    __import__(op['m'])
                    run.log.append('import %s' % op['m'])
                except Exception as e:
                    run.bad('import fails', 'import %s: %r' % (op['m'], e))
                continue
            what = op.get('f') or op.get('prog') or op['k']
            if op['k'] == 'call':
                what = op['c']['call'].split(':')[1]
            got = work(op, op['impl'])
            state = ' '.join('%s=%s' % (k, e in sys.modules) for k, e in sorted(EXT.items()))
            run.states.append('%s %s %s' % (what, op['impl'], state))
            run.log.append('%s %s %s' % (what, op['impl'], got[0]))
            w = differ(op, got, want[i])
            if w:
                run.bad('different result', '%s with implementation=%r, operation %d, %s: %s; '
                        'without extensions in a fresh process / here' % (
                            what, op['impl'], i + 1, state, w))
        run.nontrivial = any(loads.n.values())
        return run

    def shrink(self, plan):
        yield from core.generic_shrink(plan)
        for k in EXT:
            for f in ({'mode': 'never', 'k': 1, 'exc': 0}, {'mode': 'always', 'k': 1, 'exc': 0}):
                if plan['fail'][k] != f:
                    yield dict(plan, fail=dict(plan['fail'], **{k: f}))
        if plan['heap'] is not None:
            yield dict(plan, heap=None)

    def sample(self, plan):
        return {'fail': plan['fail'], 'ops': [
            [op['k'], op.get('f') or op.get('prog') or op.get('m'), op.get('impl')]
            for op in plan['ops']]}
