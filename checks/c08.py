"""C08: running again, editing or interrupting an analysis is as good as a new one."""
import copy
import glob
import io
import json
import os
import sys

import numpy as np

from sim import build, core, corpus, heap, refs, sched

TRACE = refs.TRACE
SPEC = 'geotecha.speccon.speccon1d_'
PROGS = {
    'Speccon1dVR': (SPEC + 'vr', ['por', 'avp', 'set']),
    'Speccon1dVRW': (SPEC + 'vrw', ['por', 'porwell', 'avp', 'set']),
    'Speccon1dVRC': (SPEC + 'vrc', ['por', 'pors', 'porc', 'avp', 'avps', 'avpc', 'set']),
    'Speccon1dUnsat': (SPEC + 'unsat', ['porw', 'pora', 'avpw', 'avpa', 'set', 'setw', 'seta']),
    'SchiffmanAndStein1970': ('geotecha.consolidation.schiffmanandstein1970',
                              ['por', 'avp', 'set']),
    'NogamiAndLi2003': ('geotecha.consolidation.nogamiandli2003', ['por', 'avp', 'set']),
}
NOGAMI = ['''
h = np.array([1, 0.5, 1.0])
kv = np.array([1, 2.0, 1])
mv = np.array([1, 1, 1.5])
kh = np.array([1.0, 2.0, 1])
r0 = 0.05
r1 = 1.0
bctop = 0
bcbot = 1
nv = 4
nh = 3
z = np.linspace(0, 2.4, 6)
tpor = np.array([0.01, 0.1, 0.4])
t = np.array([0.05, 0.1, 0.7])
max_iter = 20000
vertical_roots_x0 = 2.2
vertical_roots_dx = 1e-3
vertical_roots_p = 1.01
surcharge_vs_time = PolyLine([0,0,10], [0,100,100])
''', '''
h = np.array([1, 0.5])
kv = np.array([1, 2.0])
mv = np.array([1, 1.5])
bctop = 0
bcbot = 0
nv = 5
z = np.linspace(0, 1.4, 6)
tpor = np.array([0.01, 0.1, 0.4])
t = np.array([0.05, 0.1, 0.7])
max_iter = 20000
vertical_roots_x0 = 1e-3
vertical_roots_dx = 1e-3
vertical_roots_p = 1.01
surcharge_vs_time = PolyLine([0,0,10], [0,100,100])
''']
SCHIFF = ['''
h = np.array([10, 20, 30.0])
mv = np.array([3.07e-3, 1.95e-3, 9.74e-4])
kv = np.array([0.0411, 0.1918, 0.0548])*mv
bctop = 0
bcbot = 1
n = 6
surcharge_vs_time = PolyLine([0,0,10], [0,100,100])
z = np.array([0, 5.0, 15, 40, 59])
tpor = np.array([740.0, 2930])
t = np.array([121.9, 161, 1000, 5000])
''']
# programs whose runs are method calls: constructor arguments, [(method, arguments), ...]
MODELS = {
    'YinAndGraham': 'geotecha.constitutive_models.void_ratio_stress:YinAndGrahamSoilModel',
    'SpecBeam': 'geotecha.beam_on_foundation.specbeam:SpecBeam',
    'DingEtAl2012': 'geotecha.beam_on_foundation.dingetal2012:DingEtAl2012',
}
PLAIN_EDITS = {
    'ppress_z': [None, [0.1, 0.4, 0.9], [0.2]],
    'avg_ppress_z_pairs': [None, [[0.0, 0.5]], [[0.0, 1.0], [0.2, 0.4]]],
    'settlement_z_pairs': [None, [[0.0, 0.5]], [[0.0, 1.0], [0.2, 0.4]]],
    'implementation': ['vectorized', 'fortran', 'scalar'],
    'neig': [3, 5, 9], 'drn': [0, 1], 'RLzero': [None, 5.0], 'title': [None, 'other title'],
    'H': [2.0, 5.0], 'dT': [1.0, 3.0],
}
LOADS = ('surcharge', 'vacuum', 'top', 'bot', 'atop', 'abot', 'wtop', 'wbot')
RTOL = 1e-6
# decks too long to run many times
LONG = {'Speccon1dVR': (18, 19, 20, 21, 22, 37), 'Speccon1dVRW': (20, 21, 22, 23, 36),
        'Speccon1dVRC': (21, 22, 23, 29), 'SchiffmanAndStein1970': (0,)}


class Failed(Exception):
    pass


# ------------------------------------------------------------------ inputs
def enc(x):
    if type(x).__name__ == 'PolyLine':
        return {'P': [np.asarray(x.x).tolist(), np.asarray(x.y).tolist()]}
    if isinstance(x, slice):
        return {'sl': [x.start, x.stop, x.step]}
    if isinstance(x, np.ndarray):
        return {'a': x.tolist(), 'd': str(x.dtype), 's': list(x.shape)}
    if isinstance(x, (list, tuple)):
        return {'l' if isinstance(x, list) else 't': [enc(v) for v in x]}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {'m': [[k, enc(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise TypeError(type(x))


def norm(x):
    """Value of an input up to the forms the checks of inputs may turn it into: arrays and
    lists, a single item and a list of it, nothing and a list of nothing."""
    if isinstance(x, np.ndarray):
        x = x.tolist()
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return ['#f', corpus._num(float(x))]
    if isinstance(x, (list, tuple)):
        v = [norm(q) for q in x]
        if all(q is None for q in v):
            return None
        return v[0] if len(v) == 1 else ['l', v]
    return corpus.canon(x)


def inputs_of(o):
    return {a: norm(getattr(o, a, None)) for a in o._attributes}


def changed_inputs(before, after):
    for a in sorted(before):
        if before[a] is None and after[a] is None:
            continue
        w = corpus.same(json.loads(json.dumps(after[a])), json.loads(json.dumps(before[a])),
                        1e-12)
        if w:
            return '%s: %s' % (a, w)
    return None


def deck_text(prog, i):
    return texts(prog)[i]


def texts(prog):
    return corpus.decks().get(prog, []) + {'NogamiAndLi2003': NOGAMI,
                                           'SchiffmanAndStein1970': SCHIFF}.get(prog, [])


def klass(prog):
    return corpus.resolve('%s:%s' % (PROGS[prog][0], prog))


def make(prog, deck):
    o = klass(prog)(deck_text(prog, deck))
    o.save_data_to_file = o.save_figures_to_file = o.show_figures = False
    if getattr(o, 'neig', None) and o.neig > 10:
        o.neig = 10
    return o


def apply_edit(o, e):
    """e: [[attribute, value, how], ...]"""
    for a, v, how in e:
        new = corpus.dec(v)
        if how == 'in place':
            old = getattr(o, a, None)
            if isinstance(old, np.ndarray) and isinstance(new, np.ndarray) and \
                    old.shape == new.shape and old.dtype == new.dtype:
                old[...] = new
                continue
            if isinstance(old, list) and isinstance(new, list):
                old[:] = new
                continue
            if isinstance(old, dict) and isinstance(new, dict):
                old.clear()
                old.update(new)
                continue
        setattr(o, a, new)


def tables(d):
    """Numbers and labels of the tables saved below a directory, by the end of their name."""
    out = {}
    for p in sorted(glob.glob(os.path.join(d, '**', '*'), recursive=True)):
        b = os.path.basename(p)
        if not p.endswith('.csv') or '_data_' not in b:
            continue
        rows = []
        for line in open(p):
            if 'date:' in line:
                continue
            row = []
            for tok in line.strip().split(','):
                try:
                    row.append(float(tok))
                except ValueError:
                    row.append(tok)
            rows.append(row)
        out[b[b.index('_data_'):]] = rows
    return out


def figures(o):
    out = []
    for f in getattr(o, '_figures', []):
        axes = []
        for ax in f.get_axes():
            axes.append([ax.get_xlabel(), ax.get_ylabel(),
                         [corpus.canon(np.asarray(ln.get_xydata(), dtype=float))
                          for ln in ax.get_lines()]])
        out.append([f.get_label(), axes])
    return out


def results(prog, o):
    return {a: corpus.canon(getattr(o, a)) for a in PROGS[prog][1]
            if getattr(o, a, None) is not None}


def run_it(prog, o, kind, where=None):
    """Run an analysis -> JSON outcome."""
    try:
        with np.errstate(all='ignore'):
            if kind == 'save':
                o.save_data_to_file = True
                o.directory = where
                try:
                    o.make_all()
                finally:
                    o.save_data_to_file = False
                    o.directory = None
                return ['ok', results(prog, o), tables(where)]
            o.make_all()
            if kind == 'plots':
                import matplotlib.pyplot as plt
                try:
                    o.produce_plots()
                    return ['ok', results(prog, o), figures(o)]
                finally:
                    plt.close('all')
            return ['ok', results(prog, o), None]
    except Exception as e:
        return ['exc', type(e).__name__, str(e)[:200]]


def differ(got, want):
    if got[0] != want[0] or (got[0] == 'exc' and got[1] != want[1]):
        return '%s / %s' % (brief(got), brief(want))
    if got[0] == 'exc':
        return None
    for a in sorted(want[1]):
        if a not in got[1]:
            return 'no %s' % a
        w = close(got[1][a], want[1][a])
        if w:
            return '%s: %s' % (a, w)
    if want[2] is not None:
        g, w = json.loads(json.dumps([got[2], want[2]]))
        w = compare(g, w)
        if w:
            return 'saved or plotted: ' + w
    return None


def close(a, b):
    if isinstance(a, list) and isinstance(b, list) and a[:1] == ['#a'] == b[:1]:
        if a[1] != b[1]:
            return 'shape %s / %s' % (a[1], b[1])
        nums = [abs(v) for v in a[2] + b[2] if not isinstance(v, str)]
        tol = RTOL * max(nums or [0.0]) + 1e-300
        for i, (p, q) in enumerate(zip(a[2], b[2])):
            if isinstance(p, str) or isinstance(q, str):
                if p != q:
                    return 'element %d: %s / %s' % (i, p, q)
            elif abs(p - q) > tol:
                return 'element %d: %r / %r' % (i, p, q)
        return None
    return corpus.same(json.loads(json.dumps(a)), json.loads(json.dumps(b)), RTOL)


def compare(a, b):
    """Tables and figures: numbers to 6 digits of the largest number of the table."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return 'tables %s / %s' % (sorted(a), sorted(b))
        for k in sorted(a):
            w = compare(a[k], b[k])
            if w:
                return '%s %s' % (k, w)
        return None
    scale = max([abs(v) for v in flat(b) if isinstance(v, (int, float)) and
                 np.isfinite(v)] or [1.0])
    fa, fb = list(flat(a)), list(flat(b))
    if len(fa) != len(fb):
        return '%d items / %d items' % (len(fa), len(fb))
    for p, q in zip(fa, fb):
        if isinstance(p, (int, float)) and isinstance(q, (int, float)) and \
                not isinstance(p, bool):
            if p != q and not (p != p and q != q) and not abs(p - q) <= RTOL * scale:
                return '%r / %r' % (p, q)
        elif p != q:
            return '%r / %r' % (p, q)
    return None


def flat(x):
    if isinstance(x, dict):
        for k in sorted(x):
            yield k
            yield from flat(x[k])
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from flat(v)
    else:
        yield x


def brief(o):
    return 'raised %s (%s)' % (o[1], o[2]) if o[0] == 'exc' else \
        'gave %s' % ', '.join(sorted(o[1]))


# ------------------------------------------------------------------ models
def make_model(prog, kw):
    args = {k: corpus.dec(v) for k, v in kw.items()}
    return corpus.resolve(MODELS[prog])(**args)


def run_model(prog, o, m, kw):
    try:
        with np.errstate(all='ignore'):
            args = {k: corpus.dec(v) for k, v in kw.items()}
            if prog == 'SpecBeam':
                o.runme()
                r = o.defl
            elif prog == 'DingEtAl2012':
                o.calulate_qk(**args)
                r = o.wofx(x_norm=0.5)
            else:
                r = getattr(o, m)(**args)
            return ['ok', {'result': corpus.canon(np.hstack([np.ravel(v) for v in r])
                                                  if isinstance(r, tuple) else r)}, None]
    except Exception as e:
        return ['exc', type(e).__name__, str(e)[:200]]


def model_plan(rng):
    prog = rng.choice(sorted(MODELS))
    A = corpus.enc
    if prog == 'YinAndGraham':
        kw = dict(lam=rng.choice([0.2, 0.15]), kap=0.04, psi=rng.choice([0.01, 0.02]), siga=20,
                  ea=1, ta=1.0, e0=rng.choice([0.95, 1.0]), estress0=18.0)
        t = A(np.array(rng.choice([[1e-4, 0.01, 1.0, 10.0, 100.0], [1e-3, 1.0, 20.0]])))
        n = len(t['a'])
        runs = []
        for _ in range(2):
            meth = rng.choice(['step', 'odeint'])
            runs.append(rng.choice([
                ('CRSS', {'tvals': t, 'estressdot': A(np.full(n, rng.choice([0.3, 0.1]))),
                          'dx': 20.0, 'min_segments': 3, 'method': meth}),
                ('CRSN', {'tvals': t, 'edot': A(np.full(n, rng.choice([-1e-4, -2e-4]))),
                          'dx': 20.0, 'min_segments': 3, 'method': meth})]))
    elif prog == 'SpecBeam':
        kw = dict(BC=rng.choice(['SS', 'CC']), nterms=rng.choice([4, 6]), E=6.998e9, I=1e-5,
                  rho=2373, L=8.0, A=1e-3, k1=5e5, mu=64.0,
                  tvals=A(np.linspace(0.01, 0.2, 4)), xvals=A(np.linspace(0.5, 7.5, 4)),
                  force_calc=True, k1bar={'P': [[0, 0.5, 1], [1, 1, rng.choice([1.5, 2.0])]]},
                  moving_loads_x_norm=A([[0.0]]), moving_loads_Fz_norm=A([[1.0e-4]]),
                  moving_loads_v_norm=A([rng.choice([0.01, 0.02])]),
                  moving_loads_L_norm=A([1.0]), moving_loads_t0_norm=A([0.0]),
                  moving_loads_x0_norm=A([0.0]), moving_loads_offset_norm=A([0.0]))
        runs = [('runme', {})]
    else:
        kw = dict(BC=rng.choice(['SS', 'CC', 'FF']), nterms=rng.choice([4, 6]), k3_norm=2.5,
                  v_norm=rng.choice([0.01, 0.02]), kf=0.02, Fz_norm=1e-4, mu_norm=3.9,
                  k1_norm=9.7, E=6.9e9, I=1e-5, rho=2373, L=8.0, A=1e-3, nquad=6)
        runs = [('q', {'t_norm': A(np.linspace(0, 4, rng.choice([4, 5])))}),
                ('q', {'t_norm': A(np.linspace(0, 3, 4))})]
    return prog, kw, runs


# ------------------------------------------------------------------ the check
class CHECK(core.Check):
    prop = 'C08'
    need_ext = True
    run_timeout = 150
    died_is_violation = True
    quick = (1400, 120)
    thorough = (200000, 1500)
    rule = ('event logs (operations on each object, edits, interruptions, preemptions, outcomes) '
            'that differ from one another; a state is (program, operation, operation before)')
    real = ['Speccon1dVR, VRW, VRC, Unsat, SchiffmanAndStein1970, NogamiAndLi2003, '
            'YinAndGrahamSoilModel, SpecBeam, DingEtAl2012 with numpy, scipy, pandas, matplotlib '
            'and the compiled integrals']
    stub = ['thread scheduling (one runs at a time, switches at lines of the repository chosen '
            'by the seed)', 'the moment of an interruption (a line chosen by the seed)']
    assumptions = ['numbers agree to 6 digits of the largest one of each table',
                   'attributes that the documentation lists as results are compared, not '
                   'intermediate arrays',
                   'an interruption happens between lines of the repository\'s Python code']

    def prepare(self, tier, seed):
        core.drop_scratch()
        core.scratch()
        sched.install_locks(build.REPO)
        corpus.preload()
        import matplotlib.pyplot  # noqa
        self.base = {}
        for p in sorted(PROGS):
            self.base[p] = []
            for i in range(len(texts(p))):
                if i in LONG.get(p, ()):
                    self.base[p].append(None)
                    continue
                o = make(p, i)
                ins = {}
                for a in o._attributes:
                    try:
                        ins[a] = enc(getattr(o, a, None))
                    except TypeError:
                        pass
                self.base[p].append(ins)

        # every input of every program, a few at a time
        self.sweeps = []
        for p in sorted(PROGS):
            left = sorted({a for b in self.base[p] if b for a in b if self.usable(b, a)})
            while left:
                decks = [j for j, b in enumerate(self.base[p]) if b]
                d = max(decks, key=lambda j: sum(self.usable(self.base[p][j], a) for a in left))
                now = [a for a in left if self.usable(self.base[p][d], a)]
                for i in range(0, len(now), 5):
                    self.sweeps.append([p, now[i:i + 5]])
                left = [a for a in left if a not in now]

    @staticmethod
    def usable(base, a):
        v = base.get(a)
        if a.endswith('_omega_phase') and base.get(a[:-12] + '_vs_time') is not None:
            return True
        if a == 'RLzero':
            return a in base
        if v is None or a.startswith(('save', 'show', 'plot', 'title', 'author', 'dir', 'fig',
                                      'over', 'prefix', 'create', 'data_ext', 'input_ext')):
            return False
        return any(True for _ in corpus.leaves(v)) or a == 'implementation' or \
            isinstance(v, dict) and 'sl' in v

    def sweep(self, rng, index):
        """Change inputs one at a time and back again, on one object or on its twin."""
        prog, attrs = self.sweeps[index % len(self.sweeps)]
        decks = [j for j, b in enumerate(self.base[prog])
                 if b and sum(self.usable(b, a) for a in attrs) * 2 >= len(attrs)]
        deck = rng.choice(decks)
        base = self.base[prog][deck]
        twin = index // len(self.sweeps) % 2
        ops = [{'k': 'run', 'o': 0}]
        for a in attrs:
            if not self.usable(base, a):
                continue
            v = base[a]
            if a == 'implementation':
                w = rng.choice(PLAIN_EDITS[a])
            elif a.endswith('_omega_phase'):
                t = base[a[:-12] + '_vs_time']
                w = {'l': [{'t': [rng.choice([1.3, 0.7]), 0.2]}] *
                     (len(t['l']) if 'l' in t else 1)}
            elif a == 'RLzero':
                ops += [{'k': 'save', 'o': twin}, {'k': 'edit', 'o': twin, 'e': [[a, 7.5, 'set']]},
                        {'k': 'save', 'o': twin}, {'k': 'edit', 'o': twin, 'e': [[a, v, 'set']]}]
                continue
            elif isinstance(v, dict) and 'sl' in v:
                w = {'sl': [1, None, None]}
            else:
                c = corpus.change(rng, {'args': [v], 'kw': {}}, ('args', 0))
                if c is None:
                    continue
                w = c['args'][0]
            how = rng.choice(['set', 'set', 'in place'])
            ops += [{'k': 'edit', 'o': twin, 'e': [[a, w, how]]}, {'k': 'run', 'o': twin},
                    {'k': 'run', 'o': 0}]
            ops += [{'k': 'edit', 'o': twin, 'e': [[a, v, how]]}, {'k': 'run', 'o': twin}]
        return {'objs': [[prog, deck]] * (1 + twin), 'tasks': [ops], 'sw': [],
                'share': False, 'heap': None, '_shrink': ['tasks.0']}

    # ---------------------------------------------------------------- plans
    def edit(self, rng, prog, cur):
        """One edit as a user would make it; cur: attribute -> encoded value."""
        r = rng.random()
        how = 'in place' if rng.random() < 0.3 else 'set'
        if r < 0.12:
            # everything of another deck
            other = rng.choice([b for b in self.base[prog] if b])
            return [[a, v, 'set'] for a, v in sorted(other.items())
                    if v != cur.get(a) and a not in ('plot_properties',)]
        if r < 0.42:
            c = [a for a in PLAIN_EDITS if a in cur and prog.startswith('Speccon')]
            if c:
                a = rng.choice(c)
                v = rng.choice(PLAIN_EDITS[a])
                if v == 'scalar':
                    return [['neig', 4, 'set'], [a, v, 'set']]
                return [[a, corpus.enc(np.array(v, dtype=float)) if isinstance(v, list) else v,
                         'set']]
        if r < 0.52:
            loads = [p for p in LOADS if cur.get(p + '_vs_time') is not None]
            if loads:
                p = rng.choice(loads)
                names = [a for a in (p + '_vs_time', p + '_vs_depth', p + '_omega_phase')
                         if a in cur]
                if rng.random() < 0.35:
                    return [[a, None, 'set'] for a in names]
                out = []
                for a in names:
                    v = cur[a]
                    if v is None:
                        out.append([a, None, 'set'])
                    else:
                        v = v['l'] if isinstance(v, dict) and 'l' in v else [v]
                        out.append([a, {'l': v + v}, how])
                # the user only edits what he gave
                return [e for e in out if e[1] is not None]
        if r < 0.6 and isinstance(cur.get('tvals'), dict) and 'a' in cur['tvals']:
            t = cur['tvals']
            n = max(2, len(t['a']) // 2)
            out = [['tvals', dict(t, a=t['a'][:n], s=[n]), 'set']]
            for a in sorted(cur):
                if a.endswith('tval_indexes'):
                    out.append([a, {'sl': [None, None, None]}, 'set'])
            return out
        if r < 0.68:
            return [['plot_properties', {'m': [['por', {'m': [['xlabel', 'mine']]}],
                                               ['set', {'m': [['ylabel', 'ours']]}]]}, how]]
        # one number somewhere
        for _ in range(10):
            a = rng.choice(sorted(cur))
            if a in ('implementation', 'max_iter', 'n', 'nv', 'nh', 'neig') or \
                    a.endswith('roots_x0') or a.endswith('roots_dx') or a.endswith('roots_p'):
                continue
            n = corpus.neighbour(rng, {'args': [cur[a]], 'kw': {}}, (0.9, 1.1, 1.02))
            if n is not None and not isinstance(cur[a], bool):
                return [[a, n['args'][0], how]]
        return [['title', 'a title', 'set']]

    def bad_edit(self, rng, prog, cur):
        """An input mistake and the edit that takes it back."""
        cands = [a for a in ('mv', 'kv', 'kh', 'tvals', 'surcharge_vs_depth', 'h', 'n', 'm2w',
                             'surcharge_vs_time', 'ppress_z', 'implementation', 'z', 'drn',
                             'neig', 'dT')
                 if cur.get(a) is not None]
        a = rng.choice(cands)
        v = rng.choice([None, 'nonsense', {'l': []}, {'P': [[0, 0.4], [1, 1]]}, -1])
        return [[a, v, 'set']], [[a, cur[a], 'set']]

    def generate(self, rng, index, tier):
        if index < 2 * len(self.sweeps) or index > 900 and rng.random() < 0.15:
            return self.sweep(rng, index)
        if rng.random() < 0.1:
            prog, kw, runs = model_plan(rng)
            ops = []
            for _ in range(rng.randint(2, 4)):
                m, a = rng.choice(runs)
                ops.append({'k': rng.choice(['run', 'run', 'interrupt']), 'm': m, 'kw': a,
                            'at': round(rng.random(), 6)})
            ops.append({'k': 'run', 'm': runs[0][0], 'kw': runs[0][1]})
            return {'model': prog, 'kw': kw, 'tasks': [ops], 'sw': [], 'objs': [],
                    'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.3 else None,
                    '_shrink': ['tasks.0']}
        nobj = rng.choice([1, 1, 2, 2, 3])
        objs, cur = [], []
        first = rng.choice(sorted(PROGS)) if rng.random() < 0.5 else \
            rng.choice([p for p in sorted(PROGS) if p.startswith('Speccon')])
        for i in range(nobj):
            prog = first if rng.random() < 0.7 else rng.choice(sorted(PROGS))
            deck = rng.choice([j for j, b in enumerate(self.base[prog]) if b])
            objs.append([prog, deck])
            cur.append(copy.deepcopy(self.base[prog][deck]))
        threads = nobj > 1 and rng.random() < 0.3
        tasks = [[] for _ in range(nobj)] if threads else [[]]
        for _ in range(rng.randint(3, 7)):
            i = rng.randrange(nobj)
            ops = tasks[i] if threads else tasks[0]
            prog = objs[i][0]
            r = rng.random()
            if r < 0.4:
                e = self.edit(rng, prog, cur[i])
                for a, v, _ in e:
                    cur[i][a] = v
                ops.append({'k': 'edit', 'o': i, 'e': e})
                if rng.random() < 0.8:
                    ops.append({'k': 'run', 'o': i})
            elif r < 0.5:
                bad, back = self.bad_edit(rng, prog, cur[i])
                ops += [{'k': 'edit', 'o': i, 'e': bad}, {'k': 'run', 'o': i},
                        {'k': 'edit', 'o': i, 'e': back}, {'k': 'run', 'o': i}]
            elif r < 0.65:
                ops += [{'k': 'interrupt', 'o': i, 'at': round(rng.random(), 6)},
                        {'k': 'run', 'o': i}]
            elif r < 0.75:
                ops.append({'k': 'run', 'o': i})
            elif r < 0.83:
                ops.append({'k': 'scribble', 'o': i})
                ops.append({'k': 'run', 'o': i})
            elif r < 0.9 and not threads:
                ops.append({'k': 'save', 'o': i})
            elif r < 0.93 and not threads:
                ops.append({'k': 'plots', 'o': i})
            elif r < 0.97:
                ops.append({'k': 'part', 'o': i, 'm': rng.choice([
                    'check_input_attributes', 'make_time_independent_arrays',
                    'make_time_dependent_arrays', 'make_output'])})
                ops.append({'k': 'run', 'o': i})
            else:
                ops.append({'k': 'clone', 'o': i})
        for i in range(nobj):
            ops = tasks[i] if threads else tasks[0]
            ops.append({'k': 'run', 'o': i})
        sw = []
        if threads:
            sw = sorted([round(rng.random(), 6), rng.randrange(4)]
                        for _ in range(rng.choice([1, 2, 3, 5])))
        return {'objs': objs, 'tasks': tasks, 'sw': sw,
                'share': nobj > 1 and rng.random() < 0.35,
                'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.3 else None,
                '_shrink': ['tasks.%d' % i for i in range(len(tasks))] + ['sw']}

    # ---------------------------------------------------------------- execution
    def reference(self, prog, deck, edits, kind, count):
        """count: also the number of lines a run takes (slow)"""
        def compute():
            refs.quiet()
            o = make(prog, deck)
            for e in edits:
                apply_edit(o, [[a, v, 'set'] for a, v, _ in e])
            where = core.scratch() if kind == 'save' else None
            if not count:
                return {'out': run_it(prog, o, kind, where), 'steps': 0}
            out, n = refs._lines(lambda: run_it(prog, o, kind, where))
            return {'out': out, 'steps': n}
        r = refs._cached(json.dumps(['c08', prog, deck, final(edits), kind, count],
                                    sort_keys=True), compute, 100)
        return {'bad': str(r)[:300]} if 'error' in r or r.get('timeout') else r

    def execute(self, plan):
        run = core.Run()
        refs.quiet()
        if 'model' in plan:
            return self.models(plan, run)
        log = run.log
        # references first (they are computed in processes of their own)
        edits = [[] for _ in plan['objs']]
        total = 0
        todo = []
        for ops in plan['tasks']:
            for op in ops:
                if op['k'] == 'edit':
                    edits[op['o']].append(op['e'])
                    continue
                i, k = op['o'], op['k']
                kind = k if k in ('save', 'plots') else 'run'
                prog, deck = plan['objs'][i]
                op['ref'] = self.reference(prog, deck, edits[i], kind,
                                           k == 'interrupt' or len(plan['tasks']) > 1)
                op['kind'] = kind
                total += op['ref'].get('steps', 0)
                todo.append(op)
        threads = len(plan['tasks']) > 1
        if any('bad' in op['ref'] for op in todo) or (threads and total > 400000):
            log.append('skipped')
            run.nontrivial = False
            return run
        if plan['heap'] is not None:
            heap.dirty(plan['heap'])
            run.fault('free memory filled with a pattern')
        objs = [make(p, d) for p, d in plan['objs']]
        if plan.get('share'):
            # the same user-owned objects (materials, times, loads) in several analyses
            pool = {}
            for (p, d), o in zip(plan['objs'], objs):
                for a in sorted(o._attributes):
                    v = getattr(o, a, None)
                    if isinstance(v, (np.ndarray, list)) or type(v).__name__ == 'PolyLine':
                        k = json.dumps(corpus.canon(v))
                        if any(a == op_a for ops in plan['tasks'] for op in ops
                               if op['k'] == 'edit' for op_a, _, how in op['e']
                               if how == 'in place'):
                            continue
                        setattr(o, a, pool.setdefault(k, v))
        state = [{'done': None, 'last': ''} for _ in objs]

        def check_others(i, what):
            for j, s in enumerate(state):
                if j == i or s['done'] is None:
                    continue
                now = results(plan['objs'][j][0], objs[j])
                for a in s['done']:
                    w = corpus.same(json.loads(json.dumps(now.get(a))), s['done'][a], 1e-12)
                    if w:
                        run.bad('other object changed', '%s of object %d (%s) changed by %s of '
                                'object %d: %s' % (a, j, plan['objs'][j][0], what, i, w))
                w = changed_inputs(s['inputs'], inputs_of(objs[j]))
                if w:
                    run.bad('other object changed', 'input of object %d (%s) changed by %s of '
                            'object %d: %s' % (j, plan['objs'][j][0], what, i, w))

        def settle(i):
            state[i]['done'] = None
            state[i]['inputs'] = inputs_of(objs[i])

        def body(ti, ops):
            def go():
                for op in ops:
                    i = op['o']
                    o = objs[i]
                    prog = plan['objs'][i][0]
                    k = op['k']
                    run.states.append('%s/%s/%s' % (prog, k, state[i]['last']))
                    state[i]['last'] = k
                    if k == 'edit':
                        apply_edit(o, op['e'])
                        settle(i)
                        log.append('%d edit %d %s' % (ti, i, [a for a, _, _ in op['e']]))
                        continue
                    run.ops += 1
                    if k == 'clone':
                        c = copy.deepcopy(o)
                        before = results(prog, o)
                        run_it(prog, c, 'run')
                        corpus.scribble(getattr(c, 'tvals', None))
                        for a in PROGS[prog][1]:
                            corpus.scribble(getattr(c, a, None))
                        w = corpus.same(json.loads(json.dumps(results(prog, o))),
                                        json.loads(json.dumps(before)), 1e-12)
                        if w:
                            run.bad('other object changed', 'running and editing a copy of %s '
                                    'changed the original: %s' % (prog, w))
                        continue
                    if k == 'scribble':
                        n = 0
                        for a in PROGS[prog][1]:
                            n += corpus.scribble(getattr(o, a, None))
                        run.fault('caller overwrites results', n)
                        state[i]['done'] = None
                        w = changed_inputs(state[i].get('inputs', inputs_of(o)), inputs_of(o))
                        if w:
                            run.bad('input changed', 'overwriting the results of %s changed its '
                                    'input %s' % (prog, w))
                        continue
                    before = inputs_of(o)
                    held = [(a, getattr(o, a, None)) for a in o._attributes]
                    value = [corpus.canon(v) for _, v in held]
                    if k == 'part':
                        try:
                            with np.errstate(all='ignore'):
                                getattr(o, op['m'])()
                        except Exception:
                            pass
                        log.append('%d part %d %s' % (ti, i, op['m']))
                        state[i]['done'] = None
                    elif k == 'interrupt':
                        n = 1 + int(op['at'] * op['ref']['steps'])
                        hit = self.interrupt(o, n)
                        if hit:
                            run.fault('run interrupted at a line')
                        log.append('%d interrupt %d %s' % (ti, i, hit))
                        state[i]['done'] = None
                    else:
                        where = core.scratch() if k == 'save' else None
                        got = run_it(prog, o, op['kind'], where)
                        log.append('%d %s %d %s' % (ti, k, i, got[0]))
                        w = differ(got, op['ref']['out'])
                        if w:
                            run.bad('differs from a new object', '%s (object %d, %s): %s; a new '
                                    'object with the same inputs %s' % (
                                        prog, i, k, w, brief(op['ref']['out'])))
                        if got[0] == 'exc':
                            run.fault('analysis fails')
                        state[i]['done'] = json.loads(json.dumps(results(prog, o))) \
                            if got[0] == 'ok' else None
                    after = inputs_of(o)
                    state[i]['inputs'] = after
                    w = changed_inputs(before, after)
                    if w:
                        run.bad('input changed', '%s of %s changed its input %s' % (k, prog, w))
                    for (a, v), c in zip(held, value):
                        w = corpus.same(corpus.canon(v), c, 1e-13)
                        if w:
                            run.bad('input changed', '%s of %s changed the object given as %s: '
                                    '%s' % (k, prog, a, w))
                    if not threads:
                        check_others(i, k)
            return go
        for i in range(len(objs)):
            settle(i)
        if threads:
            switches = [[1 + int(f * total), t] for f, t in plan['sw']]
            s = sched.Sched(switches, max_steps=8000000, trace_files=TRACE)
            for ti, ops in enumerate(plan['tasks']):
                s.spawn('t%d' % ti, body(ti, ops), trace=True)
            s.run()
            run.steps += s.step
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
            for st, a, b in s.preemptions:
                run.fault('thread switch')
                log.append('switch %d %d %d' % (st, a, b))
        else:
            body(0, plan['tasks'][0])()
            run.steps += total
        return run

    def interrupt(self, o, n, call=None):
        def go():
            with np.errstate(all='ignore'):
                (call or o.make_all)()
        hit = refs.stop(go, n)
        return bool(hit)

    def models(self, plan, run):
        prog = plan['model']
        log = run.log

        def ref(op):
            def compute():
                refs.quiet()
                o = make_model(prog, plan['kw'])
                out, n = refs._lines(lambda: run_model(prog, o, op['m'], op['kw']))
                return {'out': out, 'steps': n}
            r = refs._cached(json.dumps(['c08m', prog, plan['kw'], op['m'], op['kw']],
                                        sort_keys=True), compute, 100)
            return {'bad': str(r)} if 'error' in r or r.get('timeout') else r
        todo = [(op, ref(op)) for op in plan['tasks'][0]]
        if any('bad' in r for _, r in todo):
            log.append('skipped')
            run.nontrivial = False
            return run
        if plan['heap'] is not None:
            heap.dirty(plan['heap'])
            run.fault('free memory filled with a pattern')
        o = make_model(prog, plan['kw'])
        last = ''
        for op, r in todo:
            run.ops += 1
            run.states.append('%s/%s/%s' % (prog, op['k'], last))
            last = op['k']
            if op['k'] == 'interrupt':
                hit = self.interrupt(o, 1 + int(op['at'] * r['steps']),
                                     lambda: run_model(prog, o, op['m'], op['kw']))
                if hit:
                    run.fault('run interrupted at a line')
                log.append('interrupt %s %s' % (op['m'], hit))
                continue
            got = run_model(prog, o, op['m'], op['kw'])
            log.append('run %s %s' % (op['m'], got[0]))
            w = differ(got, r['out'])
            if w:
                run.bad('differs from a new object', '%s.%s: %s; a new object %s' % (
                    prog, op['m'], w, brief(r['out'])))
        return run

    def sample(self, plan):
        if 'model' in plan:
            return {'model': plan['model'], 'ops': [(op['k'], op['m'])
                                                    for op in plan['tasks'][0]]}
        return {'objects': plan['objs'], 'switches': plan['sw'],
                'tasks': [[(op['k'], op['o']) + ((op['e'],) if op['k'] == 'edit' and
                                                 len(op['e']) < 4 else ())
                           for op in ops] for ops in plan['tasks']]}


def final(edits):
    d = {}
    for e in edits:
        for a, v, _ in e:
            d.pop(a, None)
            d[a] = v
    return sorted(d.items())
