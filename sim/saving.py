"""Workload shared by the storage properties: simulated processes that build
analyses, run them and save what they computed, on the simulated disk."""
import io
import os
import re
import sys

import numpy as np

from . import simos
from .core import Run, digest, scratch
from .sched import Sched, SimCrash, SimBudget, SimDeadlock, make_switches
from .simos import Clock, World, snapshot


def imports():
    import pkg_resources
    real, memo = pkg_resources.require, {}

    def require(*names):
        # scanning the installation on every call is slow; it does not change
        if names not in memo:
            try:
                memo[names] = real(*names)
            except Exception as e:
                memo[names] = e
        if isinstance(memo[names], Exception):
            raise memo[names]
        return memo[names]
    pkg_resources.require = require
    import geotecha.inputoutput.inputoutput as io_
    import geotecha.speccon.speccon1d_vr as vr
    import geotecha.consolidation.schiffmanandstein1970 as ss
    import geotecha.consolidation.nogamiandli2003 as nl
    import geotecha.speccon.speccon1d_vrw, geotecha.speccon.speccon1d_vrc
    import geotecha.speccon.speccon1d_unsat
    return io_, vr, ss


class StubFigure:
    """Just enough of a matplotlib figure: saving it writes `text` to the file."""
    dpi = 80

    def __init__(self, label, text):
        self._label, self.text = label, text

    def get_label(self):
        return self._label

    def savefig(self, fname, **kw):
        with open(fname, 'w') as f:
            f.write(self.text)


def light_class():
    from geotecha.inputoutput.inputoutput import InputFileLoaderCheckerSaver

    class Light(InputFileLoaderCheckerSaver):
        """A small analysis written the way the documentation tells users to."""

        def _setup(self):
            self._attributes = ('alpha beta series poly label rows cols '
                                'data1 data2 data3 more').split()
            self._attribute_defaults = {'alpha': 1.0, 'rows': 3, 'cols': 2, 'more': 0}
            self._zero_or_all = ['alpha beta'.split()]

        def make_all(self):
            self.check_input_attributes()
            n, m = self.rows, self.cols
            base = np.arange(n * m, dtype=float).reshape(n, m)
            self.first = base * self.alpha + self.beta / 7.0
            self.second = np.sqrt(base + abs(self.alpha)) * 1e-7
            self._grid_data_dicts = [
                {'name': '_first', 'data': self.first, 'row_labels': list(range(n)),
                 'row_labels_label': 'row', 'column_labels': ['c%d' % i for i in range(m)],
                 'header': 'header of first: %s' % self.title},
                {'name': '_second', 'data': self.second,
                 'header': 'header of second: %s' % self.title,
                 'df_kwargs': {'index': True}}]
            self._figures = [StubFigure('', 'figure 0 of %s\n' % self.title * 3),
                             StubFigure('named', 'named figure of %s\n' % self.title * 500)]
            self._figures += [StubFigure('extra%d' % i if i % 3 else '', 'figure %d of %s\n' % (
                i + 2, self.title)) for i in range(self.more)]
            self.save()

        def save(self):
            if self.save_figures_to_file:
                self._save_figures()
            if self.save_data_to_file:
                self._save_data()
    return Light


DECKS = {'Speccon1dVR': ['por', 'avp', 'set'],
         'Speccon1dVRW': ['por', 'porwell', 'avp', 'set'],
         'Speccon1dVRC': ['por', 'pors', 'porc', 'avp', 'avps', 'avpc', 'set'],
         'Speccon1dUnsat': ['porw', 'pora', 'avpw', 'avpa', 'set', 'setw', 'seta'],
         'SchiffmanAndStein1970': ['por', 'avp', 'set'],
         'NogamiAndLi2003': ['por', 'avp', 'set']}


def deck_text(job, tok, directory):
    from checks import c08
    text = c08.deck_text(job['prog'], job['deck'])
    lines = ['# deck %s %d %s' % (job['prog'], job['deck'], tok)] + text.split('\n')
    if job['prog'].startswith('Spec'):
        lines.append('neig = %d' % job['neig'])
    lines += ['save_figures_to_file = False', 'show_figures = False', 'directory = None']
    return '\n'.join(lines + common_lines(job, tok, directory)) + '\n'


def vr_text(job, tok, directory):
    k = job['k']
    lines = [
        '# consolidation analysis %s' % tok,
        'H = %r' % (1.0 + 0.25 * (k % 3)),
        'drn = %d' % (k % 2),
        'dTv = %r' % (0.1 + 0.01 * (k % 50)),
        'neig = %d' % job.get('neig', 4),
        'mvref = 2.0',
        'mv = PolyLine([0, 1], [0.5, %r])' % (0.5 + 0.01 * (k % 20)),
        'kv = PolyLine([0, 1], [5, 5])',
        'surcharge_vs_depth = PolyLine([0, 1], [1, 1])',
        'surcharge_vs_time = PolyLine([0, 0, 10], [0, %r, %r])' % (100. + k, 100. + k),
        'tvals = %s' % ('np.array([0.1, 1.0, 10.0])' if k % 2 else
                        'np.linspace(0.05, 12, %d)' % job.get('nt', 5)),
    ]
    outs = job.get('outs', 7)
    if outs & 1:
        lines.append('ppress_z = [0.2, 0.5, 1]')
    if outs & 2:
        lines.append('avg_ppress_z_pairs = [[0, 1], [0.5, 1]]')
    if outs & 4 or not outs & 3:
        lines.append('settlement_z_pairs = [[0, 1]]')
    lines += common_lines(job, tok, directory)
    return '\n'.join(lines) + '\n'


def light_text(job, tok, directory):
    k = job['k']
    lines = [job.get('head', '') + '# light analysis %s' % tok,
             'alpha = %r' % (1.5 + k / 16.),
             'beta = %r' % (k * 0.3),
             'more = %d' % job.get('more', 0), 'rows = %d' % job.get('rows', 3), 'cols = %d' % job.get('cols', 2),
             'series = np.array([1.0, %r, 3.5])' % (k / 8.),
             'poly = PolyLine([0, 1, 2], [0.25, %r, 4])' % (k / 4.),
             "label = 'L%d'" % k]
    lines += ['%s = %s' % (n, e) for n, e in sorted(job.get('vals', {}).items())]
    lines += common_lines(job, tok, directory)
    return '\n'.join(lines) + job.get('tail', '\n')


def ss_text(job, tok, directory):
    k = job['k']
    return '\n'.join([
        '# schiffman and stein %s' % tok,
        'h = np.array([10., 20., 30., 20.])',
        'mv = np.array([3.07e-3, 1.95e-3, 9.74e-4, 1.95e-3])',
        'kv = np.array([0.0411, 0.1918, 0.0548, 0.0686]) * mv',
        'bctop = 0', 'htop = None', 'ktop = None',
        'bcbot = 0', 'hbot = None', 'kbot = None',
        'n = %d' % (2 + k % 2), 'surcharge_vs_time = PolyLine([0, 0, 10], [0, %r, %r])' % (
            100. + k, 100. + k),
        'z = np.array([0., 5., 30., 70.])',
        't = np.array([1., 740., 2930.])', 'tpor = np.array([740., 2930.])'] +
        common_lines(job, tok, directory)) + '\n'


def common_lines(job, tok, directory):
    out = ['title = %r' % tok, 'prefix = %r' % job['prefix']]
    if directory is not None:
        out.append('directory = %r' % directory)
    if job.get('overwrite'):
        out.append('overwrite = True')
    if not job.get('create_directory', True):
        out.append('create_directory = False')
    out.append('save_data_to_file = %r' % bool(job.get('data', True)))
    if job.get('figs'):
        out.append('save_figures_to_file = True')
        out.append("figure_ext = '.fig'")
    if job.get('data_ext'):
        out.append('data_ext = %r' % job['data_ext'])
    return out


LIGHT = None


def make_object(job, text, reader=None):
    global LIGHT
    kind = job['model']
    arg = reader if reader is not None else text
    if kind == 'light':
        if LIGHT is None:
            LIGHT = light_class()
        return LIGHT(arg)
    if kind == 'vr':
        from geotecha.speccon.speccon1d_vr import Speccon1dVR
        return Speccon1dVR(arg)
    if kind == 'deck':
        from checks import c08
        return c08.klass(job['prog'])(arg)
    from geotecha.consolidation.schiffmanandstein1970 import SchiffmanAndStein1970
    return SchiffmanAndStein1970(arg)


def edit(job, obj):
    """What somebody changes before the same analysis is run again."""
    obj.author = 'somebody %d' % job['k']
    if job['model'] == 'vr':
        obj.tvals = np.append(obj.tvals, [np.max(obj.tvals) * 1.5])
        if obj.settlement_z_pairs is not None and job['k'] % 2:
            obj.settlement_z_pairs = [[0, 1], [0.25, 1]]
    elif job['model'] == 'ss':
        obj.t = np.append(obj.t, [4000.0])
        obj.tpor = np.array([100.0, 741.0, 3000.0])


def text_for(job, tok, directory):
    return {'light': light_text, 'vr': vr_text, 'ss': ss_text, 'deck': deck_text}[job['model']](job, tok, directory)


def tables(job, obj):
    """The result tables, as public attributes of the finished analysis:
    (end of the file name, data, row labels or None, column positions or None)"""
    if job['model'] == 'light':
        n, m = obj.first.shape
        return [('first', obj.first, list(range(n)), None), ('second', obj.second, None, None)]
    out = []
    names = DECKS[job['prog']] if job['model'] == 'deck' else ['por', 'avp', 'set']
    for n in names:
        v = getattr(obj, n, None)
        if v is None:
            continue
        v = np.atleast_2d(np.asarray(v)).T
        cols = None
        if hasattr(obj, 'tvals'):
            if n.startswith('por'):
                which = obj.ppress_z_tval_indexes
                z = np.asarray(obj.ppress_z, dtype=float) * obj.H
                cols = z if obj.RLzero is None else obj.RLzero - z
            elif n.startswith('avp'):
                which = obj.avg_ppress_z_pairs_tval_indexes
            else:
                which = obj.settlement_z_pairs_tval_indexes
            rows = np.asarray(obj.tvals, dtype=float)[which]
        else:
            rows = np.asarray(obj.tpor if n == 'por' else obj.t, dtype=float)
            cols = np.asarray(obj.z, dtype=float) if n == 'por' else None
        out.append((n, v.copy(), [float(x) for x in np.atleast_1d(rows)], cols))
    return out


NUM = re.compile(r'^-?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+|nan|inf)$')


def parse_csv(data):
    """(text, numeric rows as lists without the leading index column)"""
    text = data.decode('utf-8')
    rows = []
    for line in text.split('\n'):
        f = line.split(',')
        if len(f) >= 2 and f[0].isdigit() and all(NUM.match(x) or not x for x in f[1:]):
            rows.append([float(x or 'nan') for x in f])
    return text, rows


def same(a, b, rtol=1e-13):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y and not (abs(x - y) <= rtol * max(abs(x), abs(y))) and not (x != x and y != y):
            return False
    return True


def csv_holds(data, table, rows_at=None, cols_at=None):
    """Does the csv hold exactly this table (after its index and label columns)?"""
    if not data.endswith(b'\n'):
        return 'the last line is cut off'
    text, rows = parse_csv(data)
    table = np.atleast_2d(table)
    if len(rows) != len(table):
        return '%d data rows for %d results' % (len(rows), len(table))
    for i, (r, t) in enumerate(zip(rows, table)):
        if not same(r[-len(t):] if len(t) else [], list(t)):
            return 'row %d is %r, computed %r' % (i, r, list(t))
        if rows_at is not None and not any(same([x], [float(rows_at[i])])
                                           for x in r[:len(r) - len(t)][1:]):
            return 'row %d is labelled %r, it is for %r' % (i, r[:2], rows_at[i])
    if cols_at is not None and len(rows):
        for line in text.split('\n'):
            f = line.split(',')[-len(cols_at):]
            if len(f) == len(cols_at) and all(NUM.match(x) for x in f):
                break
        else:
            return 'no line with the depths'
        for x, z in zip(f, cols_at):
            if abs(float(x) - z) > 0.0051 * abs(z) + 1e-9:
                return 'column labelled %s holds the results of depth %r' % (x, z)
    return None


def exact(a, b):
    """Is the reloaded value `a` the value `b` in full?"""
    if type(b).__name__ == 'PolyLine':
        return type(a).__name__ == 'PolyLine' and exact(np.asarray(a.xy), np.asarray(b.xy))
    if isinstance(b, np.ndarray):
        if b.ndim == 0 and not isinstance(a, np.ndarray):
            return exact(a, b.item())
        if not isinstance(a, np.ndarray) or a.shape != b.shape or a.dtype.kind != b.dtype.kind:
            return False
        if a.dtype.kind == 'O':
            return all(map(exact, a.ravel(), b.ravel()))
        return np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
    if isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(exact, a, b))
    if isinstance(b, dict):
        return type(a) is type(b) and sorted(map(repr, a)) == sorted(map(repr, b)) and all(
            exact(a[k], b[k]) for k in b)
    if isinstance(b, np.generic):
        return exact(a, b.item())
    if isinstance(b, float):
        return isinstance(a, float) and (a == b or a != a and b != b)
    if isinstance(a, np.generic):
        a = a.item()
    return type(a) is type(b) and a == b


def reloads(job, parsed, want, rec_tables):
    """The parsed input, read again by the program itself, is the analysis that was run."""
    try:
        o = make_object(job, parsed)
    except Exception as e:
        return 'the parsed input cannot be read: %s: %s' % (type(e).__name__, str(e)[:200])
    for n, v in want.items():
        if not exact(getattr(o, n, None), v):
            return 'the parsed input gives %s = %s, the analysis used %s' % (
                n, repr(getattr(o, n, None))[:200], repr(v)[:200])
    if job['model'] == 'light':
        for n, e in job.get('vals', {}).items():
            from geotecha.piecewise.piecewise_linear_1d import PolyLine
            v = eval(e, {'np': np, 'PolyLine': PolyLine})
            if not exact(getattr(o, n), v):
                return 'the parsed input gives %s = %s, the input was %s' % (
                    n, repr(getattr(o, n))[:200], e[:200])
    o.save_data_to_file = o.save_figures_to_file = False
    try:
        with np.errstate(all='ignore'):
            o.make_all()
        again = tables(job, o)
    except Exception as e:
        return 'the parsed input cannot be run: %s: %s' % (type(e).__name__, str(e)[:200])
    for (n, t, _, _), (m, u, _, _) in zip(rec_tables, again):
        if n != m or t.shape != u.shape or not np.allclose(
                t, u, rtol=1e-6, atol=1e-9 * max(1e-30, np.abs(np.nan_to_num(t)).max())
                if t.size else 0, equal_nan=True):
            return 'the parsed input computes another %s' % n
    if len(again) != len(rec_tables):
        return 'the parsed input computes %d tables, not %d' % (len(again), len(rec_tables))
    return None


def freeze(v):
    if type(v).__name__ == 'PolyLine':
        from geotecha.piecewise.piecewise_linear_1d import PolyLine
        return PolyLine(np.array(v.xy))
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, list):
        return [freeze(x) for x in v]
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    return v


def verify_outputs(job, rec, files, rel_dir, leftover=()):
    """Files of one successful job: complete, of one stem, with its own content.
    Returns (problem or None, stem)."""
    tok, obj, text = rec['tok'], rec['obj'], rec['text']
    pre = job['prefix']
    mine = {p: d for p, d in files.items() if d is not None and tok.encode() in d}
    pat = re.compile(re.escape(pre) + r'(\d+)')
    stems = {}
    for p in mine:
        base = os.path.basename(p)
        m = pat.match(base)
        if not m:
            return 'output in a file of another name: %r' % p, None
        stems.setdefault(m.group(0), []).append(p)
    if not mine:
        return 'nothing of the results can be found', None
    # what an earlier, failed attempt of the same analysis left does not count,
    # unless this attempt went on in that same folder
    new = {x: v for x, v in stems.items() if x not in leftover}
    if new:
        stems = new
        mine = {p: mine[p] for v in new.values() for p in v}
    elif len(stems) > 1:
        stems = {x: v for x, v in stems.items() if x == leftover[-1]}
        mine = {p: mine[p] for v in stems.values() for p in v}
    if len(stems) != 1:
        return 'results spread over several numbers: %s' % sorted(stems), None
    stem = list(stems)[0]
    if job.get('create_directory', True):
        want_dir = os.path.normpath(os.path.join(rel_dir, stem))
    else:
        want_dir = os.path.normpath(rel_dir)
    for p in mine:
        d = os.path.dirname(p) or '.'
        if os.path.normpath(d) != want_dir:
            return 'output in %r, expected in folder %r' % (p, want_dir), stem
    if job.get('data', True):
        orig = [p for p, d in mine.items() if d == text.encode('utf-8')]
        if len(orig) != 1:
            return 'no file holds the input text as it was given (found %s)' % sorted(mine), stem
        ext = job.get('data_ext') or '.csv'
        csvs = [p for p in mine if p.endswith(ext)]
        parsed = [p for p in mine if 'input' in os.path.basename(p) and p not in orig]
        if len(parsed) != 1:
            return 'no parsed input (found %s)' % sorted(mine), stem
        rec['parsed'] = mine[parsed[0]].decode('utf-8')
        for name, t, rows, cols in rec['tables']:
            problems = []
            for p in csvs:
                if not p.endswith('_' + name + ext):
                    continue
                e = csv_holds(mine[p], t, rows, cols)
                if e is None:
                    break
                problems.append('%s: %s' % (os.path.basename(p), e))
            else:
                return 'no file holds the table %s: %s' % (
                    name, problems or [os.path.basename(p) for p in csvs]), stem
        if len(csvs) < len(rec['tables']):
            return 'only %d tables for %d results' % (len(csvs), len(rec['tables'])), stem
    elif any(d == text.encode('utf-8') or tok.encode() in d and p.endswith(
            job.get('data_ext') or '.csv') for p, d in mine.items()):
        return 'data was saved although only figures were asked for', stem
    if not job.get('figs') and any(p.endswith('.fig') for p in mine):
        return 'figures were saved although only data was asked for', stem
    if job.get('figs') and job['model'] == 'light':
        for fig in rec['figs']:
            if not any(d == fig.encode() for d in mine.values()):
                return 'a figure is missing or incomplete: %r' % fig[:30], stem
        for fig, label in zip(rec['figs'], rec.get('labels', [])):
            if not any(d == fig.encode() and os.path.basename(p).endswith(label + '.fig')
                       for p, d in mine.items()):
                return 'the figure labelled %r is in no file of that name' % label, stem
    return None, stem


# ---------------------------------------------------------------- real snapshot
def disk(world):
    """All files below the root, read with the real calls (no fault, no yield)."""
    real = getattr(world, 'real', None) or {}
    listdir = real.get('listdir', os.listdir)
    op = real.get('builtin_open', open)
    out = {}

    def walk(d, rel):
        for n in sorted(listdir(d)):
            p, r = d + '/' + n, (rel + '/' + n if rel else n)
            if simos.REAL['isdir'](p):
                out[r] = None
                walk(p, r)
            else:
                with op(p, 'rb') as f:
                    out[r] = f.read()
    walk(world.root, '')
    return out


def mkfile(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


class SavingRun:
    def __init__(self, plan, prop):
        self.plan, self.prop = plan, prop
        self.run = Run()
        self.sealed = {}
        self.ntok = 0
        self.schedlog = []
        self.parsed = []

    def go(self):
        plan, run = self.plan, self.run
        root = scratch()
        log = run.log
        for d in plan['dirs']:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for rel, kind in plan['init']:
            if kind == 'd':
                os.makedirs(os.path.join(root, rel), exist_ok=True)
            else:
                mkfile(root, rel, ('earlier result %s\n' % rel).encode())
        import random
        clock = Clock(tick=0.001)
        w = self.w = World(root, clock=clock, log=log,
                           shuffle=random.Random(plan.get('shuffle', 0)))
        opts = np.get_printoptions()
        try:
            if plan.get('print'):
                np.set_printoptions(**plan['print'])
            self.phases(w)
        finally:
            np.set_printoptions(**opts)
        for tag, job, text, want, tabs in self.parsed:
            if run.violation:
                break
            e = reloads(job, text, want, tabs)
            if e:
                run.bad('results mixed up or missing' if self.prop == 'C01' else
                        'saved results incomplete or wrong', '%s: %s' % (tag, e))
        run.merge_faults(w.fault_counts)
        run.sim_time = clock.now
        run.states.append(digest(sorted((p, None if d is None else len(d))
                                        for p, d in snapshot(root).items())))
        return run

    def phases(self, w):
        plan, run = self.plan, self.run
        with w:
            self.sealed = {p: d for p, d in disk(w).items() if d is not None}
            for i, ph in enumerate(plan['phases']):
                self.phase(i, ph)
                if run.violation:
                    break

    # ------------------------------------------------------------------ phase
    def phase(self, i, ph):
        w, run = self.w, self.run
        single = len(ph['procs']) == 1
        s = Sched(ph.get('switches', []), max_steps=100000, clock=w.clock)
        w.sched = s
        procs = []
        flat = {}
        for n, pp in enumerate(ph['procs']):
            for j in pp['jobs']:
                if j['model'] != 'grid' and not j.get('create_directory', True):
                    flat.setdefault((j['dir'], j['prefix']), set()).add(n)
        self.flat_shared = {k for k, v in flat.items() if len(v) > 1}
        w.blocks = ph.get('blocks')
        for n, pp in enumerate(ph['procs']):
            p = w.add_proc('p%d.%d' % (i, n), cwd=os.path.join(w.root, pp.get('cwd', '')),
                           faults=pp.get('faults', []))
            p.cwd = p.cwd.rstrip('/')
            procs.append(p)
            s.spawn(p.name, (lambda p=p, pp=pp: self.proc(p, pp, single, ph)), proc=p)
        try:
            s.run()
        except (SimBudget, SimDeadlock) as e:
            run.bad('run does not end', 'phase %d: %s' % (i, e))
        w.sched = None
        run.steps += s.step
        run.states += ['i%s' % digest(s.preemptions)] if s.preemptions else []
        for t in s.tasks:
            if t.exc is not None and not isinstance(t.exc, SimCrash):
                import traceback
                tb = ''.join(traceback.format_exception(t.exc))
                raise RuntimeError('harness: ' + tb)
        if run.violation:
            return
        w.blocks = None
        now = disk(w)
        self.check_sealed(now, 'after phase %d' % i)
        if run.violation:
            return
        if ph.get('powerloss') and any(p.crashed for p in procs):
            fr = ph['powerloss']

            def gen():
                k = 0
                while True:
                    yield fr[k % len(fr)]
                    k += 1
            w.power_loss(gen())
            now = disk(w)
        self.sealed = {p: d for p, d in now.items() if d is not None}

    def check_sealed(self, now, when):
        for p, d in self.sealed.items():
            if p not in now:
                self.run.bad('earlier result destroyed', '%s: %s is gone' % (when, p))
            elif now[p] != d:
                self.run.bad('earlier result overwritten',
                             '%s: %s changed from %r... to %r...' % (when, p, d[:60], now[p][:60]))

    # ------------------------------------------------------------------ process
    def proc(self, p, pp, single, ph):
        for job in pp['jobs']:
            if self.run.violation:
                return
            if job['model'] == 'grid':
                self.grid_job(p, job)
            else:
                self.job(p, job, single, ph)

    def job(self, p, job, single, ph):
        w, run = self.w, self.run
        self.ntok += 1
        tok = 'tok%04dx' % self.ntok
        rel_dir = self.plan['dirs'][job['dir']]
        absdir = os.path.join(w.root, rel_dir)
        directory = None if job.get('cwd_dir') else absdir
        if directory is None:
            rel_dir = w.rel(p.cwd)
            rel_dir = '' if rel_dir == '.' else rel_dir
        elif job.get('reldir'):
            directory = os.path.relpath(absdir, p.cwd)
        text = text_for(job, tok, directory)
        nf = len(p.fired)
        reader = io.StringIO(text) if job.get('via') == 'file' else None
        obj = make_object(job, text, reader)
        tries = 1 + job.get('retry', 0)
        done = 0
        first_nums = None
        leftover = []
        attempted = False
        while done < job.get('repeat', 1) and tries > 0 and not run.violation:
            run.ops += 1
            before = disk(w)
            nf = len(p.fired)
            nfw = w.fault_counts.get('disk full', 0)
            tag = '%s %s' % (p.name, tok)
            over = bool(job.get('overwrite'))
            pre = job['prefix']
            pat = re.compile(re.escape(pre) + r'(\d+)')
            nums = []
            for q in before:
                if os.path.dirname(q) == rel_dir:
                    m = pat.match(os.path.basename(q))
                    if m:
                        nums.append(int(m.group(1)))
            if first_nums is None:
                first_nums = nums
            if over:
                top = max(nums) if nums else 1
                stem = pre + str(top).zfill(4)
                base = os.path.join(rel_dir, stem)
                for q in list(self.sealed):
                    if q.startswith(base):
                        del self.sealed[q]
            shared = (job['dir'], job['prefix']) in self.flat_shared
            if done and job.get('edit'):
                edit(job, obj)
            try:
                with np.errstate(all='ignore'):
                    if job.get('resave') and attempted and hasattr(obj, 'second'):
                        obj.save()
                    else:
                        obj.make_all()
                ok = True
            except SimCrash:
                raise
            except BaseException as e:
                if type(e).__name__ == 'SimAbort':
                    raise
                ok = False
                err = e
            attempted = not ok
            faulted = len(p.fired) > nf or w.fault_counts.get('disk full', 0) > nfw
            after = disk(w)
            if self.prop == 'C01' or single:
                self.check_sealed(after, 'after %s' % tag)
            if run.violation:
                if shared:
                    run.violation['class'] = 'flat-concurrent'
                return
            if not ok:
                w.log.append('%s failed %s' % (tag, type(err).__name__))
                if over and isinstance(err, FileExistsError) and before.get(base) is not None:
                    run.probe('overwriting a plain file refused')
                    return
                if not faulted and not shared:
                    run.bad('analysis fails without a fault', '%s: %s: %s' % (
                        tag, type(err).__name__, err))
                    return
                run.probe('save failed and the caller was told')
                tries -= 1
                for q, d in sorted(after.items()):
                    m = pat.match(os.path.basename(q))
                    if d is not None and tok.encode() in d and m and q not in self.sealed \
                            and m.group(0) not in leftover:
                        leftover.append(m.group(0))
                if self.prop == 'C02':
                    self.check_memory(job, obj, tag)
                continue
            if faulted:
                run.probe('save succeeded although a call had failed')
            rec = {'tok': tok, 'obj': obj, 'text': text, 'tables': tables(job, obj),
                   'figs': [f.text for f in getattr(obj, '_figures', None) or []],
                   'labels': [f.get_label() for f in getattr(obj, '_figures', None) or []]}
            fresh = {q: d for q, d in after.items() if q not in self.sealed}
            wanted = job.get('data', True) or (job.get('figs') and job['model'] == 'light')
            problem, stem = (verify_outputs(job, rec, fresh, rel_dir, leftover) if wanted
                             else (None, None))
            if problem:
                cls = ('flat-concurrent' if shared else
                       'results mixed up or missing' if self.prop == 'C01' else
                       'saved results incomplete or wrong')
                run.bad(cls, '%s: %s' % (tag, problem))
                return
            if stem:
                if rec.get('parsed') is not None:
                    self.parsed.append((tag, job, rec['parsed'],
                                        {n: freeze(getattr(obj, n, None))
                                         for n in obj._attributes}, rec['tables']))
                num = int(re.match(re.escape(pre) + r'(\d+)', stem).group(1))
                w.log.append('%s ok %s' % (tag, stem))
                if self.prop == 'C01':
                    self.check_number(tag, pre, stem, num, first_nums, nums, over, single)
                    if nums:
                        run.probe('number chosen past earlier outputs')
                for q, d in fresh.items():
                    if d is not None and tok.encode() in d:
                        self.sealed[q] = d
            done += 1
            first_nums = None
            leftover = []

    def check_number(self, tag, pre, stem, num, first, nums, over, single):
        run = self.run
        if over:
            want = max(nums) if nums else 1
            if single and num != want:
                run.bad('overwriting run used another number',
                        '%s wrote to %s, the highest existing is %s' % (tag, stem, want))
            return
        # after a failed attempt the same analysis may go on in the folder it claimed
        if first and num <= max(first):
            run.bad('number is not new', '%s wrote to %s, existing numbers go up to %d' % (
                tag, stem, max(first)))
        if single and num not in (max(nums) + 1 if nums else 1, max(first) + 1 if first else 1):
            run.bad('number is not the next one', '%s wrote to %s, existing numbers go up to %s'
                    % (tag, stem, max(nums) if nums else 'none'))

    def check_memory(self, job, obj, tag):
        """After a failed save the results are still there and still right."""
        if job['model'] != 'light' or not hasattr(obj, 'second'):
            return
        n, m = obj.rows, obj.cols
        base = np.arange(n * m, dtype=float).reshape(n, m)
        if not np.allclose(obj.first, base * obj.alpha + obj.beta / 7.0):
            self.run.bad('results changed by a failed save', tag)
        want = ['figure 0 of %s\n' % obj.title * 3, 'named figure of %s\n' % obj.title * 500] + \
            ['figure %d of %s\n' % (i + 2, obj.title) for i in range(obj.more)]
        if [getattr(f, 'text', None) for f in obj._figures] != want:
            self.run.bad('results changed by a failed save', '%s: the figures are now %r' % (
                tag, [f.get_label() for f in obj._figures]))
        names = [d.get('name') for d in obj._grid_data_dicts]
        if names != ['_first', '_second'] or any('data' not in d for d in obj._grid_data_dicts):
            self.run.bad('results changed by a failed save',
                         '%s: the grid data is now %r' % (tag, [sorted(d) for d in
                                                                obj._grid_data_dicts]))

    # ------------------------------------------------------------------ grid data
    def grid_job(self, p, job):
        """Direct use of save_grid_data_to_file, several times on the same data."""
        from geotecha.inputoutput.inputoutput import save_grid_data_to_file
        w, run = self.w, self.run
        self.ntok += 1
        tok = 'grid%04dx' % self.ntok
        k = job['k']
        n, m = job.get('rows', 3), job.get('cols', 2)
        data = np.arange(n * m, dtype=float).reshape(n, m) * (k + 1) / 7.0
        if job.get('kind') == 'int':
            data = np.arange(n * m).reshape(n, m) * (k + 1)
        elif job.get('kind') == 'extreme':
            data = np.array([1e-300, -1e300, np.inf, 1 / 3., -0.0, -np.inf, 5e-324, 1e22])[
                np.arange(n * m) % 8].reshape(n, m)
        kw = {'float_format': '%.17g'}
        if job.get('kind') == 'gaps':
            data[(np.arange(n) + k) % 3 == 0] = np.nan
            data[:, 0] = np.nan
        import pandas as pd
        frame = job.get('frame')

        def mk():
            if frame:
                return [{'name': '_one', 'data': pd.DataFrame(
                    data.copy(), columns=['a%d' % i for i in range(m)]), 'header': 'one ' + tok},
                    {'name': '_two', 'data': (data.copy() + 1).tolist(), 'header': 'two ' + tok},
                    {'name': '_three', 'data': pd.DataFrame(data.T.copy()), 'header': 'x ' + tok,
                     'df_kwargs': {'na_rep': 'nan'}}]
            ds = [{'name': '_one', 'data': data.copy(), 'header': 'one ' + tok,
                   'row_labels': [float(i) for i in range(n)], 'row_labels_label': 'lab',
                   'column_labels': ['a%d' % i for i in range(m)], 'df_kwargs': dict(kw)},
                  {'name': '_two', 'data': data.copy() + 1, 'header': 'two ' + tok},
                  {'name': '_none', 'header': 'nothing ' + tok}]
            return ds
        dicts, want = mk(), mk()
        rel_dir = self.plan['dirs'][job['dir']]
        if job.get('here'):
            rel_dir = w.rel(p.cwd)
            rel_dir = '' if rel_dir == '.' else rel_dir
        d = os.path.join(w.root, rel_dir)
        stem = '%s%04d' % (job['prefix'], 9000 + self.ntok)
        arg = dicts if k % 3 else dicts[0]
        for rep in range(job.get('repeat', 2)):
            run.ops += 1
            nf = len(p.fired)
            st = stem if job.get('same') else '%s_%d' % (stem, rep)
            try:
                if job.get('here'):
                    save_grid_data_to_file(arg, file_stem=st,
                                           create_directory=job.get('create_directory', True))
                else:
                    save_grid_data_to_file(arg, directory=d, file_stem=st,
                                           create_directory=job.get('create_directory', True))
                ok = True
            except SimCrash:
                raise
            except BaseException as e:
                if type(e).__name__ == 'SimAbort':
                    raise
                ok = False
                if len(p.fired) == nf and not w.fault_counts.get('disk full'):
                    run.bad('saving fails without a fault', '%s: %s' % (type(e).__name__, e))
                    return
                run.probe('save failed and the caller was told')
            # the caller's data is untouched either way
            for a, b in zip(dicts, want):
                if set(a) != set(b) or any(
                        not (np.array_equal(np.asarray(a[x]), np.asarray(b[x]), equal_nan=True)
                             and type(a[x]) is type(b[x]) if x == 'data' else a[x] == b[x])
                        for x in b):
                    run.bad('saving changed the data it was given',
                            'dictionary with keys %s is now %s' % (sorted(b), {
                                x: v for x, v in a.items() if x != 'data'}))
                    return
            if ok:
                base = os.path.join(rel_dir, st, st) if job.get('create_directory', True) \
                    else os.path.join(rel_dir, st)
                after = disk(w)
                for j, dd in enumerate(want if isinstance(arg, list) else want[:1]):
                    if 'data' not in dd:
                        continue
                    q = os.path.normpath(base + dd['name'] + '.csv')
                    if q not in after:
                        run.bad('saved results incomplete or wrong', 'no file %s (have %s)' % (
                            q, sorted(after)[:20]))
                        return
                    e = csv_holds(after[q], np.asarray(dd['data']), dd.get('row_labels'))
                    if e is None and not after[q].startswith(dd['header'].encode() + b'\n'):
                        e = 'the header is missing'
                    if e:
                        run.bad('saved results incomplete or wrong', '%s: %s' % (q, e))
                        return
                w.log.append('%s ok %s' % (p.name, st))


# ---------------------------------------------------------------- generators
PREFIXES = ['out', 'speccon1dvr_', 'run(1)_', 'a+b', 'x.y', 'case[2]_', 'out_', 'out1',
            'p$q', '^z', 'a b', 'v|w', 'w*', 'soil{2}', 'back\\s', 'Ünï_', 'q?', 'tail ',
            ' lead', 'OUT', 'dot.', 'x-']


def neighbours(rng, prefix):
    """Directory entries near the prefix: real earlier outputs and look-alikes."""
    out = []
    for _ in range(rng.randrange(0, 6)):
        n = rng.choice([1, 1, 2, 3, 5, 9, 10, 42, 99, 999, 9999, 10000, 123456])
        z = rng.choice([4, 4, 4, 1, 3, 6])
        num = str(n).zfill(z)
        form = rng.choice(['d', 'd', 'f', 'f', 'x', 'y'])
        if form == 'd':
            out.append([prefix + num, 'd'])
            out.append(['%s%s/%s%s_data_por.csv' % (prefix, num, prefix, num), 'f'])
            if rng.random() < 0.5:
                out.append(['%s%s/%s%s_input_original.py' % (prefix, num, prefix, num), 'f'])
        elif form == 'f':
            out.append(['%s%s%s' % (prefix, num, rng.choice(['_input_parsed.py', '_x.csv', '.eps', ''])), 'f'])
        elif form == 'x':
            out.append([prefix + rng.choice(['', '_7', 'abc5', '-3', 'x0009']), 'f'])
        else:
            like = {'x.y': 'xzy', 'a+b': 'aab', 'out': 'Out', 'run(1)_': 'run1_',
                    'case[2]_': 'case2_'}.get(prefix, 'other')
            out.append([like + num, 'f'])
    if rng.random() < 0.06:
        top, z = rng.choice([60, 120, 260]), rng.choice([4, 4, 1])
        for n in range(1, top + 1):
            if rng.random() < 0.9 or n == top:
                out.append([prefix + str(n).zfill(z) + '_x.csv', 'f'])
        out += [['%s%03d.txt' % (rng.choice(['zz', 'aa', 'Other']), n), 'f'] for n in range(40)]
    seen, res = set(), []
    for rel, k in out:
        top = rel.split('/')[0]
        if k == 'f' and '/' not in rel and (rel in seen):
            continue
        if '/' in rel and ('F', top) in seen:
            continue
        if k == 'd' and ('F', rel) in seen:
            continue
        if k == 'f' and '/' not in rel:
            if any(r.split('/')[0] == rel for r, _ in res):
                continue
            seen.add(('F', rel))
        seen.add(rel)
        res.append([rel, k])
    return res


def gen_faults(rng, kinds, horizon=40):
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.choice(kinds)
        f = {'at': rng.randrange(1, horizon), 'kind': k}
        if rng.random() < 0.6:
            f['op'] = rng.choice(['mkdir', 'listdir', 'open_w', 'write', 'write', 'open_w', 'stat'])
            f['at'] = rng.choice([1, 1, 1, 2, 2, 3, 4, 6])
        if k in ('torn', 'torn_error'):
            f['frac'] = rng.choice([0.0, 0.1, 0.5, 0.9, 0.99])
            f['op'] = 'write'
            f['at'] = rng.choice([1, 1, 2, 3, 4, 5])
            f['errno'] = rng.choice(['ENOSPC', 'EIO'])
        out.append(f)
    return out


FAULTS = ['EIO', 'ENOSPC', 'EACCES', 'EMFILE', 'crash', 'crash', 'crash_after', 'torn',
          'torn_error', 'interrupt']


def gen_job(rng, k, prefix, ndirs, prop):
    model = rng.choice(['light'] * 5 + ['vr'] * 3 + ['ss'] +
                       (['deck'] * (3 if prop == 'C02' else 1)))
    job = {'model': model, 'k': k, 'prefix': prefix, 'dir': rng.randrange(ndirs)}
    if model == 'light':
        job['figs'] = rng.random() < 0.5
        job['rows'] = rng.choice([1, 2, 3, 5, 30])
        job['cols'] = rng.choice([1, 2, 4])
        if job['figs'] and rng.random() < 0.2:
            job['data'] = False
        if job['figs'] and rng.random() < 0.2:
            job['more'] = rng.choice([1, 5, 12])
        job['vals'] = {'data%d' % i: gen_value(rng) for i in (1, 2, 3) if rng.random() < 0.6}
        job['resave'] = rng.random() < 0.5
        if rng.random() < 0.3:
            job['head'] = rng.choice(['\n\n', '   \n', '\n# \u00e9\n', "'''notes\nof mine'''\n"])
            job['tail'] = rng.choice(['', '\n\n\n', '   ', '  # last \u6c89', '\n\t\n', '\n#  \n'])
    if model == 'deck':
        from checks import c08
        prog = job['prog'] = rng.choice(sorted(DECKS))
        job['deck'] = rng.choice([i for i in range(len(c08.texts(prog)))
                                  if i not in c08.LONG.get(prog, ())])
        job['neig'] = rng.choice([2, 3, 5, 8])
    if model == 'vr':
        job['outs'] = rng.randrange(1, 8)
        job['nt'] = rng.choice([1, 2, 5, 9])
    if rng.random() < 0.2:
        job['create_directory'] = False
    if rng.random() < 0.15:
        job['data_ext'] = rng.choice(['.txt', '.dat', '.csv'])
    if rng.random() < 0.3 and model != 'light':
        job['repeat'] = 2
        job['edit'] = rng.random() < 0.7
    if rng.random() < 0.5:
        job['retry'] = rng.choice([1, 2])
    if rng.random() < 0.15:
        job['reldir'] = True
    elif rng.random() < 0.1:
        job['cwd_dir'] = True
    if rng.random() < 0.3:
        job['via'] = 'file'
    return job


def gen_number(rng):
    return repr(rng.choice([rng.uniform(-1, 1), rng.uniform(0, 1) * 10.0 ** rng.randrange(-12, 12),
                            1 / 3., 0.1 + 0.2, 1e-300, -2.5e17, 0.0, 1e22, 123456789.123456789,
                            float(rng.randrange(1000))]))


def gen_value(rng, depth=0):
    """Source text of a value somebody may put into an input file."""
    k = rng.choice(['array'] * 4 + ['long', 'int', 'two', 'bool', 'poly', 'polylong', 'text',
                    'number', 'list', 'tuple', 'dict', 'polys', 'none', 'empty', 'one', 'texts',
                    'bigint', 'logic'])
    nums = lambda n: ', '.join(gen_number(rng) for _ in range(n))
    if k == 'array':
        return 'np.array([%s])' % nums(rng.randrange(1, 9))
    if k == 'one':
        return 'np.array([%s])' % nums(1)
    if k == 'empty':
        return rng.choice(['np.array([])', '[]', '()', '{}', "''"])
    if k == 'long':
        return 'np.linspace(%s, %s, %d)' % (gen_number(rng), gen_number(rng),
                                            rng.choice([50, 999, 1000, 1001, 1500]))
    if k == 'int':
        return rng.choice(['np.arange(%d)' % rng.randrange(1, 1200),
                           'np.array([1, -2, 3000000000])'])
    if k == 'two':
        n = rng.randrange(1, 4)
        return 'np.array([%s])' % ', '.join('[%s]' % nums(n) for _ in range(rng.randrange(1, 4)))
    if k == 'bool':
        return 'np.array([True, False])'
    if k == 'logic':
        return rng.choice(['True', 'False'])
    if k == 'poly':
        return 'PolyLine([0, 1, %s], [%s])' % ('2.5', nums(3))
    if k == 'polylong':
        n = rng.choice([40, 600, 1200])
        return 'PolyLine(np.linspace(0, %r, %d), np.linspace(%s, %s, %d))' % (
            rng.uniform(0.1, 9), n, gen_number(rng), gen_number(rng), n)
    if k == 'polys':
        return '[%s]' % ', '.join('PolyLine([0, %r], [%s])' % (rng.uniform(0.1, 3), nums(2))
                                  for _ in range(rng.randrange(1, 4)))
    if k == 'text':
        return repr(rng.choice(["plain", "it's", 'say "so"', 'two\nlines', 'back\\slash \\n', 'tab\t',
                                'Ünïcödé 沉降', '# no comment', "'''", '', ' ', '...', 'None', '1.0']))
    if k == 'texts':
        return "np.array(['a', 'it is', 'ccc'])"
    if k == 'number':
        return gen_number(rng)
    if k == 'bigint':
        return repr(rng.choice([0, 7, -3, 10 ** 12, 2 ** 70]))
    if k == 'none':
        return 'None'
    if depth >= 2:
        return gen_number(rng)
    parts = [gen_value(rng, depth + 1) for _ in range(rng.randrange(1, 4))]
    if k == 'list':
        return '[%s]' % ', '.join(parts)
    if k == 'tuple':
        return '(%s,)' % ', '.join(parts)
    return '{%s}' % ', '.join('%r: %s' % (rng.choice(['a', 'b', 'it\'s', 3, 'z z']) if i else 'k', q)
                              for i, q in enumerate(parts))


def gen_plan(rng, prop):
    ndirs = rng.choice([1, 1, 1, 2])
    dirs = ['d%d' % i for i in range(ndirs)]
    prefixes = [rng.choice(PREFIXES) for _ in range(rng.choice([1, 1, 2]))]
    init = []
    for d in dirs:
        for pre in prefixes:
            init += [[d + '/' + r, k] for r, k in neighbours(rng, pre)]
    init = clean_init(init)
    faulty = rng.random() < (0.6 if prop == 'C01' else 0.75)
    phases = []
    k = rng.randrange(1, 200)
    nph = rng.choice([1, 1, 2, 3])
    for i in range(nph):
        nproc = rng.choice([1, 1, 2, 2, 3]) if prop == 'C01' else rng.choice([1, 1, 1, 2])
        procs = []
        flat = prop == "C01" and nproc > 1 and rng.random() < 0.04
        for n in range(nproc):
            jobs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                k += 1
                j = gen_job(rng, k, rng.choice(prefixes), ndirs, prop)
                if prop == 'C02' and rng.random() < 0.3:
                    j = {'model': 'grid', 'k': k, 'prefix': rng.choice(['g', 'res ']),
                         'dir': rng.randrange(ndirs), 'rows': rng.choice([1, 3, 40]),
                         'cols': rng.choice([1, 2, 5]), 'repeat': rng.choice([1, 2, 3]),
                         'kind': rng.choice(['', '', 'int', 'extreme', 'gaps']),
                         'frame': rng.random() < 0.25,
                         'create_directory': rng.random() < 0.6}
                    j['here'], j['same'] = rng.random() < 0.2, rng.random() < 0.4
                if nproc > 1 and not j.get('create_directory', True):
                    j['create_directory'] = True
                if flat and j['model'] != 'grid':
                    j.update(create_directory=False, prefix=prefixes[0], dir=0)
                    j.pop('cwd_dir', None)
                if nproc == 1 and j['model'] != 'grid' and rng.random() < 0.2:
                    j['overwrite'] = True
                jobs.append(j)
            pp = {'jobs': jobs, 'faults': gen_faults(rng, FAULTS) if faulty and rng.random() < 0.7
                  else [], 'cwd': rng.choice(dirs)}
            procs.append(pp)
        ph = {'procs': procs,
              'switches': make_switches(rng, nproc, 60 * nproc) if nproc > 1 else []}
        if faulty and rng.random() < 0.4:
            ph['powerloss'] = [rng.choice([0.0, 0.3, 0.7, 1.0]) for _ in range(5)]
        if faulty and rng.random() < 0.12:
            ph['blocks'] = rng.choice([0, 50, 400, 1500, 4000])
        phases.append(ph)
    # once faults have stopped, a run has to succeed
    k += 1
    phases.append({'procs': [{'jobs': [gen_job(rng, k, prefixes[0], ndirs, prop)], 'faults': []}]})
    popts = rng.choice([None, None, None, {'precision': 3}, {'threshold': 5, 'edgeitems': 1},
                        {'suppress': True, 'precision': 4, 'linewidth': 30},
                        {'sign': '+'}, {'floatmode': 'fixed', 'precision': 2}])
    return {'dirs': dirs, 'init': init, 'phases': phases, 'shuffle': rng.randrange(1 << 30),
            'print': popts,
            '_shrink': ['phases'] + ['phases.%d.procs' % i for i in range(nph + 1)] +
            ['phases.%d.switches' % i for i in range(nph)] +
            ['phases.%d.procs.%d.%s' % (i, n, f) for i in range(nph + 1) for n in range(3)
             for f in ('jobs', 'faults')] + ['init']}


def clean_init(init):
    """Drop entries that cannot exist together (a file and a folder of one name)."""
    files, dirs, out = set(), set(), []
    for rel, k in init:
        parts = rel.split('/')
        parents = {'/'.join(parts[:i]) for i in range(1, len(parts))}
        if k == 'd':
            if rel in files or parents & files:
                continue
            dirs |= parents | {rel}
        else:
            if rel in dirs or rel in files or parents & files:
                continue
            dirs |= parents
            files.add(rel)
        out.append([rel, k])
    return out
