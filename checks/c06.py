"""C06: the beam's deflection cache (SpecBeam.saveme / runme)."""
import contextlib
import io
import os
import random

import numpy as np

from sim import saving
from sim.core import Check, Run, digest, scratch
from sim.saving import csv_holds, disk, mkfile
from sim.sched import Sched, SimBudget, SimCrash, SimDeadlock, make_switches
from sim.simos import Clock, World

REF = {}


def build(cfg, stem, force=False):
    from geotecha.beam_on_foundation.specbeam import SpecBeam
    nx, nt = cfg['nx'], cfg['nt']
    x = np.linspace(cfg['x0'], 1.0 if nx > 2 else 0.9, nx)
    x[1:-1] += cfg.get('bend', 0.0)
    t1 = cfg.get('t1', 1.0)
    d = dict(BC='SS', nterms=cfg.get('nterms', 4), use_analytical=cfg.get('analytical', True),
             nquad=10, moving_loads_x_norm=[[0]], moving_loads_Fz_norm=[[1e-5]],
             moving_loads_v_norm=[0.05], xvals_norm=x, file_stem=stem, force_calc=force)
    if cfg['L']:
        d.update(E=6.9e6, rho=2700., I=1e-3, A=1e-2, L=10., k1=1e4 * cfg['k'], mu=1e3,
                 tvals=np.linspace(cfg['t0'], 5 * t1, nt))
    else:
        d.update(kf=0.03, k1_norm=7.0 * cfg['k'], mu_norm=0.8,
                 tvals_norm=np.linspace(cfg['t0'], 40 * t1, nt))
    return SpecBeam(**d)


def key(cfg):
    return tuple(sorted(cfg.items()))


def ref(cfg):
    k = key(cfg)
    if k not in REF:
        import tempfile
        b = build(cfg, '/nonexistent/never', True)
        with contextlib.redirect_stdout(io.StringIO()):
            b.runme()
        REF[k] = (np.array(b.defl_norm), np.array(b.tvals_norm), np.array(b.xvals_norm))
    return REF[k]


def grid(cfg):
    return (cfg['nx'], cfg['nt'], cfg['x0'], cfg['t0'], cfg['L'],
            cfg.get('bend', 0.0), cfg.get('t1', 1.0))


def csv_text(cfg, fake=1.0):
    """The file a complete save leaves (values scaled by `fake`)."""
    d, t, x = ref(cfg)
    out = ['idex,x_norm,' + ','.join(repr(float(v)) for v in t)]
    for i in range(len(x)):
        out.append('%d,%r,' % (i, float(x[i])) + ','.join(repr(float(v * fake)) for v in d[i]))
    return '\n'.join(out) + '\n'


def numbers(text):
    """What a file says about deflections: all of it but the labels."""
    lines = [v.split(',') for v in text.split('\n')]
    return [lines[0][2:]] + [v[1:] for v in lines[1:]]


class Beam:
    def __init__(self, plan):
        self.plan, self.run = plan, Run()

    def go(self):
        plan, run = self.plan, self.run
        root = scratch()
        clock = Clock(tick=0.001)
        w = self.w = World(root, clock=clock, log=run.log, shuffle=random.Random(1))
        self.complete = {}          # stem -> list of (grid key, defl_norm) saved completely
        self.tainted = False
        for stem, what in plan['init'].items():
            cfg = plan['cfgs'][what['cfg']]
            text = csv_text(cfg, what['fake'])
            if what.get('cut') is not None:
                text = text[:int(len(text) * what['cut'])]
                run.fault('file cut short before the run')
            if what.get('rows') is not None:
                lines = text.split('\n')
                text = '\n'.join(lines[:1 + what['rows']]) + '\n'
                run.fault('file with missing rows')
            if what.get('damage') is not None:
                pos, n, c = what['damage']
                pos = int(pos * len(text))
                text = text[:pos] + c * n + text[pos + n:]
                run.fault('file with unreadable bytes')
            if what.get('junk') is not None:
                text = what['junk']
                run.fault('junk file')
            # the decision is about content: what the file itself holds completely
            if what.get('junk') is None and numbers(text) == numbers(
                    csv_text(cfg, what['fake'])):
                self.complete.setdefault(stem, []).append(
                    (grid(cfg), ref(cfg)[0] * what['fake']))
            mkfile(root, stem + '_defl_norm.csv', text.encode())
        os.makedirs(os.path.join(root, 'runs'), exist_ok=True)
        with w, contextlib.redirect_stdout(io.StringIO()):
            for i, ph in enumerate(plan['phases']):
                self.phase(i, ph)
                if run.violation:
                    break
        run.merge_faults(w.fault_counts)
        run.sim_time = clock.now
        run.states.append(digest(sorted((p, len(d)) for p, d in disk_plain(root))))
        return run

    def phase(self, i, ph):
        w, run = self.w, self.run
        s = Sched(ph.get('switches', []), max_steps=50000, clock=w.clock)
        w.sched = s
        self.single = len(ph['procs']) == 1
        w.blocks = ph.get('blocks')
        procs = []
        for n, pp in enumerate(ph['procs']):
            p = w.add_proc('p%d.%d' % (i, n), cwd=w.root, faults=pp.get('faults', []))
            procs.append(p)
            s.spawn(p.name, (lambda p=p, pp=pp: self.proc(p, pp)), proc=p)
        try:
            s.run()
        except (SimBudget, SimDeadlock) as e:
            run.bad('run does not end', str(e))
        w.sched = None
        run.steps += s.step
        if s.preemptions:
            run.states.append(digest(s.preemptions))
        for t in s.tasks:
            if t.exc is not None and not isinstance(t.exc, SimCrash):
                import traceback
                raise RuntimeError('harness: ' + ''.join(traceback.format_exception(t.exc)))
        w.blocks = None
        if ph.get('powerloss') and any(p.crashed for p in procs):
            fr = ph['powerloss']

            def gen():
                k = 0
                while True:
                    yield fr[k % len(fr)]
                    k += 1
            w.power_loss(gen())

    def proc(self, p, pp):
        for op in pp['ops']:
            if self.run.violation:
                return
            self.op(p, op)

    def op(self, p, op):
        w, run = self.w, self.run
        cfg = self.plan['cfgs'][op['cfg']]
        stem = op['stem']
        defl, t, x = ref(cfg)
        run.ops += 1
        nf, nb = len(p.fired), w.fault_counts.get('disk full', 0)
        name = stem + '_defl_norm.csv'
        before = disk(w).get(name)
        b = build(cfg, stem, op.get('force', False))
        tag = '%s %s cfg %d stem %s' % (p.name, op['op'], op['cfg'], stem)
        if op['op'] == 'preload':
            try:
                b.load_defl()
            except SimCrash:
                raise
            except BaseException as e:
                if type(e).__name__ == 'SimAbort':
                    raise
        try:
            b.runme()
        except SimCrash:
            raise
        except BaseException as e:
            if type(e).__name__ == 'SimAbort':
                raise
            if len(p.fired) == nf:
                run.bad('running the analysis fails because of the file on disk',
                        '%s: %s: %s; the file was %r' % (tag, type(e).__name__, e,
                                                       (before or b'')[-200:]))
            w.log.append('%s run failed' % tag)
            return
        got = np.asarray(b.defl_norm)
        ok = got.shape == defl.shape and np.allclose(got, defl, rtol=1e-7, atol=1e-16)
        how = 'computed' if ok else None
        if not ok and not op.get('force'):
            for g, d in self.complete.get(stem, []):
                if g == grid(cfg) and got.shape == d.shape and \
                        np.allclose(got, d, rtol=1e-7, atol=1e-16):
                    how = 'saved'
        if how is None and not self.single and before and disk(w).get(name) != before:
            # the file was rewritten between two reads of one loading: any glued content
            run.probe('file rewritten while it was read')
            return
        if how is None:
            run.bad('an incomplete or unrelated file was used as the result',
                    '%s: deflections of shape %s, expected %s; the file was %r' % (
                        tag, got.shape, defl.shape, (before or b'')[-300:]))
            return
        if cfg['L'] and not (np.shape(b.defl) == got.shape and np.allclose(b.defl, got * 10.)):
            run.bad('deflections do not match the normalised ones', tag)
            return
        faulted = len(p.fired) > nf
        if before is not None and not op.get('force') and not faulted and self.single and \
                how == 'computed':
            for fake in FAKES:
                if fake != 1.0 and before == csv_text(cfg, fake).encode():
                    run.bad('a complete saved result was not used', '%s' % tag)
                    return
        run.probe('result ' + how)
        w.log.append('%s %s' % (tag, how))
        run.states.append(digest(how, before is not None, op.get('force'), faulted))
        if op['op'] in ('save', 'preload') and op.get('save', True):
            value = got
            # from here on a complete file may hold this
            self.complete.setdefault(stem, []).append((grid(cfg), value))
            try:
                b.saveme()
            except SimCrash:
                raise
            except BaseException as e:
                if type(e).__name__ == 'SimAbort':
                    raise
                if len(p.fired) == nf and w.fault_counts.get('disk full', 0) == nb:
                    run.bad('saving fails without a fault', '%s: %s: %s' % (
                        tag, type(e).__name__, e))
                w.log.append('%s save failed' % tag)
                return
            now = disk(w)
            for nm, table in ((name, value),) + (((stem + '_defl.csv', value * 10.),)
                                                 if cfg['L'] else ()):
                if nm not in now:
                    run.bad('saved deflections incomplete', '%s: no %s' % (tag, nm))
                    return
                e = csv_holds(now[nm], table)
                if e:
                    run.bad('saved deflections incomplete', '%s: %s: %s' % (tag, nm, e))
                    return


def disk_plain(root):
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            yield os.path.relpath(p, root), open(p, 'rb').read()


FAKES = (1.0, 2.0, -3.0)
STEMS = (('beam', 'specbeam_'), ('beam', 'runs/beam'), ('DAF_alp0.400', 'DAF_alp0', 'DAF_alp0.400_n4'),
         ('b (1)', 'b'), ('beam_defl', 'beam', 'Beam'))


class CHECK(Check):
    prop = 'C06'
    quick = (3000, 45)
    thorough = (100000, 1500)
    rule = ('A run is 1-3 phases of 1-2 simulated processes that run beams of several grids and '
            'stiffnesses over the same file stems, with and without force_calc, saving and '
            'loading deflections, over files that are complete, cut at any byte, missing rows, '
            'of another grid, or junk; with I/O errors, torn writes, a full disk, crashes, '
            'interrupts and power loss.')
    real = ['geotecha.beam_on_foundation.specbeam.SpecBeam', 'save_grid_data_to_file', 'pandas']
    stub = ['operating system calls (proxy with faults)', 'clock', 'processes']
    assumptions = ['a file of the same stem and the same grid is taken for the same beam, as '
                   'documented; beams with at least two positions; a reader whose file is '
                   'replaced between two of its reads is not judged']

    def prepare(self, tier, seed):
        import geotecha.beam_on_foundation.specbeam
        saving.imports()
        for c in CFGS:
            ref(c)

    def generate(self, rng, index, tier):
        cfgs = rng.sample(NEAR if rng.random() < 0.2 else CFGS, rng.choice([1, 2, 3]))
        stems = rng.sample(rng.choice(STEMS), rng.choice([1, 1, 2]))
        init = {}
        for s in stems:
            if rng.random() < 0.6:
                what = {'cfg': rng.randrange(len(cfgs)), 'fake': rng.choice(FAKES)}
                r = rng.random()
                if r < 0.4:
                    what['cut'] = rng.random() if r < 0.3 else 1 - rng.random() * 0.05
                elif r < 0.5:
                    what['rows'] = rng.randrange(0, cfgs[what['cfg']]['nx'])
                elif r < 0.6:
                    what['damage'] = [rng.random(), rng.choice([1, 1, 2, 8]), rng.choice('\x00?x')]
                elif r < 0.7:
                    what['junk'] = rng.choice(['', '\n', 'a,b,c\n', 'idex,x_norm,0.1\n0,0.0\n',
                                               '\x00' * 40, 'idex,x_norm\n', ',,,\n,,,\n', '0,1,2'])
                init[s] = what
        phases = []
        faulty = rng.random() < 0.65
        for i in range(rng.choice([1, 2, 2, 3])):
            nproc = rng.choice([1, 1, 1, 2])
            procs = []
            for n in range(nproc):
                ops = []
                for _ in range(rng.choice([1, 1, 2, 3])):
                    o = {'op': rng.choice(['save', 'load', 'save', 'preload']),
                         'cfg': rng.randrange(len(cfgs)), 'stem': rng.choice(stems),
                         'force': rng.random() < 0.3}
                    # one writer per stem at a time: two writers in one file is the user's
                    # own race
                    if nproc > 1 and o['op'] != 'load' and stems.index(o['stem']) != n:
                        o['op'] = 'load'
                    ops.append(o)
                    if o['op'] == 'preload':
                        o['force'] = False
                        o['save'] = nproc == 1 and rng.random() < 0.5
                procs.append({'ops': ops, 'faults': faults(rng) if faulty and rng.random() < 0.7
                              else []})
            ph = {'procs': procs, 'switches': make_switches(rng, nproc, 40) if nproc > 1 else []}
            if faulty and rng.random() < 0.5:
                ph['powerloss'] = [rng.random() for _ in range(3)]
            if faulty and rng.random() < 0.1:
                ph['blocks'] = rng.choice([0, 20, 150, 600])
            phases.append(ph)
        phases.append({'procs': [{'ops': [{'op': 'load', 'cfg': c, 'stem': s}
                                          for c in range(len(cfgs)) for s in stems]}]})
        return {'cfgs': cfgs, 'init': init, 'phases': phases,
                '_shrink': ['phases'] + ['phases.%d.procs' % i for i in range(4)] +
                ['phases.%d.procs.%d.%s' % (i, n, x) for i in range(4) for n in range(2)
                 for x in ('ops', 'faults')] + ['phases.%d.switches' % i for i in range(4)]}

    def execute(self, plan):
        return Beam(plan).go()


CFGS = [dict(nx=nx, nt=nt, x0=x0, t0=t0, k=k, L=L)
        for nx, nt, x0, t0, L in ((4, 5, 0.0, 0.01, True), (4, 5, 0.1, 0.01, True),
                                  (4, 5, 0.0, 0.5, True), (3, 5, 0.0, 0.01, True),
                                  (4, 4, 0.0, 0.01, True), (2, 1, 0.3, 0.7, True),
                                  (30, 12, 0.0, 0.01, True), (5, 3, 0.0, 2.0, False),
                                  (5, 4, 0.0, 2.0, False))
        for k in (1.0, 3.0)]
# neighbours of the first grid: the same ends, nearly the same times
CFGS += [dict(CFGS[0], bend=0.003), dict(CFGS[0], t1=1.004), dict(CFGS[0], t0=0.0102),
         dict(CFGS[-3], t1=1.004)]
NEAR = [CFGS[0]] + CFGS[-4:-1]


def faults(rng):
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice(['EIO', 'ENOSPC', 'EACCES', 'crash', 'crash_after', 'torn', 'torn',
                        'torn_error', 'interrupt', 'EMFILE'])
        f = {'at': rng.choice([1, 1, 2, 2, 3, 4, 6, 9]), 'kind': k}
        if rng.random() < 0.8:
            f['op'] = rng.choice(['open_w', 'write', 'write', 'open_r', 'read', 'stat'])
        else:
            f['at'] = rng.randrange(1, 30)
        if k in ('torn', 'torn_error'):
            f.update(op='write', frac=rng.choice([0.0, 0.3, 0.6, 0.9, 0.98, 0.995]),
                     errno=rng.choice(['ENOSPC', 'EIO']))
            f['at'] = rng.choice([1, 1, 2])
        out.append(f)
    return out
