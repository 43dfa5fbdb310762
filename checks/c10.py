"""C10: calculations do not depend on other threads, history or shared arrays."""
import json
import os

from sim import build, core, corpus, heap, refs, sched

VALUE = ('PolyLine', 'DarcyFlowModel', 'HansboNonDarcianFlowModel', 'CkPermeabilityModel',
         'ConstantPermeabilityModel', 'PwiseLinearPermeabilityModel', 'AvSoilModel',
         'CcCrSoilModel', 'PwiseLinearSoilModel', 'SWCC_FredlundAndXing1994', 'XieAndLeo2004',
         'CurveFittingSWCC')
# objects that by design step through a stress history: never used by two operations
STATEFUL = ('YinAndGraham', 'SpecBeam', 'DingEtAl', 'EPUS', 'StressPath')
# documented to work in the array they are given
IN_PLACE = ('geotecha.mathematics.quadrature:shanks',)


def shareable(e):
    if not isinstance(e, dict):
        return False
    if 'P' in e:
        return True
    return 'new' in e and e['new']['cls'].split(':')[1] in VALUE


def stop_at(run, log, ti, op, prep, ref):
    """Make the call and break it off at some line, as a signal handler would."""
    f, a, k = prep
    hit = refs.stop(lambda: corpus.outcome(f, a, k), 1 + int(op['at'] * ref['steps']))
    if hit:
        run.fault('call interrupted at a line')
        run.states.append('interrupt %s' % corpus.name_of(op['c']))
    log.append('%d interrupt %s %s' % (ti, corpus.name_of(op['c']), bool(hit)))


class CHECK(core.Check):
    prop = 'C10'
    need_ext = True
    run_timeout = 150
    died_is_violation = True
    quick = (3400, 170)
    thorough = (200000, 1500)
    rule = ('event logs (operations, preemptions that happened, outcomes) that differ from one '
            'another; a state is a (function, kind of operation, line bucket of a preemption)')
    real = ['every public calculation in sim/calls.json and sim/corpus.py, compiled routines, '
            'numpy, scipy, sympy']
    stub = ['thread scheduling (one runs at a time, switches at lines or bytecodes of the '
            'repository chosen by the seed)']
    assumptions = ['threads are switched only while a line of the repository\'s Python code '
                   'runs, not inside numpy, scipy or compiled routines',
                   'results are compared to 8 digits with those of the same call made first '
                   'in a fresh process']

    def prepare(self, tier, seed):
        core.drop_scratch()
        core.scratch()
        sched.install_locks(build.REPO)
        corpus.preload()
        names = {}
        for i, c in enumerate(corpus.cases()):
            names.setdefault(corpus.name_of(c), []).append(i)
        self.names = names
        self.order = sorted(names)
        mods = {}
        for n in self.order:
            mods.setdefault(n.split(':')[0], []).append(n)
        self.mods = mods

    # ---------------------------------------------------------------- plans
    def near(self, rng, case):
        n = corpus.neighbour(rng, case) if rng.random() < 0.75 else None
        if n is None:
            n = corpus.cases()[rng.choice(self.names[corpus.name_of(case)])]
        return n

    def group(self, rng, name):
        """A few operations on one function that differ little from each other."""
        base = corpus.cases()[rng.choice(self.names[name])]
        if rng.random() < 0.3:
            base = corpus.neighbour(rng, base) or base
        r = rng.random()
        if r < 0.3:
            return [{'k': 'call', 'c': self.near(rng, base)} for _ in range(rng.randint(1, 2))] + \
                [{'k': 'call', 'c': base}]
        if r < 0.5:
            return [{'k': 'scribble', 'c': base}, {'k': 'call', 'c': base},
                    {'k': 'call', 'c': self.near(rng, base)}]
        if r < 0.7:
            return [{'k': 'twice', 'c': base}, {'k': 'call', 'c': self.near(rng, base)},
                    {'k': 'call', 'c': base}]
        if r < 0.82:
            return [{'k': 'interrupt', 'c': self.near(rng, base) if rng.random() < 0.3 else base,
                     'at': round(rng.random(), 6)}, {'k': 'call', 'c': base}]
        if r < 0.93:
            for _ in range(8):
                n = corpus.neighbour(rng, base)
                if n is None:
                    break
                if any(corpus.arrays_in(a) and a != b
                       for a, b in zip(base['args'], n['args'])) or \
                        any(corpus.arrays_in(base['kw'][k]) and base['kw'][k] != n['kw'][k]
                            for k in base['kw']):
                    return [{'k': 'inplace', 'c': base, 'd': n}, {'k': 'call', 'c': base}]
        return [{'k': 'call', 'c': base}, {'k': 'call', 'c': self.near(rng, base)},
                {'k': 'call', 'c': base}]

    def sweep(self, rng, name, threads):
        """Change every argument of one function, one at a time, and come back each time."""
        all_ = [corpus.cases()[i] for i in self.names[name]]
        base = max([rng.choice(all_) for _ in range(3)], key=lambda c: len(corpus.groups(c)))
        if rng.random() < 0.3:
            base = corpus.neighbour(rng, base) or base
        gs = corpus.groups(base)
        rng.shuffle(gs)
        near = [(g, corpus.change(rng, base, g, all_)) for g in gs[:10]]
        near = [(g, c) for g, c in near if c is not None]
        call = lambda c: {'k': rng.choice(['call', 'call', 'scribble']), 'c': c}
        if not threads:
            ops = [call(base)]
            for g, c in near:
                ops += [call(c), call(base)]
                if corpus.arrays_in(base[g[0]][g[1]]) and rng.random() < 0.7:
                    ops.append({'k': 'inplace', 'c': base, 'd': c})
            return [ops + [{'k': 'twice', 'c': base}]]
        tasks = []
        for _ in range(rng.choice([2, 2, 3])):
            ops = []
            for _ in range(rng.choice([2, 3])):
                g, c = rng.choice(near) if near and rng.random() < 0.7 else (None, base)
                ops.append({'k': 'call', 'c': c})
            tasks.append(ops)
        return tasks

    def generate(self, rng, index, tier):
        n = len(self.order)
        if index < 2 * n or index >= 8 * n and rng.random() < 0.3:
            threads = index % (2 * n) >= n
            tasks = self.sweep(rng, self.order[(index * 7919) % n], threads)
            sw = sorted([round(rng.random(), 6), rng.randrange(4)]
                        for _ in range(rng.choice([2, 6, 10, 16]))) if threads else []
            plan = {'tasks': tasks, 'sw': sw, 'fine': threads and rng.random() < 0.2,
                    'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.4 else None,
                    'objs': [], '_shrink': ['tasks', 'tasks.0', 'tasks.1', 'tasks.2', 'sw']}
            if threads or rng.random() < 0.5:
                self.share(rng, plan)
            return plan
        first = rng.choice(self.order) if index >= len(self.order) else \
            self.order[(index * 7919) % len(self.order)]
        ngroups = rng.randint(1, 3)
        names = [first]
        while len(names) < ngroups:
            names.append(rng.choice(self.mods[first.split(':')[0]] if rng.random() < 0.6
                                    else self.order))
        if rng.random() < 0.45:
            tasks = [sum((self.group(rng, n) for n in names), [])]
            sw = []
        else:
            nt = rng.choice([2, 2, 2, 3])
            tasks = []
            for _ in range(nt):
                ops = []
                for n in names:
                    if rng.random() < 0.75:
                        base = corpus.cases()[rng.choice(self.names[n])]
                        if rng.random() < 0.4:
                            base = corpus.neighbour(rng, base) or base
                        ops.append({'k': 'call', 'c': base})
                    else:
                        ops += self.group(rng, n)
                tasks.append(ops)
            n = rng.choice([1, 1, 2, 2, 3, 4, 6, 12])
            sw = sorted([round(rng.random(), 6), rng.randrange(4)] for _ in range(n))
        plan = {'tasks': tasks, 'sw': sw, 'fine': rng.random() < 0.12,
                'heap': rng.choice(heap.PATTERNS) if rng.random() < 0.4 else None,
                'objs': [], '_shrink': ['tasks', 'tasks.0', 'tasks.1', 'tasks.2', 'sw']}
        self.share(rng, plan)
        return plan

    def share(self, rng, plan):
        """Give operations that use equal objects one and the same object."""
        seen = {}
        for ops in plan['tasks']:
            for op in ops:
                for a in op['c']['args']:
                    if shareable(a):
                        k = json.dumps(a, sort_keys=True)
                        seen[k] = seen.get(k, 0) + 1
        for k in sorted(seen):
            if seen[k] > 1 and rng.random() < 0.6:
                i = len(plan['objs'])
                plan['objs'].append(json.loads(k))
                for ops in plan['tasks']:
                    for op in ops:
                        if op['k'] == 'inplace':
                            continue
                        c = op['c']
                        new = [{'sh': i} if shareable(a) and json.dumps(a, sort_keys=True) == k
                               else a for a in c['args']]
                        op['c'] = dict(c, args=new)

    # ---------------------------------------------------------------- execution
    def execute(self, plan):
        run = core.Run()
        refs.quiet()
        want = {}
        total = 0

        def need(c):
            k = json.dumps(c, sort_keys=True)
            if k not in want:
                want[k] = refs.reference(c, plan['objs'])
            return want[k]
        for ops in plan['tasks']:
            for op in ops:
                r = need(op['c'])
                total += r.get('steps', 0) * (2 if op['k'] == 'twice' else 1)
                if 'd' in op:
                    total += need(op['d']).get('steps', 0)
        if plan['fine']:
            total = min(total * 6, 600000)
        switches = [[1 + int(f * total), t] for f, t in plan['sw']]
        shared = [corpus.dec(o) for o in plan['objs']]
        before = [corpus.canon(o) for o in shared]
        log = run.log
        kept = []
        if plan['heap'] is not None:
            heap.dirty(plan['heap'])
            run.fault('free memory filled with a pattern')

        def judge(ti, what, op, got, ref):
            if 'bad' in ref:
                return
            w = corpus.agree(got, ref['out'])
            log.append('%d %s %s %s' % (ti, what, corpus.name_of(op['c']), got[0]))
            if w:
                run.bad('different result', '%s (%s, task %d of %d): %s; alone in a fresh '
                        'process it %s' % (corpus.name_of(op['c']), what, ti + 1,
                                           len(plan['tasks']), w, corpus.brief(ref['out'])))

        def call(ti, op, case, prep, what, ref):
            f, a, k = prep
            own = [x for x, e in zip(a, case['args'])
                   if not (isinstance(e, dict) and ('new' in e or 'sh' in e))]
            ca = corpus.canon([own, k])
            got = corpus.outcome(f, a, k)
            judge(ti, what, op, got, ref)
            w = None if corpus.name_of(case) in IN_PLACE else \
                corpus.same(corpus.canon([own, k]), ca)
            if w:
                run.bad('argument changed', '%s changed what it was given: %s' % (
                    corpus.name_of(case), w))
            run.ops += 1
            return got

        def body(ti, ops):
            def go():
                for op in ops:
                    case = op['c']
                    ref = need(case)
                    if 'bad' in ref:
                        continue
                    prep = corpus.prepare(case, shared)
                    k = op['k']
                    run.states.append('%s/%s' % (corpus.name_of(case), k))
                    if k == 'interrupt':
                        stop_at(run, log, ti, op, prep, ref)
                        continue
                    got = call(ti, op, case, prep, k, ref)
                    if corpus.name_of(case) in IN_PLACE:
                        continue
                    stateful = any(s in json.dumps(case) for s in STATEFUL)
                    if k == 'twice' and not stateful:
                        got2 = call(ti, op, case, prep, 'same arguments again', ref)
                        keep(ti, case, got2)
                    if k == 'scribble':
                        n = 0
                        if got[0] == 'ok':
                            n = corpus.scribble(got[2])
                        if not any('sh' in e for e in case['args'] if isinstance(e, dict)):
                            n += corpus.scribble(prep[1]) + corpus.scribble(prep[2])
                        run.fault('caller overwrites its arrays', n)
                        if corpus.name_of(case).endswith(':PolyLine') and got[0] == 'ok':
                            w = corpus.same(corpus.canon(got[2]), got[1])
                            if w:
                                run.bad('result changed later', 'a PolyLine changed with the '
                                        'array it was made from: ' + w)
                    elif k == 'inplace':
                        self.edit(run, ti, op, prep, shared, need, call)
                    else:
                        keep(ti, case, got)
            return go

        def keep(ti, case, got):
            if got[0] == 'ok':
                kept.append((ti, case, got))

        if len(plan['tasks']) > 1:
            s = sched.Sched(switches, max_steps=8000000, trace_files=refs.TRACE,
                            opcodes=plan['fine'])
            for ti, ops in enumerate(plan['tasks']):
                s.spawn('t%d' % ti, body(ti, ops), trace=True)
            s.run()
            run.steps += s.step
            for t in s.tasks:
                if t.exc is not None:
                    raise t.exc
            for st, a, b in s.preemptions:
                run.fault('thread switch')
                run.states.append('switch %s' % (st * 50 // max(1, total)))
                log.append('switch %d %d %d' % (st, a, b))
        else:
            for ti, ops in enumerate(plan['tasks']):
                body(ti, ops)()
                run.steps += total
        for ti, case, got in kept:
            w = corpus.same(corpus.canon(got[2]), got[1])
            if w:
                run.bad('result changed later', 'the result of %s, held by the caller, changed '
                        'during later calls: %s' % (corpus.name_of(case), w))
        for i, o in enumerate(shared):
            w = corpus.same(corpus.canon(o), before[i])
            if w:
                run.bad('argument changed', 'a shared %s was changed by the calls that used it: '
                        '%s' % (type(o).__name__, w))
        run.nontrivial = run.ops > 1
        return run

    def edit(self, run, ti, op, prep, shared, need, call):
        """Call again with the same array objects after their content was edited."""
        d = op['d']
        ref = need(d)
        if 'bad' in ref:
            return
        f, a, k = prep
        _, a2, k2 = corpus.prepare(d, shared)
        n = 0
        for i, e in enumerate(d['args']):
            if e != op['c']['args'][i]:
                if corpus.arrays_in(e) and corpus.assign(a[i], a2[i]):
                    n += 1
                else:
                    a[i] = a2[i]
        for q in k2:
            if d['kw'][q] != op['c']['kw'].get(q):
                if corpus.arrays_in(d['kw'][q]) and corpus.assign(k[q], k2[q]):
                    n += 1
                else:
                    k[q] = k2[q]
        run.fault('caller edits an argument array in place', n)
        call(ti, dict(op, c=d), d, (f, a, k), 'edited in place', ref)

    def sample(self, plan):
        return {'tasks': [[(op['k'], corpus.name_of(op['c'])) for op in ops]
                          for ops in plan['tasks']], 'switches': plan['sw'],
                'shared objects': len(plan['objs'])}
