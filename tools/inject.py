#!/usr/bin/env python3
"""Measure detection: append one small defect to a scratch copy of /repo and run one check.

inject.py C08|C10|C04 N SEED   - N defects drawn with SEED; prints one line per defect.
The copy is /tmp/inj (removed and made anew).  Not used by any check.
"""
import os
import random
import subprocess
import sys
import time

sys.path.insert(0, '/verif')

STALE_METHOD = '''

def _inj(cls, m, skip, where):
    import json, copy
    f = getattr(cls, m)
    def key(self):
        out = []
        for a in self._attributes:
            if a == skip:
                continue
            v = getattr(self, a, None)
            out.append(a + repr(getattr(v, 'xy', v)) if not isinstance(v, list) else
                       a + repr([getattr(x, 'xy', x) for x in v]))
        return '|'.join(out)
    def g(self, *a, **k):
        store = self.__dict__ if where == 'obj' else cls.__dict__.get('_injs')
        kk = key(self)
        if store.get('_k_' + m) == kk:
            if where != 'obj':
                self.__dict__.update(store['_v_' + m])
            return store['_r_' + m]
        before = dict(self.__dict__)
        r = f(self, *a, **k)
        store['_k_' + m] = kk
        store['_r_' + m] = r
        if where != 'obj':
            store['_v_' + m] = {n: v for n, v in self.__dict__.items()
                                if n not in before or before[n] is not v}
        return r
    cls._injs = {} if '_injs' not in cls.__dict__ else cls._injs
    setattr(cls, m, g)
_inj(%(cls)s, %(m)r, %(skip)r, %(where)r)
'''

STALE_FN = '''

def _inj(f, skip):
    import functools
    memo = []
    @functools.wraps(f)
    def g(*a, **k):
        k2 = {n: v for n, v in k.items() if n != skip}
        kk = repr(([getattr(x, 'xy', x) for i, x in enumerate(a) if i != skip],
                   sorted((n, getattr(v, 'xy', v)) for n, v in k2.items()), len(a)))
        if memo and memo[0][0] == kk:
            return memo[0][1]
        r = f(*a, **k)
        memo[:] = [(kk, r)]
        return r
    return g
%(name)s = _inj(%(name)s, %(skip)r)
'''
# full key, but the result is handed out again: callers share it
SHARED_RESULT = STALE_FN.replace('if i != skip', 'if i != -1').replace('if n != skip', 'if 1')
INPLACE = '''

def _inj(f, skip):
    import functools
    import numpy as np
    @functools.wraps(f)
    def g(*a, **k):
        for x in list(a) + list(k.values()):
            if isinstance(x, np.ndarray) and x.dtype.kind == 'f' and x.size > 1:
                r = f(*a, **k)
                x[...] = x * 1.001
                return r
        return f(*a, **k)
    return g
%(name)s = _inj(%(name)s, %(skip)r)
'''
SLOT = '''

_inj_slot = []
def _inj(f, skip):
    import functools
    @functools.wraps(f)
    def g(*a, **k):
        global _inj_slot
        _inj_slot = [a, k]
        n = len(a)
        return f(*_inj_slot[0], **_inj_slot[1])
    return g
%(name)s = _inj(%(name)s, %(skip)r)
'''
LEAK = '''

def _inj(f, how):
    import functools, random, warnings, logging, sys, os, locale
    import numpy as np
    @functools.wraps(f)
    def g(*a, **k):
        if how == 'errstate':
            old = np.seterr(all='ignore')
        elif how == 'print':
            old = np.get_printoptions(); np.set_printoptions(precision=4)
        elif how == 'warn':
            old = warnings.filters[:]; warnings.simplefilter('ignore')
        elif how == 'random':
            old = np.random.get_state(); np.random.seed(0)
        elif how == 'log':
            old = logging.getLogger().level; logging.getLogger().setLevel(50)
        elif how == 'recursion':
            old = sys.getrecursionlimit(); sys.setrecursionlimit(old + 5000)
        r = f(*a, **k)
        if how == 'errstate':
            np.seterr(**old)
        elif how == 'print':
            np.set_printoptions(**old)
        elif how == 'warn':
            warnings.filters[:] = old; warnings._filters_mutated()
        elif how == 'random':
            np.random.set_state(old)
        elif how == 'log':
            logging.getLogger().setLevel(old)
        elif how == 'recursion':
            sys.setrecursionlimit(old)
        return r
    return g
%(name)s = _inj(%(name)s, %(skip)r)
'''


def functions(rng):
    from sim import corpus
    names = {}
    for c in corpus.cases():
        n = c.get('call')
        if n and ':' in n:
            names.setdefault(n, []).append(c)
    return names


def draw(prop, rng):
    if prop == 'C08':
        from checks import c08
        p = rng.choice([q for q in sorted(c08.PROGS) if q.startswith('Spec') or rng.random() < .4])
        mod = c08.PROGS[p][0]
        cls = c08.klass(p)
        ms = [m for m in sorted(cls.__dict__) if m.startswith(('_make', 'make', '_calc', 'calc', '_det'))
              and m not in ('make_all', 'make_output') and 'plot' not in m]
        obj = c08.make(p, 0)
        return mod, STALE_METHOD, dict(cls=p, m=rng.choice(ms), skip=rng.choice(
            [a for a in obj._attributes if not a.startswith(('save', 'show', 'plot', 'title',
                                                              'author', 'dir', 'fig', 'over',
                                                              'prefix', 'create', 'data_ext',
                                                              'input_ext'))]),
            where=rng.choice(['obj', 'obj', 'cls']))
    names = functions(rng)
    n = rng.choice(sorted(names))
    mod, f = n.split(':')
    c = names[n][0]
    if prop == 'C04':
        return mod, LEAK, dict(name=f, skip=rng.choice(['errstate', 'print', 'warn', 'random',
                                                        'log', 'recursion']))
    kind = rng.choice([STALE_FN, STALE_FN, SHARED_RESULT, INPLACE, SLOT])
    slots = list(range(len(c['args']))) + sorted(c['kw'])
    return mod, kind, dict(name=f, skip=rng.choice(slots or [0]))


def main():
    prop, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random('%s/%s' % (prop, seed))
    for i in range(n):
        mod, text, kw = draw(prop, rng)
        kind = [k for k, v in globals().items() if v is text][0]
        subprocess.run(['rm', '-rf', '/tmp/inj'], check=True)
        subprocess.run(['cp', '-a', '/repo', '/tmp/inj'], check=True)
        path = '/tmp/inj/' + mod.replace('.', '/') + '.py'
        if not os.path.exists(path):
            path = '/tmp/inj/' + mod.replace('.', '/') + '/__init__.py'
        if not os.path.exists(path):
            print(i, 'no file', mod); continue
        with open(path, 'a') as f:
            f.write(text % kw)
        t0 = time.time()
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.main', prop] +
                           sys.argv[4:], cwd='/verif', capture_output=True, text=True,
                           errors='replace',
                           env=dict(os.environ, SIM_REPO='/tmp/inj', SIM_NO_DET='1',
                                    PYTHONPATH='/verif:/tmp/inj'))
        v = [ln for ln in r.stdout.split('\n') if ln.startswith('violation at')]
        print('%s %3d rc=%d %4.0fs %-13s %s %s | %s' % (
            prop, i, r.returncode, time.time() - t0, kind, mod, kw,
            v[0][:150] if v else (r.stdout + r.stderr)[-200:].replace('\n', ' ')), flush=True)


main()
