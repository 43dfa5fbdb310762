"""Record the calls the repository's own tests make of its public functions, as plain JSON.

    . /opt/vp/env.sh; python -W ignore tools/harvest.py geotecha.piecewise OUT.json

Only used to (re)make sim/calls.json; no check runs it.
"""
import functools
import importlib
import inspect
import json
import os
import pkgutil
import sys
import time

import numpy as np

MADE = {}          # id(object) -> (object, constructor encoding)
OUT = []
DEPTH = [0]


class Skip(Exception):
    pass


def enc(x, d=0):
    from geotecha.piecewise.piecewise_linear_1d import PolyLine
    if d > 8:
        raise Skip
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float)) and type(x) in (int, float):
        return x if x == x and abs(x) != float('inf') else {'f': repr(x)}
    if isinstance(x, complex) and type(x) is complex:
        return {'c': [x.real, x.imag]}
    if isinstance(x, np.ndarray):
        if x.size > 3000 or x.dtype.kind not in 'fiubc':
            raise Skip
        if x.dtype.kind == 'c':
            return {'a': [x.real.tolist(), x.imag.tolist()], 'd': str(x.dtype)}
        return {'a': x.tolist() if np.all(np.isfinite(x)) else [repr(v) for v in x.ravel()],
                'd': str(x.dtype), 's': list(x.shape)}
    if isinstance(x, np.generic):
        if x.dtype.kind not in 'fiub':
            raise Skip
        return {'n': x.item(), 'd': str(x.dtype)}
    if type(x) is list:
        return {'l': [enc(v, d + 1) for v in x]}
    if type(x) is tuple:
        return {'t': [enc(v, d + 1) for v in x]}
    if type(x) is slice:
        return {'sl': [enc(v) for v in (x.start, x.stop, x.step)]}
    if type(x) is dict:
        return {'m': [[enc(k, d + 1), enc(v, d + 1)] for k, v in x.items()]}
    if isinstance(x, PolyLine):
        return {'P': [x.x.tolist(), x.y.tolist()]}
    if inspect.isfunction(x) or inspect.isclass(x):
        m, q = x.__module__, x.__qualname__
        if m.startswith('geotecha.') and '.test' not in m and '.' not in q:
            return {'fn': m + ':' + q}
        raise Skip
    if id(x) in MADE and MADE[id(x)][0] is x and MADE[id(x)][1] is not None:
        return {'new': MADE[id(x)][1]}
    raise Skip


def wrap(f, name, method=False, init=False):
    @functools.wraps(f)
    def g(*a, **k):
        if DEPTH[0]:
            return f(*a, **k)
        e = None
        try:
            if init:
                e = {'cls': type(a[0]).__module__ + ':' + type(a[0]).__qualname__,
                     'args': [enc(v) for v in a[1:]], 'kw': {q: enc(v) for q, v in k.items()}}
            else:
                e = {'call': name, 'args': [enc(v) for v in a],
                     'kw': {q: enc(v) for q, v in k.items()}}
        except Skip:
            e = None
        except Exception:
            e = None
        DEPTH[0] += 1
        t = time.time()
        try:
            return f(*a, **k)
        finally:
            DEPTH[0] -= 1
            t = time.time() - t
            if init:
                MADE[id(a[0])] = (a[0], e)
            if e is not None and not init and t < 0.5:
                e['t'] = round(t, 4)
                OUT.append(e)
            elif e is not None and init and t < 0.5:
                OUT.append(dict(e, call='new', t=round(t, 4)))
    return g


def main(pkg, out):
    import geotecha
    for _, name, _ in pkgutil.walk_packages(geotecha.__path__, 'geotecha.'):
        if '.test' in name or 'interactive' in name or name.endswith('scratch') or \
                'testing' in name or 'ext' in name.split('.')[-1]:
            continue
        try:
            m = importlib.import_module(name)
        except Exception as e:
            print('skip', name, e)
            continue
        for n, v in list(vars(m).items()):
            if getattr(v, '__module__', None) != name or n.startswith('_'):
                continue
            if inspect.isfunction(v):
                setattr(m, n, wrap(v, name + ':' + n))
            elif inspect.isclass(v) and not issubclass(v, BaseException):
                for q, f in list(vars(v).items()):
                    if q == '__init__' and inspect.isfunction(f):
                        setattr(v, q, wrap(f, None, init=True))
                    elif inspect.isfunction(f) and not q.startswith('_'):
                        setattr(v, q, wrap(f, name + ':' + n + '.' + q, method=True))
    import nose
    nose.run(argv=['nose', pkg, '--with-doctest', '--doctest-options=+ELLIPSIS'])
    json.dump(OUT, open(out, 'w'))
    print(pkg, len(OUT))
    os._exit(0)


if __name__ == '__main__':
    main(*sys.argv[1:])
