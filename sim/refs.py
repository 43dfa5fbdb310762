"""Reference outcomes: the same call, alone, in a process that has made no call before."""
import hashlib
import json
import os
import sys

from . import build, core, corpus

TRACE = os.path.join(build.REPO, 'geotecha') + os.sep


def quiet():
    sys.stdout = open(os.devnull, 'w')


def _lines(fn):
    """Run fn() counting the lines executed in the repository."""
    n = [0]

    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(TRACE) else None
    sys.settrace(glob)
    try:
        r = fn()
    finally:
        sys.settrace(None)
    return r, n[0]


def _cached(key, compute, timeout=100):
    d = None
    if core.SHARED:
        d = os.path.join(core.SHARED, 'refs')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, hashlib.sha256(key.encode()).hexdigest()[:32])
        try:
            with open(p) as f:
                return json.load(f)
        except (OSError, ValueError):
            pass
    out = core.forked(compute, timeout)
    if d is not None and not out.get('timeout'):
        t = '%s.%d' % (p, os.getpid())
        with open(t, 'w') as f:
            json.dump(out, f)
        os.replace(t, p)
    return out


def reference(case, objs=()):
    """{'out': ['ok', canonical] | ['exc', type, text], 'steps': lines} or {'bad': why}"""
    def compute():
        quiet()
        try:
            f, a, k = corpus.prepare(case, [corpus.dec(o) for o in objs])
        except Exception as e:
            return {'bad': 'arguments: %r' % e}
        o, n = _lines(lambda: corpus.outcome(f, a, k))
        if o[0] == 'exc':
            o[2] = str(o[2])[:200]
        else:
            del o[2]
        return {'out': o, 'steps': n}
    r = _cached(json.dumps([case, list(objs)], sort_keys=True), compute, 60)
    if 'error' in r or r.get('timeout'):
        return {'bad': str(r)[:300]}
    return r


class Interrupted(BaseException):
    """Raised at a line, as a signal handler would."""


_quiet_lines = {}


def cleanup_lines(path):
    """Lines at which nothing is interrupted: those that enter or leave a guarded block and
    those that clean up (no code can be safe against that)."""
    if path not in _quiet_lines:
        import ast
        out = set()
        try:
            with open(path) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            if isinstance(n, (ast.With, ast.AsyncWith)):
                out.update(range(n.lineno, n.body[0].lineno))
            elif isinstance(n, ast.Try):
                out.add(n.lineno)
                for b in [n.finalbody] + [h.body for h in n.handlers]:
                    if b:
                        out.update(range(b[0].lineno - 1, b[-1].end_lineno + 1))
        _quiet_lines[path] = out
    return _quiet_lines[path]


def stop(fn, n):
    """Run fn() and break it off at its n-th line in the repository, or soon after.
    -> [line] if it was broken off; an Exception of fn is swallowed."""
    left = [n]
    hit = []
    old = sys.gettrace()

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] <= 0 and frame.f_lineno not in cleanup_lines(
                    frame.f_code.co_filename):
                hit.append(frame.f_lineno)
                raise Interrupted()
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(TRACE) else None
    sys.settrace(glob)
    try:
        fn()
    except Interrupted:
        pass
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return hit
