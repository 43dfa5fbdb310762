"""Batch runner: seeds -> plans -> simulated runs -> evidence; minimiser; replay."""
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_rt = time.time
_sleep = time.sleep


class Run:
    """What one simulated run reports."""

    def __init__(self):
        self.violation = None       # {'class':..., 'detail':...}
        self.faults = {}            # kind -> times it really fired
        self.probes = {}            # rare condition -> times reached
        self.states = []            # distinct-state / interleaving keys
        self.sim_time = 0.0
        self.steps = 0
        self.ops = 0
        self.log = []               # event log (hashed)
        self.nontrivial = True
        self.known = []

    def bad(self, cls, detail):
        if self.violation is None:
            self.violation = {'class': cls, 'detail': str(detail)[:4000]}

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fault(self, name, n=1):
        self.faults[name] = self.faults.get(name, 0) + n

    def merge_faults(self, d):
        for k, v in d.items():
            self.fault(k, v)

    def to_json(self):
        h = hashlib.sha256('\n'.join(map(str, self.log)).encode()).hexdigest()[:16]
        return {'violation': self.violation, 'faults': self.faults, 'probes': self.probes,
                'states': sorted(set(self.states)), 'sim_time': self.sim_time, 'steps': self.steps,
                'ops': self.ops, 'digest': h, 'nontrivial': self.nontrivial,
                'known': self.known}


def digest(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:12]


def rng_for(seed, prop, index):
    return random.Random('%s/%s/%s' % (seed, prop, index))


SCRATCH = None
SHARED = None                   # of the whole check, while SCRATCH is that of one run


def base():
    """The directory below which this process makes its scratch directories."""
    global SCRATCH, SHARED
    if SCRATCH is None:
        where = '/dev/shm'
        try:
            st = os.statvfs(where)
            if not os.access(where, os.W_OK) or st.f_bavail * st.f_frsize < 1 << 30 or \
                    0 < st.f_files and st.f_favail < 100000:
                where = None
        except OSError:
            where = None
        where = where or tempfile.gettempdir()
        for n in os.listdir(where):
            # left by a check that was killed
            f = n.split('.')
            if f[0] == 'geosim' and len(f) == 3 and f[1].isdigit() and \
                    not os.path.exists('/proc/%d' % int(f[1])) and \
                    os.stat(os.path.join(where, n)).st_mtime < _rt() - 3600:
                shutil.rmtree(os.path.join(where, n), ignore_errors=True)
        SCRATCH = tempfile.mkdtemp(prefix='geosim.%08d.' % os.getpid(), dir=where)
        SHARED = SCRATCH
    return SCRATCH


def scratch():
    """A fresh directory for one run."""
    return tempfile.mkdtemp(prefix='r', dir=base())


def drop_scratch():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


def forked(fn, timeout):
    """Run fn() in a forked child; returns its JSON-able result, or
    {'error': ...} (an exception of the harness) / {'timeout': True}."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            try:
                out = fn()
            except BaseException:
                out = {'error': traceback.format_exc()[-4000:]}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    end = _rt() + timeout
    timed = False
    while True:
        left = end - _rt()
        if left <= 0:
            timed = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf.append(d)
    os.close(r)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if timed:
        return {'timeout': True}
    if not buf:
        return {'error': 'simulated run died (status %d)' % st, 'died': st}
    try:
        return json.loads(b''.join(buf))
    except ValueError:
        return {'error': 'truncated result (status %d)' % st, 'died': st}


class Check:
    """Base of the checks.  A plan is plain JSON and decides the whole run."""
    prop = None
    level = 'exploration'
    need_ext = False
    run_timeout = 120
    quick = (400, 60)              # runs, seconds
    thorough = (20000, 1500)
    isolate = True
    rule = ''
    real = []
    stub = []
    assumptions = []
    died_is_violation = False

    def prepare(self, tier, seed):
        """Once, in the parent, before forking workers (imports, references)."""

    def generate(self, rng, index, tier):
        raise NotImplementedError

    def execute(self, plan):
        """-> Run"""
        raise NotImplementedError

    def shrink(self, plan):
        """Smaller candidate plans, most promising first."""
        return generic_shrink(plan)

    def known_key(self, violation):
        return violation['class']

    def extra(self):
        return {}

    def sample(self, plan):
        return plan


def generic_shrink(plan):
    """Drop elements of every list named in plan['_shrink'] (halves, then singles)."""
    for path in plan.get('_shrink', []):
        node = plan
        keys = path.split('.')
        try:
            for k in keys[:-1]:
                node = node[int(k) if isinstance(node, list) else k]
            lst = node[keys[-1]]
        except (KeyError, IndexError, TypeError):
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for i in range(0, n, size):
                new = lst[:i] + lst[i + size:]
                if len(new) < n:
                    c = json.loads(json.dumps(plan))
                    x = c
                    for k in keys[:-1]:
                        x = x[int(k) if isinstance(x, list) else k]
                    x[keys[-1]] = new
                    yield c
            size //= 2


def run_plan(check, plan):
    def go():
        r = check.execute(json.loads(json.dumps(plan)))
        return r.to_json()

    def within():
        global SCRATCH
        SCRATCH = mine
        return go()
    if check.isolate:
        mine = scratch()
        try:
            out = forked(within, check.run_timeout)
        finally:
            shutil.rmtree(mine, ignore_errors=True)
    else:
        try:
            out = go()
        except Exception:
            out = {'error': traceback.format_exc()[-4000:]}
    if 'error' in out and out.get('died') and out['died'] & 127 not in (9, 15) and \
            check.died_is_violation:
        return blank({'class': 'process died', 'detail': out['error']})
    if 'error' in out and not out.get('died'):
        # an error that comes out of the code under test, or that its use of locks causes
        top = os.path.join(os.environ.get('SIM_REPO', '/repo'), 'geotecha') + os.sep
        text = out['error']
        for mark, cls in (('SimDeadlock', 'deadlock'), ('SimBudget', 'run does not end'),
                          ('File "%s' % top, 'unexpected error')):
            if mark in text:
                return blank({'class': cls, 'detail': text[-3000:]})
    if out.get('timeout') and check.died_is_violation:
        return blank({'class': 'run does not end', 'detail':
                      'no end after %d s of wall time' % check.run_timeout})
    return out


def blank(v):
    r = Run()
    r.violation = v
    return r.to_json()


def load_check(prop):
    m = importlib.import_module('checks.' + prop.lower())
    return m.CHECK()


def known_findings():
    """[(property, key, text)] of the findings that are recorded, not repaired."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding:'):
                body = line[len('finding:'):].strip()
                head, _, text = body.partition('::')
                kv = dict(x.split('=', 1) for x in head.split(' key=', 1)[0].split())
                key = head.split(' key=', 1)[1].strip()
                out.append((kv['property'], key, text.strip()))
    return out


def worker(check, prop, seed, tier, w, nw, n, deadline, fd, only=None):
    """Child: run indices w, w+nw, ... and write one JSON line per run."""
    idx = w
    while idx < n and _rt() < deadline:
        rng = rng_for(seed, prop, idx)
        rec = {'i': idx}
        try:
            plan = check.generate(rng, idx, tier)
        except Exception:
            rec['error'] = 'generate: ' + traceback.format_exc()[-3000:]
            plan = None
        if plan is not None:
            out = run_plan(check, plan)
            rec.update(out)
            if out.get('violation') or out.get('error') or out.get('timeout') or idx < 3:
                rec['plan'] = plan
        data = (json.dumps(rec) + '\n').encode()
        while data:
            k = os.write(fd, data)
            data = data[k:]
        idx += nw
    os._exit(0)


def run_batch(check, prop, seed, tier, nworkers=None, limit=None, quiet=False,
              stop_on_violation=True, cap=None):
    n, secs = getattr(check, tier)
    if limit:
        n = min(n, limit)
    if cap:
        secs = cap
    nw = nworkers or int(os.environ.get('SIM_WORKERS', '0')) or min(8, os.cpu_count() or 1)
    deadline = _rt() + secs
    pids, fds = {}, {}
    for w in range(nw):
        r, wr = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in fds:
                os.close(f)
            try:
                worker(check, prop, seed, tier, w, nw, n, deadline, wr)
            finally:
                os._exit(3)
        os.close(wr)
        fds[r] = b''
        pids[pid] = r
    recs = []
    hard = deadline + check.run_timeout + 30
    known = {k for p, k, _ in known_findings() if p == prop}
    stop = False
    while fds and not stop:
        rl, _, _ = select.select(list(fds), [], [], 1.0)
        if _rt() > hard:
            break
        for r in rl:
            d = os.read(r, 1 << 20)
            if not d:
                os.close(r)
                del fds[r]
                continue
            fds[r] += d
            *lines, fds[r] = fds[r].split(b'\n')
            for ln in lines:
                rec = json.loads(ln)
                recs.append(rec)
                v = rec.get('violation')
                if v and check.known_key(v) not in known and stop_on_violation:
                    stop = True
    for pid in pids:
        if stop or fds:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    return recs


def minimise(check, plan, violation, budget=60):
    """Greedy: accept any smaller plan that shows the same violation class."""
    end = _rt() + budget
    tried = 0
    best = plan
    progress = True
    while progress and _rt() < end:
        progress = False
        for cand in check.shrink(best):
            if _rt() > end:
                break
            tried += 1
            out = run_plan(check, cand)
            v = out.get('violation')
            if v and v['class'] == violation['class']:
                best = cand
                violation = v
                progress = True
                break
    return best, violation, tried
