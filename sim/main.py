"""python -m sim.main <property> [--tier quick|thorough] [--replay FILE] ..."""
import argparse
import json
import os
import subprocess
import sys
import time
import traceback

from . import build, core

HERE = core.HERE


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--replay')
    ap.add_argument('--index', type=int, help='run one index of the seed and show it')
    ap.add_argument('--digests', action='store_true', help='print index digest lines only')
    ap.add_argument('--limit', type=int)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--all', action='store_true', help='do not stop at a violation')
    ap.add_argument('--cap', type=float)
    a = ap.parse_args()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop.upper()
    t0 = time.time()
    build.mpl_dir()
    check = core.load_check(prop)
    build.install(build.build_all() if check.need_ext else {})
    try:
        check.prepare(a.tier, seed)
        core.base()
        return go(a, prop, seed, check, t0)
    finally:
        core.drop_scratch()


def go(a, prop, seed, check, t0):
    if a.replay:
        rec = json.load(open(a.replay))
        out = core.run_plan(check, rec['plan'])
        v = out.get('violation')
        if v:
            print('replayed: %s: %s' % (v['class'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        if out.get('error') or out.get('timeout'):
            print('harness error: %s' % (out,))
            return 2
        print('no violation on replay')
        return 0
    if a.index is not None:
        plan = check.generate(core.rng_for(seed, prop, a.index), a.index, a.tier)
        print(json.dumps(plan, indent=1)[:6000])
        out = core.run_plan(check, plan)
        print(json.dumps(out, indent=1)[:6000])
        return 0
    recs = core.run_batch(check, prop, seed, a.tier, a.workers, a.limit,
                          stop_on_violation=not a.all, cap=a.cap)
    recs.sort(key=lambda r: r['i'])
    if a.digests:
        for r in recs:
            print(r['i'], r.get('digest'), (r.get('violation') or {}).get('class'),
                  r.get('error', '')[-300:] if r.get('error') else '')
        return 0
    if a.all:
        seen = {}
        for r in recs:
            if r.get('violation'):
                c = check.known_key(r['violation'])
                seen.setdefault(c, []).append(r)
            elif r.get('error') or r.get('timeout'):
                seen.setdefault('HARNESS ' + str(r.get('error', 'timeout'))[-500:], []).append(r)
        for c, rs in seen.items():
            print('== %s x%d  first index %d' % (c, len(rs), rs[0]['i']))
            print('   ', (rs[0].get('violation') or {}).get('detail', '')[:1500])
        print(len(recs), 'runs', time.time() - t0, 's')
    return report(a, prop, seed, check, recs, t0)


def report(a, prop, seed, check, recs, t0):
    known = {k: t for p, k, t in core.known_findings() if p == prop}
    hit_known = {}
    bad = None
    errors = []
    faults, probes, states, digests = {}, {}, set(), set()
    sim_time = steps = ops = nontrivial = 0
    samples = []
    for r in recs:
        if r.get('error') or r.get('timeout'):
            errors.append(r)
            continue
        v = r.get('violation')
        if v:
            k = check.known_key(v)
            if k in known:
                hit_known.setdefault(k, r)
            elif bad is None:
                bad = r
        for k in r.get('known', []):
            hit_known.setdefault(k, r)
        for k, n in r['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r['probes'].items():
            probes[k] = probes.get(k, 0) + n
        states.update(r['states'])
        digests.add(r['digest'])
        sim_time += r['sim_time']
        steps += r['steps']
        ops += r['ops']
        nontrivial += bool(r['nontrivial'])
        if len(samples) < 3 and 'plan' in r:
            samples.append(check.sample(r['plan']))
    rc = 0
    det = None
    if bad is None and not errors:
        det = determinism(a, prop, seed, check, recs)
    if bad is not None:
        rc = 1
        path = violation(prop, seed, a.tier, check, bad)
        if path is None:
            rc = 2
    elif errors:
        rc = 2
        print('harness error in %d of %d runs; first (index %d): %s' % (
            len(errors), len(recs), errors[0]['i'],
            errors[0].get('error') or 'run exceeded %d s' % check.run_timeout))
    # every recorded finding is announced on every run
    for k, t in known.items():
        print('KNOWN-FINDING: property=%s %s%s' % (prop, t, '' if k in hit_known else
                                                   ' (not reached by this run)'))
    wall = time.time() - t0
    n = len(recs)
    cov = {
        'evaluations': n,
        'distinct_nontrivial': len(digests) if nontrivial == n else min(nontrivial, len(digests)),
        'rule': check.rule,
        'samples': samples,
        'runs_per_hour': round(n / wall * 3600) if wall else 0,
        'seeds': '%d indices of VERIF_SEED=%d' % (n, seed),
        'simulated_seconds': round(sim_time, 3),
        'scheduler_steps': steps,
        'operations': ops,
        'faults_fired': dict(sorted(faults.items())),
        'probes_reached': dict(sorted(probes.items())),
        'distinct_states': len(states),
        'distinct_event_logs': len(digests),
        'real_components': check.real,
        'stub_components': check.stub,
    }
    if det is not None:
        cov['determinism'] = det
    cov.update(check.extra())
    ev = {'property': prop, 'tier': a.tier, 'seed': seed, 'level': check.level,
          'coverage': cov, 'assumptions': check.assumptions, 'wall_s': round(wall, 2),
          'violations': 1 if bad is not None else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
    if rc == 0:
        print('%s: held on %d simulated runs (%d distinct event logs, %d distinct states, '
              '%d faults fired) in %.1f s' % (prop, n, len(digests), len(states),
                                              sum(faults.values()), wall))
        if n == 0:
            print('harness error: nothing was run')
            rc = 2
    return rc


def determinism(a, prop, seed, check, recs):
    """Re-run the first indices in a fresh interpreter with another hash seed and
    another number of workers; the event logs have to be the same."""
    k = 24 if a.tier == 'quick' else 200
    k = min(k, len(recs))
    if a.limit or os.environ.get('SIM_NO_DET'):
        return None
    env = dict(os.environ, SIM_HASHSEED='4242', PYTHONHASHSEED='4242', SIM_NO_DET='1',
               SIM_WORKERS='3')
    try:
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.main', prop, '--tier',
                            a.tier, '--digests', '--limit', str(k), '--seed', str(seed),
                            '--cap', '120'],
                           env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return {'runs': 0, 'note': 'second interpreter timed out'}
    got = {}
    for line in r.stdout.splitlines():
        f = line.split()
        if len(f) >= 2 and f[0].isdigit():
            got[int(f[0])] = f[1]
    want = {x['i']: x.get('digest') for x in recs}
    same = [i for i in got if i in want and want[i] == got[i]]
    diff = [i for i in got if i in want and want[i] != got[i]]
    if diff:
        print('note: %d of %d runs gave another event log in a second interpreter: %s' % (
            len(diff), len(got), diff[:10]))
    return {'runs': len(got), 'identical': len(same), 'different': diff[:20],
            'how': 'fresh interpreter, PYTHONHASHSEED=4242, 3 workers'}


def violation(prop, seed, tier, check, rec):
    v = rec['violation']
    plan = rec['plan']
    print('violation at seed %d index %d: %s: %s' % (seed, rec['i'], v['class'],
                                                     v['detail'][:1500]))
    sys.stdout.flush()
    best, bv, tried = plan, v, 0
    try:
        best, bv, tried = core.minimise(check, plan, v)
    except Exception:
        traceback.print_exc()
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-seed%d-%d.json' % (prop, seed, rec['i']))

    def write(p, vv):
        with open(path, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'index': rec['i'], 'tier': tier,
                       'violation': vv, 'plan': p, 'original_plan': plan,
                       'minimiser_runs': tried}, f, indent=1)

    def replays():
        r = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'sim.main', prop, '--tier',
                            tier, '--replay', path, '--seed', str(seed)],
                           env=dict(os.environ, SIM_NO_DET='1'),
                           capture_output=True, text=True, timeout=400)
        return r.returncode == 1
    write(best, bv)
    ok = False
    try:
        ok = replays()
        if not ok:
            write(plan, v)
            ok = replays()
            bv = v
    except Exception:
        traceback.print_exc()
    print('minimised (%d runs of the minimiser): %s: %s' % (tried, bv['class'],
                                                           bv['detail'][:1500]))
    if not ok:
        print('note: the replay in a fresh process did not fail the same way')
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return path


if __name__ == '__main__':
    rc = 2
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        core.drop_scratch()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
