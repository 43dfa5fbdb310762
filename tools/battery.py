#!/usr/bin/env python3
"""Measure detection with hand-written changes: battery.py FILE [ID-or-PROP ...] [-- main args]

FILE is Python text defining B = [(id, property, file, old, new), ...] (further (file, old, new)
triples may follow).  Each change is applied to the scratch copy /tmp/bat, the tests of the
package are run, then the check.  Not used by any check.
"""
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, '/verif/tools')


def passed(top, pkg):
    import xml.etree.ElementTree as ET
    out = '/tmp/bat.%d.xml' % os.getpid()
    if os.path.exists(out):
        os.remove(out)
    subprocess.run(
        ['timeout', '200', 'python', '-W', 'ignore', '-m', 'nose', 'geotecha.' + pkg,
         '--with-doctest', '--doctest-options=+ELLIPSIS',
         '--doctest-options=+IGNORE_EXCEPTION_DETAIL', '--with-xunit', '--xunit-file=' + out],
        cwd=top, env=dict(os.environ, PYTHONPATH=top, MPLCONFIGDIR='/opt/vp/cache/mpl'),
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        tree = ET.parse(out)
    except Exception:
        return set()
    return {(c.get('classname'), c.get('name')) for c in tree.iter('testcase')
            if not [x for x in c if x.tag in ('failure', 'error', 'skipped')]}


def main():
    args = sys.argv[1:]
    rest = []
    if '--' in args:
        rest = args[args.index('--') + 1:]
        args = args[:args.index('--')]
    ns = {}
    exec(open(args[0]).read(), ns)
    top = '/tmp/bat'
    shutil.rmtree(top, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', top])
    env = dict(os.environ, SIM_REPO=top, PYTHONPATH='/verif:' + top)
    base = {}
    for e in ns['B']:
        ident, prop = e[0], e[1]
        if len(args) > 1 and ident not in args[1:] and prop not in args[1:]:
            continue
        tri = [e[2:5]] + [e[i:i + 3] for i in range(5, len(e), 3)]
        t0 = time.time()
        saved = {}
        try:
            bad = False
            for f, old, new in tri:
                p = os.path.join(top, f)
                s = open(p).read()
                saved.setdefault(p, s)
                if old is None:
                    s = s + new
                elif s.count(old) != 1:
                    print('%s: %d matches of %r' % (ident, s.count(old), old[:60]), flush=True)
                    bad = True
                    break
                else:
                    s = s.replace(old, new)
                open(p, 'w').write(s)
            if bad:
                continue
            pkgs = {f.split('/')[1] for f, _, _ in tri}
            lost = set()
            if not os.environ.get('NOTEST'):
                for k in pkgs:
                    if k not in base:
                        base[k] = passed('/repo', k)
                    lost |= base[k] - passed(top, k)
            r = subprocess.run(['timeout', '900', 'python', '-W', 'ignore', '-m', 'sim.main', prop]
                               + rest, env=env, cwd='/verif', stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        finally:
            for p, s in saved.items():
                open(p, 'w').write(s)
        out = r.stdout.decode(errors='replace')
        m = re.search(r'(?:violation at|error).*', out)
        print('%-8s %s %s (%.0f s)%s %s' % (
            {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'rc%d' % r.returncode), prop, ident,
            time.time() - t0, ' TESTS FAIL %s' % sorted(lost)[:2] if lost else '',
            m.group(0)[:150] if m else out[-300:]), flush=True)
    shutil.rmtree(top, ignore_errors=True)


main()
