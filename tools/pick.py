"""Needs env.sh.  Choose, from the recordings of tools/harvest.py, the calls kept in sim/calls.json and the
input decks kept in sim/decks.json.   python3 tools/pick.py DIR"""
import glob
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from sim import build, corpus  # noqa

SKIP = ('geotecha.inputoutput.', 'geotecha.plotting.', 'new geotecha.inputoutput.',
        'new geotecha.plotting.')


def main(d):
    by = {}
    decks = {}
    for f in sorted(glob.glob(os.path.join(d, '*.json'))):
        for e in json.load(open(f)):
            k = e['call'] if e['call'] != 'new' else 'new ' + e['cls']
            if k.startswith(SKIP) or 'make_all' in k:
                continue
            if k.startswith('new geotecha.speccon.speccon1d_') or 'Schiffman' in k:
                c = k.split(':')[1]
                a = e['args'] or list(e['kw'].values())
                if a and isinstance(a[0], str):
                    decks.setdefault(c, {})[a[0]] = 1
                continue
            t = e.pop('t')
            if t > 0.2 or (k.startswith('new ') and 'integrals_generate' in k):
                continue
            by.setdefault(k, {}).setdefault(json.dumps(e, sort_keys=True), e)
    out = []
    rng = random.Random(1)
    build.install(build.build_all())
    for k in sorted(by):
        v = [by[k][q] for q in sorted(by[k])]
        good, bad = [], []
        for e in v:
            try:
                o = corpus.outcome(*corpus.prepare(e))
            except Exception:
                continue
            (good if o[0] == 'ok' else bad).append(e)
        v = good + bad[:1]
        small = [e for e in v if len(json.dumps(e)) < 12000]
        v = small or v
        if len(v) > 10:
            v = rng.sample(v, 10)
        out += v
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim')
    with open(os.path.join(here, 'calls.json'), 'w') as f:
        f.write('[\n' + ',\n'.join(json.dumps(e, sort_keys=True) for e in out) + '\n]\n')
    with open(os.path.join(here, 'decks.json'), 'w') as f:
        json.dump({c: sorted(t) for c, t in decks.items()}, f, indent=0)
    print(len(out), {c: len(t) for c, t in decks.items()})


if __name__ == '__main__':
    main(sys.argv[1])
