"""Source of properties.jsonl and MANIFEST.json:  python tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, check=None, na=None, state=(),
         observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                           'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                           'observe_at': list(observe)},
                  check=check, na=na))


IO = 'geotecha/inputoutput/inputoutput.py'
exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def main():
    assert len({p['id'] for p in P}) == len(P)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('check', 'na')},
                               sort_keys=True) + '\n')
    checks, na = [], []
    for p in P:
        if p['check'] and os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
            checks.append({
                'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                'thorough_cmd': './run.sh %s thorough' % p['id'],
                'technique': p['check'][0], 'level': 'exploration', 'level_note': p['check'][1]})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': NOTES}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
