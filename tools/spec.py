#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/spec.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique='', note=''):
    assert len(title) <= 80, title
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a),
              technique, note))


exec(open(os.path.join(V, 'tools', 'props.py')).read())


def main():
    from parts import PARTS
    with open(V + '/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, tech, note in P:
        if p['id'] in PARTS:
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s --tier quick' % p['id'],
                               thorough_cmd='python3 tools/check.py %s --tier thorough' % p['id'],
                               technique=tech, level='model_checking', level_note=note))
        else:
            na.append(dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')))
    old = json.load(open(V + '/MANIFEST.json'))
    man = dict(old)
    man['checks'] = checks
    man['not_applicable'] = na
    man['setup_cmd'] = 'bash tools/setup.sh'
    man['hooks'] = HOOKS
    json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
