#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below.

Properties that have at least one registered harness (file props/<id>.py)
are claimed; the rest are listed as not applicable with the reason in NA.
"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(id, title, statement, text, why, files, mech, over=('inputs',),
         state=None, observe=None):
    a = dict(files=['src/seismic/' + f for f in files],
             mechanism=[dict(name=n, where='src/seismic/' + w)
                        for n, w in mech])
    if state:
        a['state'] = state
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text),
                  why_tests_cant=why, anchors=a))


def na(id, reason):
    NA[id] = reason


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
meta = json.load(open(os.path.join(HERE, 'props', 'meta.json')))
checks, nas = [], []
for p in P:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')) \
            and i not in NA:
        m = meta.get(i, {})
        checks.append(dict(
            property=i,
            quick_cmd='./check %s --tier quick' % i,
            thorough_cmd='./check %s --tier thorough' % i,
            technique='symbolic execution of the current source (dynamic '
                      'symbolic execution with path enumeration) + z3 '
                      'SMT verdict per path; counterexamples replayed on '
                      'the real code',
            level='model_checking',
            level_note=m.get('note', 'bounded: ' + m.get(
                'bounds', 'array sizes as in the harness parameters'))))
    else:
        nas.append(dict(property=i, reason=NA.get(
            i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='./check --self-test',
               checks=checks, not_applicable=nas),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
