#!/usr/bin/python3
"""Writes properties.jsonl and MANIFEST.json from the property texts in tools/props/*.py.

Run by hand when a property is added or reworded; no check runs it.
"""
import glob
import json
import os
import runpy

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def P(id, title, statement, text, why, files, mech, over=('inputs',), observe=(), note=None, technique=None, hook=None,
      state=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, (id, 'more than three sentences?', statement.count('. ') + 1)
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                      why_tests_cant=why,
                      anchors=dict(files=list(files), state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech],
                                   observe_at=list(observe), hook_needed=hook),
                      _note=note, _tech=technique))


def N(id, reason):
    NA.append(dict(property=id, reason=reason))


for f in sorted(glob.glob(os.path.join(HOME, 'tools', 'props', '*.py'))):
    runpy.run_path(f, dict(P=P, N=N))

PROPS.sort(key=lambda p: p['id'])
na = {x['property'] for x in NA}
with open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')

checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    assert os.path.exists(os.path.join(HOME, 'pbt', 'checks', p['id'].lower() + '.py')), p['id']
    checks.append(dict(
        property=p['id'], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p['_tech'] or 'property-based testing (Hypothesis generators, shrinking, explicit oracle)',
        level='exploration',
        level_note=p['_note'] or 'Generated-input search against an independent oracle inside the stated domain; no claim '
                                 'about inputs that were not generated. Trusts numpy/pandas/scipy and the oracle code in '
                                 f"pbt/checks/{p['id'].lower()}.py."))
man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NA,
           notes='Every check imports frm from /repo (FRM_REPO overrides the path) with fresh byte-code and numba caches '
                 'in a scratch directory it removes. Known and repaired defects: known_findings.json.')
with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks', len(NA), 'not applicable')
