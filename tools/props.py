#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (property dict, manifest dict or reason string)


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, **anchors):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], **anchors))
    P.append((d, dict(technique=technique, note=note) if na is None else na))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for d, _ in P:
        fh.write(json.dumps(d, ensure_ascii=False) + '\n')

checks, na = [], []
for d, m in P:
    if isinstance(m, str):
        na.append(dict(property=d['id'], reason=m))
        continue
    checks.append(dict(property=d['id'], quick_cmd='python3 run.py %s quick' % d['id'],
                       thorough_cmd='python3 run.py %s thorough' % d['id'],
                       technique=m['technique'], level='model_checking', level_note=m['note']))
man = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks, not_applicable=na,
           notes='All checks: bounded symbolic execution of the code in /repo (own engine in lib/symex, z3 decides). '
                 'No hooks in /repo are needed: the engine instruments the sources as it imports them.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1, ensure_ascii=False)
    fh.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
