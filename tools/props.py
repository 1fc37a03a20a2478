#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, qtext, why, files, mech, note='', over=('inputs',), na=None, level='proof', tech=None):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), qtext=qtext, why=why, files=files, mech=mech, note=note, na=na,
                      level=level, tech=tech))


exec(open(os.path.join(HERE, 'tools', 'props_table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
COMMON = ('Proof: obligations generated from clang\'s AST of the current headers, discharged for all inputs by z3/cvc5; trusted: the generator in hv/ '
          '(C++ and std:: semantics), clang, the solvers; one thread, no allocation failure. The same contracts are executed on the real code to '
          'turn a failed obligation into a failing input.')
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=[], not_applicable=[], notes='see DESIGN.md')
for p in PROPS:
    if p['na']:
        m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
                            technique=p['tech'] or 'contract-based deductive verification (contracts over the AST of the real code, SMT-discharged obligations)',
                            level=p['level'], level_note=(COMMON + ' ' + p['note']).strip()))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(m['checks']), 'checks')
