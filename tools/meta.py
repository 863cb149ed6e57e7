#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, tech='', note='', level=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, level=level, na=na))
NF = 'value-graph normal forms of the compiled template instances against a written specification (translation validation; residual pairs separated by random interpretation)'
NN = ('Both the library function, fully inlined to LLVM IR from the current source, and a reference function are summarised for symbolic sizes, strides and data; '
      'identical normal forms prove the obligation, differing ones are compared by random interpretation of the two summaries, and only a separated pair is reported. '
      'Trusts clang 18 and the summariser; floating point read as exact reals.')
exec(open(os.path.join(V, 'tools', 'properties.py')).read())

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['text']), why_tests_cant=q['why'],
                                    anchors=dict(files=q['files'], mechanism=[dict(name=n, where=w) for n, w in q['mech']]))) + '\n')
            assert len(q['title']) <= 80, q['id']
    checks = []; na = []
    for q in P:
        if q['na'] or not os.path.exists(os.path.join(V, 'props', q['id'] + '.py')):
            na.append(dict(property=q['id'], reason=q['na'] or 'no check built yet')); continue
        lv = q['level'] or 'translation_validation'
        checks.append(dict(property=q['id'], quick_cmd='python3 engine/check.py %s' % q['id'], thorough_cmd='VERIF_TIER=thorough python3 engine/check.py %s' % q['id'],
                           technique=q['tech'] or NF, level=lv, level_note=q['note'] or NN))
    m = dict(version=1, setup_cmd='python3 engine/driver.py', checks=checks, not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')
main()
