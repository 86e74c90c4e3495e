#!/usr/bin/env python3
"""Single source of the property texts: writes properties.jsonl and MANIFEST.json.
A property is claimed when rules/<id>.py exists; the others are listed as not applicable with their reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'static abstract interpretation: gated value-dependence analysis with value numbering over client scenarios'
NOTE = ('Decided from the current source: the client programs of the rule are interpreted abstractly together with every repository function they reach, '
        'over opaque (arbitrary) inputs, all paths joined; each obligation compares gated value terms or exit conditions in a normal form. '
        'Assumes the library models of sa/models.py, sa/numerics.py and sa/tables.py (sympy, numpy, pandas, containers), generic pairwise distinct names, and the frozen specification in rules/%s.py. ')

P = []


def prop(pid, title, statement, over, text, why, files, mech, note='', na=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


C = 'src/sloth/core/'
S = 'src/sloth/'
exec(compile(open(os.path.join(HERE, 'tools', 'properties.py')).read(), 'properties.py', 'exec'))


def main():
    lines, checks, nas = [], [], []
    for p in P:
        assert len(p['title']) <= 80, p['pid']
        claimed = p['na'] is None and os.path.exists(os.path.join(HERE, 'rules', p['pid'] + '.py'))
        if p['na'] is None and not claimed:
            print('not yet claimed', p['pid'])
            continue
        lines.append(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                 'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}))
        if claimed:
            checks.append({'property': p['pid'], 'quick_cmd': 'python3 check.py %s' % p['pid'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['pid'],
                           'technique': TECH, 'level': 'other', 'level_note': (NOTE % p['pid'] + p['note']).strip()})
        else:
            nas.append({'property': p['pid'], 'reason': p['na']})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json, sys; assert sys.version_info >= (3, 9)"', 'checks': checks, 'not_applicable': nas,
         'notes': 'Stdlib-only static analysis (python3): nothing of /repo is imported or executed; see DESIGN.md.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
