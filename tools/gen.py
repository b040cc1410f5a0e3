#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when specs/<id>_*.cc exist."""
import glob
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIN = 'applications/sintering/include/pf-applications/sintering/'
STR = 'applications/structural/include/pf-applications/structural/'
INC = 'include/pf-applications/'
P = []
NOTE = {}


def prop(id, title, statement, over, quant, why, files, mech, note='', na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}))
    NOTE[id] = (note, na)


exec(open(os.path.join(R, 'tools', 'props.py')).read())

def directives(i, kind):
    r = []
    for f in sorted(glob.glob(os.path.join(R, 'specs', i + '_*.cc'))):
        for l in open(f):
            k = '// hv: %s ' % kind
            if l.startswith(k) and l[len(k):].strip() not in r:
                r.append(l[len(k):].strip())
    return r


# deductive, but loops over containers or histories are unrolled up to a stated size: not counted as proved beyond it
BOUNDED = {'P09', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P20', 'P21', 'P22', 'P23', 'P26', 'P27', 'P28', 'P30', 'P32'}

claimed = [p['id'] for p in P if glob.glob(os.path.join(R, 'specs', p['id'] + '_*.cc'))]
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt hv/setup.py',
     'hooks': {'guard': 'HPSINT_VERIF_HOOKS', 'enable': 'no hooks are needed: the checks compile the unmodified sources of /repo', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'Contracts are written in specs/<property>_*.cc against the real headers of /repo; hv/ is the deductive verifier (LLVM IR symbolic execution with a polynomial normal form and z3/cvc5). See DESIGN.md.'}
for p in P:
    i = p['id']
    note, na = NOTE[i]
    if i in claimed:
        m['checks'].append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                            'technique': 'contract-based deductive verification of the compiled real code (symbolic execution to SMT/normal-form obligations)',
                            'level': 'other' if i in BOUNDED else 'proof', 'level_note': '; '.join(
                                [('bounded in size, every obligation discharged deductively for all inputs of these sizes' if i in BOUNDED else
                                  'every obligation discharged for all inputs') + (' (' + note + ')' if note else '')]
                                + ['bound: ' + b for b in directives(i, 'bound')] + ['assumes: ' + a for a in directives(i, 'assume')])})
    else:
        m['not_applicable'].append({'property': i, 'reason': na or 'no contract for it has been built yet'})
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(claimed), 'claimed')
