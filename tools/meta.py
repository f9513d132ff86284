#!/usr/bin/env python3
'write properties.jsonl and MANIFEST.json from catalog.py'
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

TECH = ('symbolic execution of the real code in its own interpreter (Jython), path conditions and assertions '
        'decided by z3; counterexamples replayed on the plain code')


def one(s):
    return re.sub(r'\s+', ' ', s).strip()


with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in catalog.PROPS:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'],
             'mechanism': [{'name': one(n), 'where': one(w)} for (n, w) in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m} for (n, m) in p['state']]
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': one(p['statement']),
            'quantifier': {'over': p['over'], 'text': one(p['text'])},
            'why_tests_cant': one(p['why']), 'anchors': a}) + '\n')

na = getattr(catalog, 'NOT_APPLICABLE', {})
checks = []
for p in catalog.PROPS:
    if p['id'] in na:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
        'technique': TECH,
        'level': 'model_checking',
        'level_note': one(p['note']) + ' Floating point numbers are reals; the network, TLS and cipher libraries '
                      'are stand-ins, listed in DESIGN.md.'})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3 check.py --setup',
        'hooks': {'guard': 'PRIVCOUNT_VERIF', 'enable': 'no hooks are needed: the checks run the unmodified modules',
                  'source_commits': []},
        'checks': checks,
        'not_applicable': [{'property': k, 'reason': one(na[k])} for k in sorted(na)]}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')


# the section about the properties in DESIGN.md
import ast
from how import HOW

MARK = ('<!-- properties: written by tools/meta.py -->', '<!-- end of properties -->')


def harnesses(pid):
    'name, group and bounds of the harnesses of a property'
    out = []
    for n in ast.parse(open(os.path.join(ROOT, 'props', pid.lower() + '.py')).read()).body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'harness':
                b = [k.value for k in d.keywords if k.arg == 'bounds']
                b = b[0] if b else None
                if isinstance(b, ast.BinOp):
                    b = b.left
                out.append((n.name, b.value if isinstance(b, ast.Constant) else ''))
    return out


def section():
    out = []
    for p in catalog.PROPS:
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('*Executed:* %s.  *Files:* %s.\n' % ('; '.join('%s (`%s`)' % (n, one(w)) for (n, w) in p['mech']), ', '.join(p['files'])))
        out.append('*How:* %s\n' % HOW[p['id']])
        out.append('*Why the tests cannot:* %s\n' % one(p['why']))
        out.append('*Bounds:*\n')
        for (n, b) in harnesses(p['id']):
            out.append('- `%s`: %s' % (n, one(b) or 'see the harness'))
        out.append('')
        out.append('*Limits:* %s\n' % one(p['note']))
    return '\n'.join(out)


def findings():
    out = ['| property | commit | what failed |', '|---|---|---|']
    for line in open(os.path.join(ROOT, 'known_findings.txt')):
        g = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
        if g:
            out.append('| %s | %s | %s |' % g.groups())
    return '\n'.join(out) + '\n'


def planted():
    out = ['| bug | what it breaks | caught by |', '|---|---|---|']
    d = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| %s | %s | %s |' % (n, one(m['what_it_breaks']), m.get('caught_by', m['property'])))
    return '\n'.join(out) + '\n'


path = os.path.join(ROOT, 'DESIGN.md')
s = open(path).read()
for (a, b, f) in ((MARK[0], MARK[1], section),
                  ('<!-- findings -->', '<!-- end of findings -->', findings),
                  ('<!-- planted -->', '<!-- end of planted -->', planted)):
    (i, j) = (s.index(a) + len(a), s.index(b))
    s = s[:i] + '\n\n' + f() + '\n' + s[j:]
with open(path, 'w') as f:
    f.write(s)
