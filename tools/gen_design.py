#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, properties.jsonl, the checks'
own tables, tools/design_notes.py, known_findings.json, seeded/*/meta.json and
tools/design_tail.md."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(ROOT, 'tools')
read = lambda *p: open(os.path.join(ROOT, *p)).read()
ns = {}
exec(read('tools', 'design_notes.py'), ns)
LIST = r'''
import sys, importlib, json, os
sys.path[:0] = [%r, '/repo']
out = {}
for f in sorted(os.listdir(%r + '/checks')):
    if f.startswith('c') and f.endswith('.py'):
        s = importlib.import_module('checks.' + f[:-3]).suite
        out[s.pid] = [s.rule, [(p.name, p.quick, p.thorough,
                      ' '.join((p.fn.__doc__ or '').split())) for p in s.props]]
print(json.dumps(out))
''' % (ROOT, ROOT)
tables = json.loads(subprocess.run(
    ['/opt/venv/bin/python', '-W', 'ignore', '-c', LIST], cwd=ROOT, check=True,
    env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'),
    stdout=subprocess.PIPE).stdout)
props = [json.loads(l) for l in read('properties.jsonl').splitlines()]
finds = json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']
bugs = {}
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    bugs.setdefault(m['property'], []).append((d, m))
out = [read('tools', 'design_head.md').rstrip(), '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '', p['statement'], '',
            '*Over:* ' + p['quantifier']['text'] + '.', '',
            '*Why the tests cannot settle it:* ' + p['why_tests_cant'], '']
    rule, subs = tables[i]
    out += ['*Domain and non-trivial rule:* ' + rule, '']
    oracle, limits = ns['N'][i]
    out += ['*Oracle:* ' + oracle, '', '*Not judged:* ' + limits, '',
            '| sub-check | quick | thorough | what |', '|---|---|---|---|']
    for n, q, t, doc in subs:
        if doc.lower().startswith(n.replace('_', ' ').lower() + ':'):
            doc = doc[len(n) + 1:].strip()
        out.append('| %s | %d | %d | %s |' % (n, q, t, doc.replace('|', '\\|')))
    out.append('')
    fs = [f for f in finds if f['property'] == i]
    if fs:
        out.append('*Defects found:*')
        out.append('')
        for f in fs:
            w = f['line'].split(' ', 3)[-1] if f['status'] == 'fixed' else f['line']
            out.append('* %s %s: %s' % (f['status'], f.get('commit', ''), w))
        out.append('')
    for d, m in bugs.get(i, []):
        out.append('* planted `%s` (needs: %s): %s - %s' % (
            d, m['needs'], m['what_it_breaks'],
            'MISSED' if d in ns.get('MISSED', ()) else 'caught'))
    if i in bugs:
        out.append('')
out.append(read('tools', 'design_tail.md'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'lines')
