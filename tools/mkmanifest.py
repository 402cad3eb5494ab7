#!/usr/bin/env python3
"""Writes MANIFEST.json from levels.json and properties.jsonl."""
import json, subprocess
L = json.load(open('/verif/levels.json'))
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hook if 'hook' in l.split(' ', 1)[1].lower()]
checks, na = [], []
for p in props:
    i = p['id']
    c = L.get(i)
    if not c or c.get('na'):
        na.append({'property': i, 'reason': (c or {}).get('na', 'not claimed')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i}',
        'thorough_cmd': f'python3 check.py {i} --thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': c['technique'], 'level': c['level'], 'level_note': c['note'],
        'theorems': c.get('theorems', []),
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'cfg(codeparser_verif)', 'enable': 'RUSTFLAGS="--cfg codeparser_verif" CODEPARSER_VERIF_HOOKS=/verif/native/hooks.rs (native/b.sh)', 'source_commits': hooks},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Every check extracts the functions under contract from /repo, has Verus discharge them, and runs the native harness built from /repo.'}
if not checks[0]['theorems']:
    for c in checks: c.pop('theorems')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
