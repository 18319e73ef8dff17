#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent
props = [json.loads(l) for l in (V / 'properties.jsonl').read_text().splitlines() if l.strip()]
tech = json.loads((V / 'techniques.json').read_text())
checks = []
for p in props:
    i = p['id']
    if not (V / 'vf/checks' / f'{i.lower()}.py').exists():
        continue
    t = tech[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./check.py {i}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check.py {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': t['technique'],
        'level': 'exploration',
        'level_note': t['level_note'],
    })
claimed = {c['property'] for c in checks}
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B -m vf.build dbg san',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': tech.get(p['id'], {}).get('reason', 'check under construction')}
                       for p in props if p['id'] not in claimed],
    'notes': 'No hooks in /repo: every observation is made at the public API of the real code.',
}
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
