#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from plan import PLAN, NOT_APPLICABLE
root = os.path.dirname(here)
checks = []
for p in sorted(PLAN):
    plan = PLAN[p]
    if p in NOT_APPLICABLE:
        continue
    checks.append({
        'property': p,
        'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py %s' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': plan['technique'],
        'level': plan['level'],
        'level_note': plan['note'],
    })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/check.py setup',
    'hooks': {
        'guard': 'cfg(bcalc_verif)',
        'enable': 'BCALC_VERIF_DIR=/verif/harness BCALC_VERIF_HARNESS=/verif/harness/main.rs cargo rustc --offline --locked --bin bcalc -- --cfg bcalc_verif, in a target directory under /verif/.build',
        'source_commits': ['c372c80'],
    },
    'checks': checks,
    'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NOT_APPLICABLE.items())],
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
