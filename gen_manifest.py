"""Writes properties.jsonl (from properties.py) and MANIFEST.json (from props.py)."""
import json, subprocess
from props import PROPS, NOT_APPLICABLE
from properties import P
with open('properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in P]
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh',
     'hooks': {'guard': 'cfg(knaster_verif)', 'enable': "RUSTFLAGS='--cfg knaster_verif' (set by check.py for the harness crate /verif/hx, feature hooks)",
               'source_commits': [l.split()[0] for l in hooks if l.split(' ', 1)[1].lower().startswith('hook')]},
     'checks': [{'property': i, 'quick_cmd': f'python3 /verif/check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 /verif/check.py {i}',
                 'technique': PROPS[i]['technique'], 'level': PROPS[i]['level'], 'level_note': PROPS[i]['level_note']} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE[i]} for i in ids if i not in PROPS]}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks;', len(m['not_applicable']), 'not applicable')
