#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from claims import CLAIMS, NOT_APPLICABLE
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': NOT_APPLICABLE}
for pid, tech, level, note in CLAIMS:
    m['checks'].append({'property': pid, 'quick_cmd': f'python3 check.py {pid}',
                        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {pid}',
                        'evidence_file': f'evidence/{pid}.json',
                        'technique': tech, 'level': level, 'level_note': note})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'MANIFEST.json'), 'w'), indent=1)
