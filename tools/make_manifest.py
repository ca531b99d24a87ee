#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of plans."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dst import plans  # noqa

NOTE = ('Seeded exploration, not exhaustive: each run is one schedule and one set of faults out of the space described in DESIGN.md. '
        'Trusts the database engines and drivers, and the independent reference of each denormalized value in dst/zones.py.')
ENUM = ('Every operation of the interrupted call is hit once with every fault kind, for many generated starting points; '
        'starting points, multi-fault and concurrent runs are sampled. Trusts the database engines and dst/zones.py.')

checks = []
for p in sorted(plans.PLANS):
    plan = plans.get(p, 'quick')
    checks.append({
        'property': p,
        'quick_cmd': './check.sh ' + p,
        'thorough_cmd': './check.sh ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection (seeded scheduler, real databases, replayable runs)',
        'level': plan['level'],
        'level_note': ENUM if plan['level'] == 'fault_enumeration' else NOTE,
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: the simulator is a Django database engine plus patches applied from /verif. See DESIGN.md.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks))
