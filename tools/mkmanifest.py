#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks (run: python3 tools/mkmanifest.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(V, 'sa'))
import registry  # noqa: E402

DERIVE_T = ('abstract interpretation of the compiled MIR of derived impls (trace partitioning, request path as a '
            'regular language), compared with the meaning of the declaration')
DERIVE_N = ('Every expansion in a corpus of declarations (fixed ones plus seeded random ones) is validated for all '
            'requests; declarations outside the corpus are not covered. Trusts the transfer functions for regex, '
            'http, futures and std, and that user code returns.')
from notes import TECH, NA  # noqa: E402

checks = []
for pid in sorted(registry.CHECKS):
    level, fn = registry.CHECKS[pid]
    t, n = TECH.get(pid, (DERIVE_T, DERIVE_N))
    checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid, 'technique': t, 'level': level, 'level_note': n})
have = set(registry.CHECKS)
na = []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in have:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: nothing in /repo is instrumented. Everything is decided from the MIR and diagnostics that '
              'the nightly compiler produces for /repo\'s current sources and generated witness crates; nothing of '
              'hyperdrive is executed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
