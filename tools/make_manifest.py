#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import properties  # noqa: E402

ROOT = os.path.dirname(HERE)
TECHNIQUE = ('runtime monitoring: generated and hostile workloads on the real '
             'code, verdicts by ')
CLOSING = (' Held means held on the executions counted in the evidence; '
           'nothing is proved. Trusts the monitors\' own model (gm/spec.py, '
           'gm/ref.py) and, below the encryption, the stand-in for the '
           'missing pyelliptic (real AES-CTR/HMAC/secp256k1).')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in properties.PROPS:
        f.write(json.dumps({k: v for k, v in p.items()
                            if not k.startswith('_')},
                           ensure_ascii=False) + '\n')

manifest = {
    'version': 1,
    'setup_cmd': 'bash check.sh --selftest',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick bash check.sh ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECHNIQUE + p['_oracle'],
        'level': 'exploration',
        'level_note': p['_note'] + CLOSING,
    } for p in properties.PROPS],
    'not_applicable': [],
    'notes': 'Seeds: VERIF_SEED. Replay of a violation: bash check.sh '
             '--replay ID FILE. No hooks in /repo: every monitor observes '
             'the public API.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(properties.PROPS), 'properties')
