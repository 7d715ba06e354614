#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and claims.py."""
import json, os
from props import P
from claims import CLAIMS, NA, NOTES
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
ids = [x['id'] for x in P]
assert set(ids) == set(CLAIMS) | set(NA), set(ids) ^ (set(CLAIMS) | set(NA))
assert not set(CLAIMS) & set(NA)
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='verif', enable='no hooks are needed: the checks use the public API of the unmodified code',
                    source_commits=[]),
         checks=[dict(property=i, quick_cmd='bash check.sh ' + i,
                      thorough_cmd='VERIF_TIER=thorough bash check.sh ' + i,
                      technique=CLAIMS[i][0], level=CLAIMS[i][2] if len(CLAIMS[i]) > 2 else 'exploration',
                      level_note=CLAIMS[i][1]) for i in ids if i in CLAIMS],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA], notes=NOTES)
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
