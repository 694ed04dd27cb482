#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule registry and properties.jsonl."""
import json
import os
import sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from sa.rules.registry import RULES, TECHNIQUE   # noqa: E402

NA = {
    'N01': 'The inverse laws of the compiled Blosc, zlib and NumPy libraries are outside the source analysed here; the part '
           'of the round trip that Bloscpack itself is responsible for is C01-C05, C12, C14, C16, C19 and C20.',
    'N02': 'Append rewrites the last chunk, the header and the offsets in place without a journal, so the guarantee does '
           'not hold by design and no static argument could show it; what is decided is C15 (refusals do not modify).',
    'N03': 'Depends on the thread pool inside the compiled Blosc library (set_nthreads is process wide); the Python side '
           'keeps no shared state, which is C28.',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES:
        tech = TECHNIQUE.get(i, 'abstract interpretation of the Python source')
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'static analysis: ' + tech, 'level': 'other',
                       'level_note': 'Sound-by-construction rule over the source of /repo/bloscpack for all values of the '
                                     'entry parameters, relative to the models of Blosc, zlib, hashlib, struct, json, NumPy, '
                                     'argparse and file objects in sa/ext.py; nothing is executed.'})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no static rule is registered for it')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': checks, 'not_applicable': na},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
