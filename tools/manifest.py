#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness modules that exist."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
lib = open(H + '/harness/src/lib.rs').read()
NOTE = ('Holds for all values of the symbolic inputs within the bounds each harness states (sizes, '
        'widths, block types; listed in the evidence and in DESIGN.md), loop bounds checked by unwinding '
        'assertions, counterexamples and witnesses replayed natively in dev and release profile. '
        'Trusts kani-compiler 0.68, CBMC, its SAT back ends and the models named in DESIGN.md '
        '(allocator, Vec growth, error messages).')
checks, na = [], []
for p in props:
    i = p['id']
    if '"%s"' % i.lower() in lib:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the compiled Rust code (Kani goto programs), '
                         'SAT-decided by CBMC, with native replay',
            'level': 'model_checking',
            'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'harnesses not written yet'})
json.dump({'version': 1,
           'setup_cmd': 'python3 tools/setup.py',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the harnesses use the public API only. Repairs of genuine defects are '
                    'listed in known_findings.txt.'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')

import re
with open(H + '/BOUNDS.md', 'w') as f:
    f.write('# Bounds of every harness (generated by tools/manifest.py)\n\n`_t`: thorough tier only. '
            'Annotations in brackets steer the driver: `[slow]` start first, `[heap N]` size of heap '
            'blocks, `[loops X=N]` unwinding of the loops in X, `[realvec]` the real Vec growth code.\n')
    for p in props:
        src = H + '/harness/src/%s.rs' % p['id'].lower()
        if not os.path.exists(src):
            continue
        f.write('\n## %s %s\n\n' % (p['id'], p['title']))
        for k, n, u, b in re.findall(r'^    (holds|holds_t|panics|panics_t) (\w+)\((\d+)\) "(.*?)" \{',
                                     open(src).read(), re.M):
            f.write('* %s `%s` (unwind %s): %s\n' % (k, n, u, b))
