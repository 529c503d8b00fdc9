#!/usr/bin/env python3
"""Write MANIFEST.json: claims every property that has a contract file, unless listed below."""
import json
import os
import re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
PENDING = 'No check has been built for it yet.'
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    f = os.path.join(H, 'contracts', i + '.py')
    if i in NA or not os.path.exists(f):
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
        continue
    src = open(f).read()
    m = re.search(r"^LEVEL_NOTE = (\(.*?\)|'.*?')$", src, re.S | re.M)
    note = eval(m.group(1)) if m else ''
    checks.append({
        'property': i,
        'quick_cmd': './check %s quick' % i,
        'thorough_cmd': './check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the real code (LLVM IR of the amtl headers, obligations discharged by SMT)',
        'level': 'proof',
        'level_note': ('Every obligation generated from the current source (postconditions, memory safety, arithmetic, '
                       'lifetimes, loop invariants and variants) is discharged for all inputs. ' + note +
                       ' Trusts clang\'s IR, the kv obligation generator, z3/cvc5 and the dependency contracts listed in evidence.').strip(),
    })
json.dump({'version': 1,
           'setup_cmd': "python3-vt -c 'import z3' && clang++-18 --version >/dev/null && g++ --version >/dev/null && mkdir -p evidence",
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the contracts live outside the sources and the code is extracted from /repo on every run.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
