#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
TECH = {
    'mc': 'stateless model checking of the compiled headers (all interleavings up to a deviation bound, happens-before state caching, race and memory checking)',
    'seq': 'bounded-exhaustive state-space exploration of the compiled headers (all operation/input/fault sequences up to a depth) against a reference model, under ASan/UBSan',
}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        kinds = sorted(set(k for _, k in c['harnesses']))
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'model checking: ' + '; '.join(TECH[k] for k in kinds),
            'level': 'model_checking',
            'level_note': c.get('note') or ('Every behaviour within the bounds printed per scenario is executed on the code compiled from /repo; '
                           'nothing beyond the bounds is claimed. Trusted: the engine in mcrt/ or seq/, the compiler instrumentation, and the oracle in the harness.'),
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: harnesses compile the headers of the current tree unmodified.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
