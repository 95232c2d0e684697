#!/usr/bin/env python3
"""writes MANIFEST.json from harness/spec.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from harness.spec import SPEC, NOT_APPLICABLE
P = [json.loads(l) for l in open(H + '/properties.jsonl')]
base = 'Bounded symbolic execution of the whole program compiled from the current source, every path of the harness within the stated bounds, path conditions and assertions decided by z3; counterexamples are replayed on the real binary before they are reported. Trusted: the models of libc, libunistring, pcre2 and terminfo in models/ (cross-checked by replaying sampled paths), LLVM, z3. '
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [], 'notes': 'No hooks: the program is compiled unmodified. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.'}
for p in P:
    i = p['id']
    if i in SPEC:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py %s quick' % i, 'thorough_cmd': 'python3 run.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real program (LLVM IR) with z3', 'level': 'model_checking', 'level_note': base + SPEC[i].get('note', '')})
    else: m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check is registered for this property yet')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
