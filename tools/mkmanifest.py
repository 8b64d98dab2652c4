#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py, properties.jsonl and the table of reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
from jobs import PROPS
NA = {
 'C42': 'the code has no crash protocol to decide: an open archive is only written back consistently by close(), metadata may lag behind after any earlier stop, so the property has no specification in this tree that a solver could check the code against; crash points inside the missing rainman/bitio stream libraries are not in the tree either',
 'C43': 'needs process-level signal delivery, command line parsing and global start-up of main.cpp inside the operating system; asynchronous signals at arbitrary instructions running destructors and exit() are outside what the symbolic executor models',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        b = '; '.join(j['name'] + ': ' + j['bounds'] for j in s['jobs'] if j.get('bounds'))
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
            'technique': 'symbolic execution of the LLVM IR of the current sources (own engine, hzsym) with Z3 deciding every assertion and branch; counterexamples replayed natively under ASan',
            'level': 'model_checking',
            'level_note': 'Bounded: ' + b + ('. Outside: ' + s['outside'] if s.get('outside') else '') + '. Trusted: clang/LLVM front end, hzsym, Z3, and the models of libstdc++/libc/OS and of the missing rainman/bitio/loguru libraries in rt/ and stubs/.'})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'make', 'checks': checks, 'not_applicable': na, 'notes': 'One engine decides every property; see DESIGN.md. No hooks are needed in /repo; fix commits are listed in known_findings.json.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
