#!/usr/bin/env python3
"""mutate.py [-j N] [id-regex]: applies each change of mutants.py to a scratch copy of /repo's sources and runs the quick checks named."""
import sys, os, re, subprocess, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
args = sys.argv[1:]; N = 1
if args[:1] == ['-j']: N = int(args[1]); args = args[2:]
sel = [m for m in M if re.search(args[0] if args else '', m[1])]
def one(m):
    kind, id, props, f, old, new, n = m
    d = f'/tmp/mut_{id}'
    subprocess.run(['rm', '-rf', d]); subprocess.run(['cp', '-a', '/repo', d])
    p = f'{d}/src/{f}'; s = open(p).read()
    if s.count(old) < 1: subprocess.run(['rm', '-rf', d]); return (id, kind, [('-', 'NOT APPLICABLE')])
    open(p, 'w').write(s.replace(old, new, n))
    out = []
    for c in props:
        t = time.time()
        r = subprocess.run(['python3', 'check.py', c], cwd='/verif', env=dict(os.environ, HZ_REPO=d), capture_output=True, text=True)
        v = 'VIOLATION' in r.stdout
        ok = (r.returncode == 1 and v) if kind == 'B' else (r.returncode == 0 and not v)
        st = 'ok' if ok else f'MISSED rc={r.returncode}' if kind == 'B' else f'FALSE ALARM rc={r.returncode}'
        out.append((c, f'{st} {time.time()-t:.0f}s')); open(f'/tmp/mutlog_{id}_{c}', 'w').write(r.stdout + r.stderr)
        if kind == 'B' and ok: break
    subprocess.run(['rm', '-rf', d])
    return (id, kind, out)
with ThreadPoolExecutor(N) as ex:
    for id, kind, out in ex.map(one, sel): print(kind, id, '; '.join(f'{c} {s}' for c, s in out), flush=True)
