#!/usr/bin/env python3
"""replay.py RECORD: rebuild the harness with the current sources of /repo natively and run the recorded counterexample."""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import hz
from jobs import PROPS
rec = sys.argv[1]
t = open(rec).read()
prop = re.search(r'^# property (\S+)', t, re.M).group(1); job = re.search(r'^# job (\S+)', t, re.M).group(1)
j = next(x for x in PROPS[prop]['jobs'] if x['name'] == job)
d = tempfile.mkdtemp(prefix='hz_replay_')
try:
    binary = hz.Builder(d).native('r', j['harness'], j['srcs'], j.get('defs', []), cl=j.get('cl'))
    ok, out, code = hz.replay(binary, rec)
    print(out[-6000:]); print('exit', code, '->', 'violation reproduced' if ok else 'not reproduced')
finally: shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if ok else 0)
