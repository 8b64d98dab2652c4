#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep] [--only job-regex]
Decides one property: compiles the harnesses together with the current sources of /repo to LLVM IR, runs the symbolic executor on
every (harness, parameters) job, confirms each counterexample by replaying it against natively compiled sources, writes evidence."""
import sys, os, json, time, tempfile, shutil, subprocess, argparse, re, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tools'))
from concurrent.futures import ThreadPoolExecutor, as_completed
import hz
from jobs import PROPS
def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--keep', action='store_true'); ap.add_argument('--only')
    ap.add_argument('-v', action='store_true'); ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = PROPS[a.prop]
    scratch = tempfile.mkdtemp(prefix=f'hz_{a.prop}_')
    repdir = f'{hz.VERIF}/evidence/replay'
    os.makedirs(repdir, exist_ok=True)
    try:
        rc = decide(a, spec, seed, scratch, repdir, t0)
    finally:
        if a.keep: print('scratch kept:', scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)
def known_for(prop):
    try: k = json.load(open(f'{hz.VERIF}/known_findings.json'))
    except FileNotFoundError: return []
    return [x for x in k.get('findings', []) if x['property'] == prop]
def decide(a, spec, seed, scratch, repdir, t0):
    hz.ensure_engine()
    b = hz.Builder(scratch)
    tasks = []
    for j in spec['jobs']:
        if a.only and not re.search(a.only, j['name']): continue
        runs = j['runs'] if a.tier == 'quick' else j.get('thorough', j['runs'])
        for i, r in enumerate(runs): tasks.append((j, i, dict(r)))
    # longest first
    def build(j): return b.symbolic(j['name'], j['harness'], j['srcs'], j.get('defs', []), j.get('cl'))
    def work(t):
        j, i, r = t
        bc = b._once(('link', j['name']), lambda: build(j))
        out = f"{scratch}/{j['name']}_{i}"
        os.makedirs(out)
        o = dict(j.get('opts', {}))
        for k in list(r):
            if k.startswith('--'): o[k[2:]] = r.pop(k)
        secs = o.pop('max-seconds', 240 if a.tier == 'quick' else 3600)
        if a.tier == 'quick': secs = max(5, min(secs, 560 - (time.time() - t0)))
        cmd = [hz.ENGINE, '--out', out, '--repo', hz.REPO, '--seed', str(seed), '--samples', str(o.pop('samples', 3)), '--max-seconds', str(secs), '--solver-timeout', str(o.pop('solver-timeout', 60000 if a.tier == 'quick' else 600000)), '--max-viol', str(o.pop('max-viol', 6))]
        for k, v in o.items(): cmd += ['--' + k, str(v)]
        for k, v in r.items(): cmd += ['--param', f'{k}={v}']
        try: p = subprocess.run(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=secs + 180)
        except subprocess.TimeoutExpired: p = argparse.Namespace(stdout='the engine did not stop in time', returncode=-1)
        try: res = json.load(open(out + '/result.json'))
        except Exception: res = {'engine_error': (p.stdout or '')[-2000:] + f' exit {p.returncode}', 'violations': [], 'paths': 0, 'instructions': 0, 'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_seconds': 0, 'reach': {}, 'functions': [], 'incomplete': {'engine-error': 1}, 'samples': [], 'ends': {}, 'checks': 0, 'checks_proved': 0, 'seconds': 0}
        res['job'] = j; res['idx'] = i; res['params'] = r; res['out'] = out
        return res
    results, errors = [], []
    njobs = {}
    with ThreadPoolExecutor(8) as ex:
        natf = {}
        futs = [ex.submit(work, t) for t in tasks]
        if not a.no_native:
            for j in {t[0]['name']: t[0] for t in tasks}.values():
                natf[j['name']] = ex.submit(lambda j=j: b.native(j['name'], j['harness'], j['srcs'], j.get('defs', []), cl=j.get('cl')))
        for f in futs:
            try: results.append(f.result())
            except hz.BuildError as e: errors.append(str(e))
        natives = {}
        for n, f in natf.items():
            try: natives[n] = f.result()
            except hz.BuildError as e: errors.append(str(e))
    if errors:
        print('ERROR: the check could not be built:'); print(errors[0][:4000])
        return 2
    known = known_for(a.prop)
    knownHit, viol, unconf, seen = {}, [], [], set()
    validated, mismatches = 0, []
    vac = []
    # ---- replays
    reps = []
    for r in results:
        j = r['job']
        for k, v in enumerate(r['violations']): reps.append((r, k, v, f"{r['out']}/cex{k}.txt"))
    def doRep(x):
        r, k, v, f = x
        if a.no_native or not os.path.exists(f): return (False, '', 'none')
        return hz.replay(natives[r['job']['name']], f)
    def doSample(x):
        r, f = x
        p = subprocess.run([natives[r['job']['name']], f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
        return p.returncode, p.stdout
    with ThreadPoolExecutor(8) as ex:
        for x, (ok, txt, code) in zip(reps, ex.map(doRep, reps)):
            r, k, v, f = x
            info = {'job': r['job']['name'], 'params': r['params'], 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'inputs': dict(list(v['inputs'].items())[:60]), 'native_exit': code, 'native_output': txt[-1500:]}
            if not ok: unconf.append(info); continue
            kf = next((q for q in known if re.search(q.get('job', ''), info['job']) and re.search(q['match'], f"{v['kind']}: {v['msg']} @ {v['where']}")), None)
            if kf: knownHit[kf['id']] = kf; continue
            key = (info['job'], v['kind'], v['msg'])
            path = f"{repdir}/{a.prop}_{info['job']}_{r['idx']}_{k}.txt"
            shutil.copy(f, path)
            with open(path, 'a') as o: o.write(f"# property {a.prop}\n# job {info['job']}\n# {v['kind']}: {v['msg']}\n# at {v['where']}\n# replay with: python3 {hz.VERIF}/tools/replay.py {path}\n")
            info['replay'] = path
            if key in seen: continue
            seen.add(key)
            viol.append(info)
        samp = [(r, f"{r['out']}/{s}") for r in results for s in sorted(os.listdir(r['out'])) if s.startswith('sample')] if not a.no_native else []
        try:
            for x, (code, txt) in zip(samp, ex.map(doSample, samp)):
                if code == 0: validated += 1
                else: mismatches.append({'job': x[0]['job']['name'], 'exit': code, 'output': txt[-1200:], 'record': open(x[1]).read()[:3000]})
        except subprocess.TimeoutExpired as e: mismatches.append({'timeout': str(e)})
    reach = {}
    for r in results:
        for l, n in r['reach'].items(): reach.setdefault(r['job']['name'], {}); reach[r['job']['name']][l] = reach[r['job']['name']].get(l, 0) + n
    for j in {t[0]['name']: t[0] for t in tasks}.values():
        for l in j.get('reach', []):
            if not reach.get(j['name'], {}).get(l): vac.append(f"{j['name']}:{l}")
    S = lambda k: sum(r.get(k, 0) or 0 for r in results)
    inc = {}
    for r in results:
        for k, v in r['incomplete'].items(): inc.setdefault(k, []).append(f"{r['job']['name']}{r['params']}: {v}")
        for k, v in r['ends'].items():
            if k.startswith('bound') or k == 'steplimit': inc.setdefault(k, []).append(f"{r['job']['name']}{r['params']}: {v} paths")
        if r.get('engine_error'): inc.setdefault('engine-error: ' + r['engine_error'][-300:], []).append(r['job']['name'])
    fns = sorted({f for r in results for f in r['functions']})
    cov = {
        'states': S('paths'), 'transitions': S('instructions'), 'traces_validated_against_impl': validated,
        'samples': [s for r in results for s in r['samples']][:12] or ['(no finished path)'],
        'functions_encoded': fns, 'bounds': [x for j in spec['jobs'] for x in ([j['bounds']] if j.get('bounds') else [])], 'outside': spec.get('outside', ''),
        'jobs': [{'job': r['job']['name'], 'params': r['params'], 'paths': r['paths'], 'ends': r['ends'], 'queries': r['queries'], 'solver_seconds': round(r['solver_seconds'], 2), 'seconds': round(r.get('seconds', 0), 2)} for r in results],
        'assertions_checked': S('checks'), 'assertions_discharged_by_solver': S('checks_proved'),
        'queries': S('queries'), 'queries_unsat': S('unsat'), 'queries_sat': S('sat'), 'queries_unknown': S('unknown'), 'solver_seconds': round(S('solver_seconds'), 2),
        'reached': reach, 'not_reached': vac, 'incomplete': inc, 'unconfirmed_counterexamples': unconf[:10], 'replay_mismatches': mismatches[:6],
        'exhaustive': not inc,
        'explanation': 'states = completed symbolic paths, transitions = instructions executed symbolically; each path stands for every input that satisfies its path condition'
    }
    ev = {'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': spec.get('assumptions', []) + ['libstdc++/libc/OS functions behave as the models in rt/ and stubs/ (exercised natively on every sampled path)'], 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if viol: cov['violations_found'] = viol[:10]
    if not a.only:
        with open(f'{hz.VERIF}/evidence/{a.prop}.json', 'w') as f: json.dump(ev, f, indent=1)
    if a.v:
        for r in results: print(r['job']['name'], r['params'], 'paths', r['paths'], 'instr', r['instructions'], 'q', r['queries'], 'unsat', r['unsat'], f"solver {r['solver_seconds']:.1f}s wall {r.get('seconds',0):.1f}s", r['ends'], r['incomplete'], r.get('engine_error') or '')
    print(f"{a.prop}: {S('paths')} paths, {S('checks')} assertions, {S('queries')} solver queries ({S('solver_seconds'):.1f}s), {validated} paths validated natively, {time.time()-t0:.1f}s")
    for k, v in inc.items(): print('  INCOMPLETE', k, v[:4])
    for v in vac: print('  NOT REACHED', v)
    for m in mismatches[:4]: print('  REPLAY MISMATCH', json.dumps(m)[:1500])
    for u in unconf[:4]: print('  UNCONFIRMED', json.dumps({k: u[k] for k in ('job', 'params', 'kind', 'msg', 'where', 'native_exit', 'inputs')})[:1500], u['native_output'][-300:])
    for k in known:
        if k['id'] in knownHit: print(f"KNOWN-FINDING: property={a.prop} {k['text']}")
    for v in viol:
        print(f"  {v['kind']}: {v['msg']} at {v['where']} (job {v['job']} {v['params']}, native exit {v['native_exit']}) inputs {json.dumps(v['inputs'])[:600]}")
        print(f"VIOLATION property={a.prop} replay={v['replay']}")
    return 1 if viol else 0
if __name__ == '__main__': main()
