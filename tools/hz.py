"""Build and run support shared by check.py and replay.py."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HZ_REPO', '/repo')
ENGINE = f'{VERIF}/build/hzsym'
CLANG = 'clang-18' if shutil.which('clang-18') else 'clang'
CLANGXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
def tool(n):
    for c in (n + '-18', n, f'/usr/lib/llvm-18/bin/{n}'):
        if shutil.which(c): return c
    raise RuntimeError('missing tool ' + n)
INC = ['-include', f'{VERIF}/stubs/hz_std_shim.h', '-I', f'{VERIF}/include', '-I', f'{VERIF}/stubs', '-I', f'{REPO}/src', '-I', f'{VERIF}/harness']
BASE = ['-std=c++20', '-w', '-pthread', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0', '-DHZ_VERIF=1']
SYM = BASE + ['-DHZ_SYMBOLIC=1', '-O1', '-gline-tables-only', '-emit-llvm', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-stack-protector', '-fno-strict-aliasing', '-fno-math-errno', '-fsanitize=return', '-fsanitize-trap=return']
NAT = BASE + ['-DHZ_NATIVE=1', '-O1', '-gline-tables-only', '-fsanitize=address,return,unreachable', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-fno-stack-protector', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern']
NATPLAIN = BASE + ['-DHZ_NATIVE=1', '-O1', '-gline-tables-only', '-fno-stack-protector', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern']
class BuildError(Exception): pass
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])
    return r.stdout
def ensure_engine():
    os.makedirs(f'{VERIF}/build', exist_ok=True)
    with open(f'{VERIF}/build/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        run(['make', '-s', '-j4', '-C', VERIF])
class Builder:
    """Compiles harness + real sources; one per scratch directory, caches objects."""
    def __init__(self, scratch):
        self.d = scratch; self.objs = {}; self.lock = threading.Lock(); self.pend = {}
        self.cc_seconds = 0.0
    def _once(self, key, fn):
        with self.lock:
            ev = self.pend.get(key)
            mine = ev is None
            if mine: ev = self.pend[key] = threading.Event()
        if not mine:
            ev.wait()
            r = self.objs[key]
            if isinstance(r, Exception): raise r
            return r
        try: r = fn()
        except Exception as e: r = e
        self.objs[key] = r
        ev.set()
        if isinstance(r, Exception): raise r
        return r
    def _pch(self, flags):
        def mk():
            o = f'{self.d}/pch{abs(hash(tuple(flags))) % 10**9}.pch'
            run([CLANGXX] + [f for f in flags if f != '-emit-llvm'] + INC[2:] + ['-x', 'c++-header', f'{VERIF}/stubs/hz_std_shim.h', '-o', o])
            return o
        return self._once(('pch', tuple(flags)), mk)
    def compile(self, src, flags, defs, shim=True):
        key = (src, tuple(flags), tuple(defs), shim)
        def mk():
            sym = '-emit-llvm' in flags
            o = f"{self.d}/{re.sub(r'[^A-Za-z0-9]', '_', src)[-80:]}_{abs(hash(key)) % 10**9}.{'bc' if sym else 'o'}"
            inc = INC if shim else INC[4:]
            if shim and not defs: inc = ['-include-pch', self._pch(flags)] + INC[2:]
            elif shim: inc = INC
            run([CLANGXX] + flags + list(defs) + inc + ['-c', src, '-o', o])
            return o
        return self._once(key, mk)
    def kernels(self, cl, defs):
        """cl = dict(driver, srcs): runs the driver natively against the real registration code; it prints the OpenCL program texts
        that the code registers.  Returns (C++ dispatcher, program text); both are regenerated from /repo on every run."""
        def mk():
            b = self.native('dump_' + re.sub(r'[^A-Za-z0-9]', '_', cl['driver']), cl['driver'], cl['srcs'], defs, asan=False, kern=False)
            rec = f'{self.d}/dump.txt'
            with open(rec, 'w') as f: f.write('expect ok\n')
            text = subprocess.run([b, rec], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout
            if 'HZ-PROGRAM' not in text: raise BuildError('no OpenCL program was registered')
            text = text.split('HZ-PROGRAM\n')[1].split('HZ-END\n')[0]
            base = f"{self.d}/kern_{re.sub(r'[^A-Za-z0-9]', '_', cl['driver'])}"
            with open(base + '.cl', 'w') as f: f.write(text)
            ll = run([CLANG, '-x', 'cl', '-cl-std=CL2.0', '-Xclang', '-finclude-default-header', '-O1', '-w', '-S', '-emit-llvm', '-o', '-', base + '.cl'])
            disp = '#include <hz_cl.h>\nextern bool hz_cl_backwards;\nstatic unsigned long gid;\nextern "C" unsigned long _Z13get_global_idj(unsigned) { return gid; }\n'
            body = ''
            for m in re.finditer(r'^define .*spir_kernel void @(\w+)\((.*?)\)[^()]*\{$', ll, re.M):
                # attributes may contain parentheses: cut the parameter list at its matching parenthesis
                line = m.group(0); i = line.index('@' + m.group(1) + '(') + len(m.group(1)) + 2; d = 1; k = i; parts = []; st = i
                while d:
                    ch = line[k]
                    if ch == '(': d += 1
                    elif ch == ')': d -= 1
                    if (ch == ',' and d == 1) or d == 0: parts.append(line[st:k].strip()); st = k + 1
                    k += 1
                tys, vals, chk = [], [], []
                for n, q in enumerate([x for x in parts if x]):
                    t = q.split()[0]
                    if t.startswith('ptr'): tys.append('void *'); vals.append(f'hz_cl_mem_data(a[{n}])'); chk.append(f's[{n}] != 8')
                    else:
                        w = int(t[1:]); tys.append(f'uint{w}_t'); vals.append(f'*(uint{w}_t *) a[{n}]'); chk.append(f's[{n}] != {w // 8}')
                disp += f'extern "C" void {m.group(1)}({", ".join(tys)});\n'
                body += f'    if (strcmp(k, "{m.group(1)}") == 0) {{ if (n != {len(tys)}) return -52; if ({" || ".join(chk) or "false"}) return -51; for (unsigned long i = 0; i < g; i++) {{ gid = o + (hz_cl_backwards ? g - 1 - i : i); {m.group(1)}({", ".join(vals)}); }} return 0; }}\n'
            disp += 'int hz_cl_run(const char *k, void **a, size_t *s, size_t n, size_t o, size_t g) {\n' + body + '    return -46;\n}\n'
            with open(base + '.cpp', 'w') as f: f.write(disp)
            return base + '.cpp', base + '.cl'
        return self._once(('kern', cl['driver']), mk)
    def clcompile(self, src, flags):
        sym = '-emit-llvm' in flags
        def mk():
            o = src + ('.bc' if sym else '.asan.o' if any('sanitize' in f for f in flags) else '.o')
            run([CLANG, '-x', 'cl', '-cl-std=CL2.0', '-Xclang', '-finclude-default-header', '-O1', '-w', '-gline-tables-only', '-fno-unroll-loops', '-fno-pic', '-fno-pie', '-fno-vectorize', '-fno-slp-vectorize'] + (['-emit-llvm'] if sym else ['-fsanitize=address'] if any('sanitize' in f for f in flags) else []) + ['-c', src, '-o', o])
            return o
        return self._once(('clc', src, tuple(flags)), mk)
    def symbolic(self, name, harness, srcs, defs, cl=None):
        from concurrent.futures import ThreadPoolExecutor
        files = [f'{VERIF}/harness/{harness}'] + [f'{REPO}/src/{s}' if not s.startswith('/') else s for s in srcs] + [f'{VERIF}/rt/hz_os.cpp', f'{VERIF}/rt/models.cpp']
        with ThreadPoolExecutor(8) as ex:
            bcs = list(ex.map(lambda f: self.compile(f, SYM, defs if not f.startswith(VERIF + '/rt') else []), files))
        if cl:
            disp, text = self.kernels(cl, defs)
            bcs += [self.compile(disp, SYM, defs), self.clcompile(text, SYM)]
        out = f'{self.d}/{name}.bc'
        run([tool('llvm-link'), '-o', out] + bcs)
        return out
    def native(self, name, harness, srcs, defs, asan=True, cl=None, kern=True):
        from concurrent.futures import ThreadPoolExecutor
        fl = NAT if asan else NATPLAIN
        files = [f'{VERIF}/harness/{harness}'] + [f'{REPO}/src/{s}' if not s.startswith('/') else s for s in srcs] + [f'{VERIF}/rt/hz_os.cpp']
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda f: self.compile(f, fl, defs if not f.startswith(VERIF + '/rt') else []), files))
            if cl:
                disp, text = self.kernels(cl, defs)
                objs += [self.compile(disp, fl, defs), self.clcompile(text, fl)]
            rt = self.compile(f'{VERIF}/rt/native.cpp', fl + ['-fPIC'], [], shim=False)
        # the replay runtime is a library of its own, so that its own uses of the C++ library are not redirected
        def mkso():
            so = rt + ('a' if asan else 'p') + '.so'
            run([CLANGXX, '-shared', '-pthread', '-Wl,-Bsymbolic']  + [rt, '-o', so])
            return so
        so = self._once(('so', rt, asan), mkso)
        defd, und = set(), {}
        for o in objs + [rt]:
            for line in run([tool('llvm-nm'), o]).splitlines():
                w = line.split()
                if w[-2] in 'UwvW' and len(w) == 2: und.setdefault(o, set()).add(w[-1])
                elif w[-2] in 'TtWVBDRbdr': defd.add(w[-1])
        linked = []
        tag = 'a' if asan else 'p'
        for i, o in enumerate(objs):
            rn = [x for x in und.get(o, ()) if x not in defd and 'hz_' + x in defd]
            n = f'{self.d}/{name}_{tag}{i}.o'
            with open(n + '.syms', 'w') as f: f.write(''.join(f'{x} hz_{x}\n' for x in rn))
            run(['objcopy', '--redefine-syms=' + n + '.syms', o, n])
            linked.append(n)
        out = f'{self.d}/{name}.{tag}.bin'
        run([CLANGXX, '-pthread'] + (['-fsanitize=address'] if asan else []) + linked + [so, '-Wl,--export-dynamic', '-o', out])
        return out
def replay(binary, rec, timeout=60):
    """Run a record natively.  Returns (confirmed, text, code) for the first heap fill pattern that reproduces a violation."""
    last = ('', 0)
    for fill in ('170', '0', '255', '1'):
        env = dict(os.environ, HZS_FILL=fill)
        try:
            p = subprocess.run([binary, rec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)
            code, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as e:
            code, out = 'timeout', (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or '')
        if code == 'timeout' or code == 1 or code == 77 or (isinstance(code, int) and code < 0) or code in (134, 139, 136):
            return True, out, code
        last = (out, code)
    return False, last[0], last[1]
