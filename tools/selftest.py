#!/usr/bin/env python3
"""Validates the executor and the C models: every black-box test of the repository (and its sunny-day inputs) is run through the
symbolic executor (concretely) and through the native binary, and the two observable behaviours are compared byte for byte."""
import sys, os, re, subprocess, json, glob, shlex, tempfile, shutil
W = sys.argv[1]; H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T = '/repo/test'
os.makedirs(W, exist_ok=True)
def sect(t, a, b):
    m = re.search(r'^:%s\b.*\n((?:.*\n)*?)(?=^:%s)' % (a, b), t, re.M); return m.group(1) if m else ''
cases = []
for f in sorted(glob.glob(T + '/*.txt')):
    t = open(f, encoding='utf-8', errors='surrogateescape').read().replace('\r', '')
    args = sect(t, 'ARGS', 'INPUT').strip(); inp = sect(t, 'INPUT', 'OUTPUT-FILTER').encode('utf-8', 'surrogateescape'); env = sect(t, 'ENV', 'ARGS')
    script = ('unset BOXES HOME XDG_CONFIG_HOME TERM COLORTERM NO_COLOR LC_ALL LANG\n' + (env if env.strip() else 'export BOXES=../boxes-config\n') + '\n')
    p = subprocess.run(['bash', '-c', script + 'for v in BOXES HOME XDG_CONFIG_HOME TERM COLORTERM LC_ALL LANG; do if [ -n "${!v+x}" ]; then printf "%s=%s\\0" "$v" "${!v}"; fi; done; printf "\\0"; eval "set -- $BXARGS"; for a in "$@"; do printf "%s\\0" "$a"; done'], env={'BXARGS': args, 'PATH': '/usr/bin:/bin'}, cwd=T, capture_output=True)
    o = p.stdout; e, _, a = o.partition(b'\0\0') if not o.startswith(b'\0') else (b'', 0, o[1:])
    if any(c in args for c in '|<>') and "'" not in args and '"' not in args: print('skip', f); continue
    cases.append((os.path.basename(f), [x for x in e.split(b'\0') if x], a.split(b'\0')[:-1] if a else [], inp))
files = {}
for f in glob.glob(T + '/*.cfg') + glob.glob(T + '/*_data/**', recursive=True):
    if os.path.isfile(f): files[os.path.relpath(f, T)] = open(f, 'rb').read()
files['boxes-config'] = open('/repo/boxes-config', 'rb').read()
def carr(n, b): return 'static const unsigned char %s[] = {%s};\n' % (n, ','.join(map(str, b + b'\0')))
src = '#include "models.h"\n'
for i, (n, b) in enumerate(files.items()): src += carr('f%d' % i, b)
src += 'static void setup(void){ world_reset();\n' + ''.join('world_file("/%s", f%d, sizeof f%d - 1, W_FILE);\n' % (n, i, i) for i, n in enumerate(files)) + '}\n'
body = ''
for i, (nm, env, args, inp) in enumerate(cases):
    src += carr('i%d' % i, inp)
    for j, a in enumerate(args): src += carr('a%d_%d' % (i, j), a)
    body += 'case %d: /* %s */ setup(); world_stdin(i%d, sizeof i%d - 1, 0);\n' % (i, nm, i, i)
    lc = ''
    for e in env:
        k, _, v = e.decode().partition('=')
        body += 'world_env("%s", "%s");\n' % (k, v); lc = v if k == 'LC_ALL' else lc
    if lc and 'UTF' not in lc.upper(): body += 'world_charset("%s");\n' % (lc.split('.')[1] if '.' in lc else 'ANSI_X3.4-1968')
    body += '{ const char *av[] = {"boxes"%s}; bx_run(%d, av); } break;\n' % (''.join(', (const char*) a%d_%d' % (i, j) for j in range(len(args))), len(args) + 1)
src += 'void harness_main(void){ switch (sym_choice("tc", %d)) {\n%s}\nif (bx_errlen()) sym_trace(bx_err(), bx_errlen()); sym_cover("end"); }\n' % (len(cases), body)
open(W + '/h.c', 'w').write(src)
subprocess.check_call([H + '/tools/bitcode.sh', W]); subprocess.check_call([H + '/tools/native.sh', W + '/src', W, 'plain'])
cl = ['clang-18', '-w', '-I' + H + '/models']
subprocess.check_call(cl + ['-O1', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-g1', '-emit-llvm', '-c', W + '/h.c', '-o', W + '/h.bc'])
subprocess.check_call(cl + ['-O0', W + '/h.c', H + '/native/rt.c', '-o', W + '/replay'])
out = W + '/o'; shutil.rmtree(out, True); os.makedirs(out)
subprocess.check_call([H + '/build/symex', '--repo', W + '/repo.bc', '--out', out, '--traces', '100000', '--frontier', '16', H + '/build/models.bc', W + '/h.bc'])
seen = {}; good = 0
for rf in glob.glob(out + '/result.*.json'):
    r = json.load(open(rf))
    for v in r['violations']: print('VIOL', v['kind'], v['msg'], v['where'][:200], cases[int(v['log'].split()[2])][0])
    for u in r['unsup']: print('UNSUP', r['unsup'][u], u)
    for t in r['traces']: seen[int(t['log'].split()[2])] = bytes.fromhex(t['trace'])
for i, c in enumerate(cases):
    if i not in seen: print('no engine result', c[0]); continue
    open(W + '/log', 'w').write('C tc %d\n' % i); sc = W + '/scr'; shutil.rmtree(sc, True); os.makedirs(sc)
    p = subprocess.run([W + '/replay', W + '/log', W + '/boxes-plain', sc], capture_output=True)
    tr = b''.join(bytes.fromhex(l.split()[1]) for l in p.stdout.decode().splitlines() if l.startswith('TRACE') and len(l.split()) > 1)
    if tr == seen[i]: good += 1
    else:
        k = next((k for k in range(min(len(tr), len(seen[i]))) if tr[k] != seen[i][k]), min(len(tr), len(seen[i])))
        print('DIFF', c[0], 'at', k, 'native', tr[max(0,k-40):k + 60], 'engine', seen[i][max(0,k-40):k + 60])
print(good, 'of', len(cases), 'agree')
