#!/usr/bin/env python3
"""run.py ID [quick|thorough]  -- decides one property on /repo's current tree"""
import sys, os, re, json, glob, time, subprocess, shutil, hashlib, fcntl
H = os.path.dirname(os.path.abspath(__file__)); B = H + '/build'
sys.path.insert(0, H)
from harness.spec import SPEC
ENGINE = ['clang-18', '-w', '-I' + H + '/models', '-I' + H + '/harness']
BC = ['-O1', '-fno-pic', '-fno-pie', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-g1', '-U_FORTIFY_SOURCE', '-emit-llvm', '-c']
MEMKINDS = {'null', 'oob', 'uaf', 'wild', 'dfree', 'bfree', 'rodata', 'overlap', 'stack', 'abort', 'unreachable', 'div', 'uninit'}

def note(*a): print(*a, flush=True)

def ensure_setup():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = [H + '/engine/' + f for f in os.listdir(H + '/engine')] + [H + '/models/models.c', H + '/models/models.h', H + '/setup.sh']
        h = hashlib.sha1(b''.join(open(f, 'rb').read() for f in sorted(src))).hexdigest()
        st = B + '/setup.stamp'
        if not (os.path.exists(st) and open(st).read() == h and os.path.exists(B + '/symex') and os.path.exists(B + '/models.bc')):
            subprocess.check_call([H + '/setup.sh']); open(st, 'w').write(h)

class Run:
    def __init__(s, pid, tier):
        s.pid, s.tier = pid, tier; s.spec = SPEC[pid]; s.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        s.W = '%s/work/%s' % (B, pid); shutil.rmtree(s.W, True); os.makedirs(s.W); s.t0 = time.time(); s.native = {}
        s.viol = []; s.unconf = []; s.jobs = []; s.known_hit = {}; s.known = []; s.samples = []; s.validated = 0; s.mismatch = []
        for l in open(H + '/known_findings.txt') if os.path.exists(H + '/known_findings.txt') else []:
            m = re.match(r'known: property=(\S+) id=(\S+) (.*)', l)
            if m and m[1] == pid: s.known.append((m[2], m[3].strip()))
    def build(s):
        subprocess.check_call([H + '/tools/bitcode.sh', s.W])
        s.np = subprocess.Popen([H + '/tools/native.sh', s.W + '/src', s.W, 'plain'])
        s.na = subprocess.Popen([H + '/tools/native.sh', s.W + '/src', s.W, 'asan']) if s.spec.get('asan') else None
    def compile(s, j):
        f = H + '/harness/' + j['src']; d = ['-DTIER=%d' % (1 if s.tier == 'thorough' else 0)] + ['-D' + x for x in j.get('defs', []) + os.environ.get('VERIF_DEF', '').split()]
        b = s.W + '/' + j['name']
        gen = j.get('gen')
        if gen: gen(s.W)
        inc = ['-I' + s.W]
        p = subprocess.Popen(ENGINE + inc + ['-O0'] + d + [f, H + '/native/rt.c', '-o', b + '.replay'])
        subprocess.check_call(ENGINE + inc + BC + d + [f, '-o', b + '.bc'])
        if p.wait(): raise SystemExit('native harness does not compile')
    def exe(s, v):
        if v == 'asan' and s.na is None: s.na = subprocess.Popen([H + '/tools/native.sh', s.W + '/src', s.W, 'asan'])
        p = s.np if v == 'plain' else s.na
        if p.wait(): raise SystemExit('native build failed')
        return '%s/boxes-%s' % (s.W, v)
    def replay(s, j, log, variant, valgrind=False, verbose=False):
        lf = s.W + '/replay.log'; open(lf, 'w').write(log); sc = s.W + '/scr'; shutil.rmtree(sc, True); os.makedirs(sc)
        p = subprocess.run([s.W + '/' + j['name'] + '.replay', lf, s.exe(variant), sc] + (['valgrind'] if valgrind else []) + (['-v'] if verbose else []), capture_output=True)
        return p.returncode, p.stdout
    def explore(s, j):
        out = s.W + '/' + j['name'] + '.out'; shutil.rmtree(out, True); os.makedirs(out)
        budget = j.get('time', {}).get(s.tier, 45 if s.tier == 'quick' else 240)
        cmd = [B + '/symex', '--repo', s.W + '/repo.bc', '--out', out, '--time', str(budget), '--seed', str(s.seed), '--frontier', str(j.get('frontier', 400)), '--traces', str(j.get('traces', 6)), '--steps', str(j.get('steps', 200000000)), '--maxviol', '2000' if os.environ.get('VERIF_DEBUG') == '2' else '3', B + '/models.bc', s.W + '/' + j['name'] + '.bc']
        t = time.time(); p = subprocess.run(cmd, capture_output=True, text=True); 
        R = {'name': j['name'], 'wall_s': round(time.time() - t, 2), 'exit': p.returncode, 'stderr': p.stderr[-2000:], 'functions': {}, 'cover': {}, 'unsup': {}, 'limits': {}}
        V, T = [], []
        for f in sorted(glob.glob(out + '/result.*.json')):
            try: r = json.load(open(f))
            except Exception: R['exit'] = R['exit'] or 5; continue
            for k, v in r.items():
                if isinstance(v, (int, float)): R[k] = R.get(k, 0) + v
                elif isinstance(v, dict):
                    for a, b in v.items(): R[k][a] = R[k].get(a, 0) + b
            V += r['violations']; T += r['traces']
        return R, V, T
    def violation(s, j, v, out, how):
        n = len(s.viol) + 1; d = '%s/replay/%s' % (B, s.pid); os.makedirs(d, exist_ok=True); f = '%s/%d.txt' % (d, n)
        rc, txt = s.replay(j, v['log'], 'plain', verbose=True)
        open(f, 'wb').write(('property %s, harness %s\n%s: %s\nat %s\nconfirmed: %s\nsolver assignment:\n%s\nreplay on the real program:\n' % (s.pid, j['src'], v['kind'], v['msg'], v['where'], how, v['log'])).encode() + txt)
        s.viol.append(f); note('  violation: %s: %s  [%s]\n    at %s\n    %s' % (v['kind'], v['msg'], how, v['where'][:300], ' '.join(v['log'].split('\n'))[:300]))
    def judge(s, j, V):
        if os.environ.get('VERIF_DEBUG') == '2':
            import collections
            for msg in sorted({v['msg'] for v in V}):
                C = collections.OrderedDict(); n = 0
                for v in V:
                    if v['msg'] != msg: continue
                    n += 1
                    for l in v['log'].split('\n'):
                        p = l.split(' ')
                        if p[0] == 'C': C.setdefault(p[1], collections.Counter())[p[2]] += 1
                note('  ##', msg, n); [note('     ', a, ' '.join('%s:%d' % x for x in sorted(b.items(), key=lambda x: int(x[0])))) for a, b in C.items()]
                by = os.environ.get('VERIF_BY')
                if by:
                    G = {}
                    for v in V:
                        if v['msg'] == msg: G.setdefault(' '.join(re.findall(r'C (?:%s) \d+' % by, v['log'])), v)
                    for g, v in sorted(G.items())[:int(os.environ.get('VERIF_MAX', '12'))]: note('=====', g, '|', v['log'].replace('\n', ' ')); note(re.sub(r'\n(TRACE|COVER).*', '', s.replay(j, v['log'], 'plain', verbose=True)[1].decode('utf8', 'replace')))
        seen = {}
        if s.spec.get('only'): V = [v for v in V if v['kind'] in s.spec['only']]
        for v in V:
            fn = re.sub(r'@[^ ]*', '', v['where']).split(' < ')
            k = (v['kind'], v['msg'], v['where']) if v['kind'] != 'assert' else (v['kind'], v['msg'])
            if seen.get(k, 0) >= (2 if v['kind'] == 'assert' else 1): continue
            kid = next((i for i, _ in s.known if v['msg'].startswith(i + ':')), None)
            if kid and seen.get(k): continue
            how = None
            if v['kind'] == 'assert':
                rc, o = s.replay(j, v['log'], 'plain')
                if rc == 10 or rc == 11: how = o.decode('utf8', 'replace').strip().split('\n')[-1]
                nm = re.search(r'ASSERT (.*)', how or '')
                if nm:
                    kid = next((i for i, _ in s.known if nm[1].startswith(i + ':')), None)
            elif v['kind'] in MEMKINDS or v['kind'] == 'steps':
                rc, o = s.replay(j, v['log'], 'plain')
                if rc in (10, 11): how = o.decode('utf8', 'replace').strip().split('\n')[-1]
                elif v['kind'] != 'steps' and s.spec.get('memory'):
                    if v['kind'] != 'uninit':
                        rc, o = s.replay(j, v['log'], 'asan')
                        if rc == 11: how = o.decode('utf8', 'replace').strip().split('\n')[-1]
                    if not how:
                        rc, o = s.replay(j, v['log'], 'plain', valgrind=True)
                        if rc == 11: how = 'valgrind reports the access'
                if how and not s.spec.get('memory') and not s.spec.get('crash', True): how = None
            if how and kid: s.known_hit[kid] = s.known_hit.get(kid, 0) + 1; seen[k] = seen.get(k, 0) + 1; continue
            if how: seen[k] = seen.get(k, 0) + 1; s.violation(j, v, None, how)
            else:
                s.unconf.append('%s: %s at %s' % (v['kind'], v['msg'], v['where'][:160]))
                if os.environ.get('VERIF_DEBUG'): note('  unconfirmed', v['kind'], v['msg'], v['where'][:300], v['log'].replace('\n', ';'))
            if len(s.viol) >= 8: return
    def validate(s, j, T, limit):
        import random; rng = random.Random(s.seed); rng.shuffle(T)
        for t in T[:limit]:
            rc, o = s.replay(j, t['log'], 'plain')
            tr = b''.join(bytes.fromhex(l.split()[1]) for l in o.decode().splitlines() if l.startswith('TRACE') and len(l.split()) > 1)
            eng = bytes.fromhex(t['trace'])
            if rc == 0 and tr == eng: s.validated += 1
            elif rc in (10, 11):
                m = o.decode('utf8', 'replace').strip().split('\n')[-1]; kid = next((i for i, _ in s.known if ('ASSERT ' + i + ':') in m), None)
                if kid: s.known_hit[kid] = 1; continue
                s.violation(j, {'kind': 'replay', 'msg': m, 'where': '', 'log': t['log']}, o, m)
            else: s.mismatch.append({'log': t['log'], 'rc': rc, 'engine': eng.decode('latin1')[:400], 'native': tr.decode('latin1')[:400]})
            if len(s.samples) < 6 and rc == 0: s.samples.append({'harness': j['name'], 'inputs': t['log'].strip().replace('\n', '; ')[:400], 'observed': eng.decode('latin1')[:300]})
    def main(s):
        ensure_setup()
        try: s.build()
        except subprocess.CalledProcessError: note('cannot build /repo'); return 2
        jobs = [j for j in s.spec['jobs'] if s.tier == 'thorough' or not j.get('thorough_only')]
        tot = {}; funcs = {}; per = []; incomplete = []
        for j in jobs:
            s.compile(j); R, V, T = s.explore(j)
            s.validate(j, T, j.get('validate', 12)); s.judge(j, V)
            for k in R:
                if isinstance(R[k], (int, float)) and k != 'exit': tot[k] = tot.get(k, 0) + R[k]
            for k, v in R['functions'].items(): funcs[k] = funcs.get(k, 0) + v
            if R['exit']: incomplete.append('%s: executor ended with %s %s' % (j['name'], R['exit'], R['stderr'][-300:]))
            if R.get('dropped'): incomplete.append('%s: %d frontier states not explored within the time limit' % (j['name'], R['dropped']))
            for u, n in R['unsup'].items(): incomplete.append('%s: %d paths cut: %s' % (j['name'], n, u[:200]))
            for u, n in R['limits'].items(): incomplete.append('%s: %s x%d' % (j['name'], u, n))
            missing = [c for c in j.get('cover', []) if not R['cover'].get(c)]
            if missing: incomplete.append('%s: not reached: %s' % (j['name'], missing))
            per.append({k: R.get(k, 0) for k in ('name', 'wall_s', 'paths', 'forks', 'steps', 'asserts', 'asserts_folded', 'asserts_queried', 'z3', 'z3_time', 'unsupported', 'dropped', 'limit', 'concretized', 'assume_killed')} | {'cover': R['cover'], 'bounds': j.get('bounds', '')})
            note('[%s] %s: %d paths, %d forks, %.1fM instr, %d asserts (%d symbolic), z3 %d (%.1fs), unsup %d, dropped %d, %.1fs' % (s.pid, j['name'], R.get('paths', 0), R.get('forks', 0), R.get('steps', 0) / 1e6, R.get('asserts', 0), R.get('asserts_queried', 0), R.get('z3', 0), R.get('z3_time', 0), R.get('unsupported', 0), R.get('dropped', 0), R['wall_s']))
            if os.environ.get('VERIF_DEBUG'):
                for u, n in sorted(R['unsup'].items()): note('  unsup', n, u[:300])
                if R['exit']: note('  executor exit', R['exit'], R['stderr'][-600:])
        for i, d in s.known:
            if i in s.known_hit: note('KNOWN-FINDING: property=%s %s: %s' % (s.pid, i, d))
        for m in s.mismatch[:3]: note('note: executor and program disagree on', json.dumps(m)[:800])
        for i in incomplete: note('note:', i[:300])
        if s.unconf: note('note: %d reports of the executor were not confirmed by the real program (%s)' % (len(s.unconf), '; '.join(sorted(set(s.unconf))[:3])))
        ev = {'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': 'model_checking', 'coverage': {
                'states': int(tot.get('paths', 0)), 'transitions': int(tot.get('forks', 0)), 'traces_validated_against_impl': s.validated, 'trace_mismatches': len(s.mismatch), 'samples': s.samples or ['no completed path was sampled'],
                'exhaustive': not incomplete, 'incomplete': incomplete[:40], 'instructions_executed_symbolically': int(tot.get('steps', 0)), 'functions_encoded': dict(sorted(funcs.items())), 'function_count': len(funcs),
                'assertions_evaluated': int(tot.get('asserts', 0)), 'assertions_decided_by_folding': int(tot.get('asserts_folded', 0)), 'assertions_decided_by_solver': int(tot.get('asserts_queried', 0)),
                'solver': {'name': 'z3', 'queries': int(tot.get('z3', 0)), 'sat': int(tot.get('z3sat', 0)), 'unsat': int(tot.get('z3unsat', 0)), 'unknown': int(tot.get('z3unknown', 0)), 'time_s': round(tot.get('z3_time', 0), 3)},
                'jobs': per, 'bounds': [j.get('bounds', '') for j in jobs], 'unconfirmed_reports': sorted(set(s.unconf))[:20], 'known_findings_seen': sorted(s.known_hit)},
              'assumptions': ['C library, libunistring, pcre2 and terminfo are replaced by the models in /verif/models (validated by replaying sampled paths on the real binary)', 'memory allocation succeeds'] + s.spec.get('assumptions', []),
              'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.viol)}
        os.makedirs(H + '/evidence', exist_ok=True); json.dump(ev, open('%s/evidence/%s.json' % (H, s.pid), 'w'), indent=1)
        for f in s.viol: note('VIOLATION property=%s replay=%s' % (s.pid, f))
        for p in (s.np, s.na):
            if p: p.wait()
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(s.W, True)
        if s.viol: return 1
        if not tot.get('paths'): note('nothing was explored'); return 2
        note('property %s held on everything explored (%.1fs)' % (s.pid, time.time() - s.t0)); return 0

if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(Run(sys.argv[1], tier).main())
