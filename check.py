#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   -- decide one property of raalkml/ttl.

Compiles the property's harnesses against /repo's current headers to LLVM IR, runs
the symbolic executor (engine/symex) over them, replays every reported violation on
natively compiled code, and writes evidence/<property>.json.
Exit 0: held on everything explored (what was not explored is in the evidence).
Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run.
"""
import sys, os, re, json, subprocess, shutil, time, glob, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from units import PROPS, ASSUMPTIONS
REPO = os.environ.get('TTL_REPO', '/repo')
ENGINE = os.path.join(HERE, 'engine', 'symex')
NCPU = os.cpu_count() or 4

def tool(*names):
    for n in names:
        p = shutil.which(n)
        if p: return p
    sys.exit('missing tool: ' + names[0])

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def known_findings(prop):
    res = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) entry=(\S+) msg="([^"]*)" (.*)', l)
            if m and m.group(1) == prop: res[m.group(2)] = (m.group(3), m.group(4).strip())
    return res

def defs_of(u, tier):
    d = dict(u.get('defs', {})); d.update(u.get(tier, {}))
    return d

def build_unit(i, u, tier, wd):
    """returns dict(bc=..., nat=..., err=...)"""
    src = os.path.join(HERE, 'harness', u['src'])
    d = [f'-D{k}={v}' for k, v in defs_of(u, tier).items()]
    inc = ['-I' + REPO, '-I' + os.path.join(HERE, 'rt'), '-I' + os.path.join(HERE, 'harness')]
    bc0, bc, nat = (os.path.join(wd, f'u{i}{x}') for x in ('.0.bc', '.bc', '.nat'))
    cl = tool('clang++-18', 'clang++')
    ir = lambda: sh([cl, '-std=gnu++17', '-w', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti',
                     '-gline-tables-only', '-emit-llvm', '-c', *inc, *d, src, '-o', bc0])
    r = ir()
    if r.returncode:   # code that asks more of iterators and elements than their category promises: decide it for types that offer more
        d.append('-DVP_PERMISSIVE'); r2 = ir()
        if not r2.returncode: r = r2
    if r.returncode: return dict(err='compile (IR): ' + r.stdout[:2000])
    r = sh([tool('opt-18', 'opt'), '-passes=sroa,instsimplify', bc0, '-o', bc])
    if r.returncode: return dict(err='opt: ' + r.stdout[:2000])
    return dict(bc=bc, nat=nat, src=src, d=d, inc=inc)

SAN = ['-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,return,unreachable,bounds', '-fno-sanitize-recover=all']
def build_native(b, variant):
    rt = os.path.join(HERE, 'rt', 'vp_rt.cpp')
    nat = b['nat'] + variant
    if variant == 'asan': cmd = [tool('clang++-18', 'clang++'), '-O1', '-g1', *SAN]
    elif variant == 'asan0': cmd = [tool('clang++-18', 'clang++'), '-O0', '-g1', '-fsanitize=address', '-ftrivial-auto-var-init=pattern']
    elif variant == 'msan': cmd = [tool('clang++-18', 'clang++'), '-O0', '-g1', '-fsanitize=memory']
    else: cmd = [tool('clang++-18', 'clang++'), '-O2']
    r = sh(cmd + ['-std=gnu++17', '-w', '-fno-exceptions', '-fno-rtti', '-rdynamic', *b['inc'], *b['d'], b['src'], rt, '-o', nat, '-ldl'])
    if r.returncode: return None, r.stdout[:2000]
    return nat, ''

def replay(nat, cases, onefill=False, timeout=10):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=1', VP_TIMEOUT=str(timeout))
    if onefill: env['VP_ONEFILL'] = '1'
    out = {}
    def one(chunk):
        r = sh([nat] + chunk, env=env)
        return [l[7:].split(' ', 1) for l in r.stdout.splitlines() if l.startswith('RESULT ')]
    chunks = [cases[k::NCPU] for k in range(NCPU) if cases[k::NCPU]]
    with ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(one, chunks):
            for f, st in res: out[f] = st
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = PROPS[prop]
    wd = os.path.join(HERE, 'build', prop); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    od = os.path.join(HERE, 'out', prop); shutil.rmtree(od, ignore_errors=True); os.makedirs(od)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    r = sh(['make', '-s', '-C', os.path.join(HERE, 'engine')])
    if r.returncode: print(r.stdout); sys.exit(2)
    kf = known_findings(prop)
    units = [u for u in P['units'] if tier == 'thorough' or not u.get('thorough_only')]
    problems, broken, viols, unconf, kfhit = [], [], [], [], {}
    budget = P.get('time', {}).get(tier, 420 if tier == 'quick' else 3000)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, queries_sat=0, queries_unsat=0,
               queries_integer_view=0, implied_by_order_closure=0, implied_reproved=0, solver_s=0.0, engine_s=0.0,
               functions_encoded=set(), bounds=[], entries=[], reach={}, asserts={}, lines={}, second_solver_agreed=0, exhaustive=True)
    with ThreadPoolExecutor(NCPU) as ex:
        built = list(ex.map(lambda iu: build_unit(iu[0], iu[1], tier, wd), enumerate(units)))
        nats = [ex.submit(build_native, b, 'asan') if 'bc' in b else None for b in built]
        for i, (u, b) in enumerate(zip(units, built)):
            if 'err' in b: broken.append(f"{u['src']}: {b['err']}"); continue
            ents = list(u['entries'])
            if tier == 'thorough': ents += u.get('thorough_entries', [])
            eo = os.path.join(wd, f'u{i}.out'); os.makedirs(eo)
            left = max(20, budget - (time.time() - t0)); left = min(left, max(60, 2 * left / (len(units) - i)))
            cmd = [ENGINE, b['bc'], '--out', eo, '--workers', str(NCPU), '--time', str(left), '--seed', str(seed),
                   '--steps', str(u.get('steps', 3000000)), '--samples', '12' if tier == 'quick' else '40', '--after-viol', '20' if tier == 'quick' else '90']
            if tier == 'thorough': cmd += ['--dump', '997']
            r = sh(cmd + ents)
            if r.returncode or not os.path.exists(eo + '/stats.json'):
                broken.append(f"{u['src']}: engine failed: {r.stdout[-1500:]}"); continue
            st = json.load(open(eo + '/stats.json'))
            if st['incomplete']: problems.append(f"{u['src']}: incomplete: {st['incomplete_msg']}")
            # the recorded findings, apart from the rest
            kfe = [e for e in u.get('kf', []) if e in kf]
            if kfe:
                ko = os.path.join(wd, f'u{i}.kf'); os.makedirs(ko)
                sh([ENGINE, b['bc'], '--out', ko, '--workers', str(NCPU), '--time', '60', '--seed', str(seed), '--steps', str(u.get('steps', 3000000)), '--after-viol', '5'] + kfe)
            for e in st['entries']:
                cov['states'] += e['paths'] + e['assumed_away']; cov['transitions'] += e['steps']
                cov['entries'].append(dict(entry=e['name'], unit=i, paths=e['paths'], queries=e['queries'], solver_s=e['solver_s'], forks=e['forks']))
                if e['paths'] == 0 and e['violations'] == 0 and not st['incomplete']: broken.append(f"{e['name']}: no path completed (vacuous)")
            cov['queries'] += st['q_sat'] + st['q_unsat']; cov['queries_sat'] += st['q_sat']; cov['queries_unsat'] += st['q_unsat']
            cov['queries_integer_view'] += st['q_integer_view']; cov['implied_by_order_closure'] += st['implied_hits']; cov['implied_reproved'] += st['implied_reproved']
            cov['solver_s'] += st['solver_s']; cov['engine_s'] += st['wall']
            cov['functions_encoded'].update(f for f in st['functions'] if f.startswith('ttl::') or ' ttl::' in f[:60])
            cov['bounds'].append(f"{u['src']} [{', '.join(ents)}]: " + ('(iterators and elements with more operations than required, as the code asks for them) ' if '-DVP_PERMISSIVE' in b['d'] else '') + (u.get('bounds', '') + ' ' + ' '.join(f'{k}={v}' for k, v in defs_of(u, tier).items())).strip())
            for k, v in st['reach'].items(): cov['reach'][k] = cov['reach'].get(k, 0) + v
            for k, v in st['asserts'].items(): cov['asserts'][k] = cov['asserts'].get(k, 0) + v
            for f, (h, n, miss) in st['lines_hit'].items():
                a = cov['lines'].setdefault(f, [0, 0]); a[0] = max(a[0], h); a[1] = max(a[1], n)
            # vacuity witnesses required by this unit
            need = u.get('reach', [])
            for lab in need:
                if not st['reach'].get(lab): (problems if st['incomplete'] or st['nviol'] else broken).append(f"{u['src']}: witness '{lab}' never reached")
            nat, err = nats[i].result()
            if not nat: broken.append(f"{u['src']}: native build: {err}"); continue
            # violations: replay on the real code
            vc = sorted(glob.glob(eo + '/viol_*.case') + glob.glob(os.path.join(wd, f'u{i}.kf', 'viol_*.case')), key=lambda p: int(re.search(r'_(\d+)\.case', p).group(1)))
            if vc:
                res = replay(nat, vc)
                if any(not s.startswith('FAIL') for s in res.values()):
                    for var in ('asan0', 'o2', 'msan'):
                        todo = [c for c in vc if not res.get(c, '').startswith('FAIL')]
                        if not todo: break
                        n2, _ = build_native(b, var)
                        if n2:
                            for c, s in replay(n2, todo).items():
                                if s.startswith('FAIL'): res[c] = s
                for c in vc:
                    txt = open(c).read(); g = lambda k: (re.search(rf'^{k} (.*)$', txt, re.M) or [0, '?'])[1]
                    rec = dict(entry=g('entry'), kind=g('kind'), msg=g('msg'), loc=g('loc'), native=res.get(c, '?'), case=c, unit=i)
                    if not rec['native'].startswith('FAIL'): unconf.append(rec)
                    elif rec['entry'] in kfe and rec['msg'] == kf[rec['entry']][0]: kfhit.setdefault(rec['entry'], rec)
                    else: viols.append(rec)
            # sampled paths: the real code must behave as the engine says
            sc = sorted(glob.glob(eo + '/samp_*.case'))
            if sc:
                res = replay(nat, sc, onefill=True, timeout=30)
                bad = [(c, s) for c, s in res.items() if s != 'OK']
                cov['traces_validated_against_impl'] += len(res) - len(bad)
                if bad and not viols and not [x for x in unconf]: problems.append(f"{u['src']}: engine/native disagreement on {len(bad)} sampled paths, e.g. {bad[0]}")
                for c in sc[:2]: cov['samples'].append(' | '.join(open(c).read().split('\n')[:14]))
            dq = glob.glob(eo + '/*.smt2')
            if dq and shutil.which('cvc5'):
                random.Random(seed).shuffle(dq)
                def chk(f):
                    want = open(f).readline().split()[-1]
                    try: r = sh(['cvc5', '--tlimit=20000', f])
                    except Exception: return None
                    o = r.stdout.split(); return (o[0] == want) if o and o[0] in ('sat', 'unsat') else None
                rs = list(ex.map(chk, dq[:40])); cov['second_solver_agreed'] += sum(1 for x in rs if x)
                if any(x is False for x in rs): problems.append(f"{u['src']}: cvc5 disagrees with Z3")
            if viols and time.time() - t0 > 60: break
    cov['functions_encoded'] = sorted(cov['functions_encoded'])[:400]
    cov['lines'] = {k: f'{v[0]}/{v[1]}' for k, v in cov['lines'].items()}
    cov['solver_s'] = round(cov['solver_s'], 3); cov['engine_s'] = round(cov['engine_s'], 3)
    cov['exhaustive'] = not problems and not broken and not unconf
    cov['problems'] = problems + broken
    cov['unconfirmed'] = [{k: v[k] for k in ('entry', 'kind', 'msg', 'loc', 'native')} for v in unconf[:20]]
    cov['known_findings_seen'] = [kf[e][1] for e in kfhit]
    for e, rec in kfhit.items(): print(f"KNOWN-FINDING: property={prop} {kf[e][1]}")
    seen = {}
    for v in viols:
        key = (v['entry'], v['kind'], v['msg'], v['loc'])
        if key in seen: continue
        n = len(seen); seen[key] = v
        rp = os.path.join(od, f'replay_{n}.sh'); cp = os.path.join(od, f'replay_{n}.case'); shutil.copy(v['case'], cp)
        b = built[v['unit']]
        with open(rp, 'w') as f:
            f.write('#!/bin/bash\n# ' + json.dumps({k: v[k] for k in ('entry', 'kind', 'msg', 'loc', 'native')}) + '\n'
                    + 'D=$(cd "$(dirname "$0")" && pwd)\n'
                    + f"clang++-18 -O1 -g {' '.join(SAN)} -std=gnu++17 -w -fno-exceptions -fno-rtti -rdynamic {' '.join(b['inc'] + b['d'])} {b['src']} {HERE}/rt/vp_rt.cpp -o \"$D/replay.bin\" -ldl && ASAN_OPTIONS=detect_leaks=0 \"$D/replay.bin\" \"$D/replay_{n}.case\"\n")
        if n < 12: print(f"VIOLATION property={prop} replay={rp} [{v['entry']}] {v['kind']}: {v['msg']} at {v['loc']}; native: {v['native'][:160]}")
    for v in unconf[:6]: print(f"unconfirmed (not reproduced by the real code, not reported): [{v['entry']}] {v['kind']}: {v['msg']} at {v['loc']}; native: {v['native']}")
    for p in problems: print('note:', p)
    for p in broken: print('broken:', p)
    rc = 1 if viols else 2 if broken else 0
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(seen), assumptions=ASSUMPTIONS + P.get('assumptions', []))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f"{prop} {tier}: rc={rc} states={cov['states']} queries={cov['queries']} solver_s={cov['solver_s']} wall={ev['wall_s']}s native-validated={cov['traces_validated_against_impl']}")
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)
main()
