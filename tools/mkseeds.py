#!/usr/bin/env python3
"""Writes and verifies the planted bugs of /verif/seeded.

usage: mkseeds.py SPECS.py [id...]   -- SPECS.py calls S(id, property, file, [(old, new)], needs, breaks, demo)
Each is applied to a scratch copy of /repo, built and tested there, and its demo run with and without it.
"""
import sys, os, json, subprocess, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__)); SEED = os.path.join(HERE, '..', 'seeded')
W = '/tmp/plant/repo'
specs = []
def S(id, prop, edits, needs, breaks, demo, san=False): specs.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, san=san))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for a in sys.argv[1:]:
    if a.endswith('.py'): exec(open(a).read())
only = [a for a in sys.argv[1:] if not a.endswith('.py')]
HEAD = '''#include <cstdio>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
DEMO = '''#!/bin/sh
# Compiles demo.cpp against the headers in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -O0 -g -w %s-I. -o "$t/demo" "$d/demo.cpp" || exit 8
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
'''
base = [l for l in sh('git -C /repo log --format=%H --reverse').stdout.split()]
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
os.chdir(W)
for s in specs:
    if only and s['id'] not in only: continue
    sh('git checkout -q -- .'); bad = []
    for f, old, new in s['edits']:
        p = f'ttl/{f}'; t = open(p).read()
        if t.count(old) != 1: bad.append(f'{f}: {t.count(old)} matches of {old[:60]!r}'); continue
        open(p, 'w').write(t.replace(old, new))
    if bad: print(s['id'], 'EDIT', bad); continue
    diff = sh('git diff').stdout
    # removed lines must be original
    cur = None
    for l in diff.splitlines():
        m = re.match(r'@@ -(\d+)', l)
        if l.startswith('--- a/'): cur = l[6:]
        elif m: ln = int(m.group(1)) - 1
        if m or l.startswith(('---', '+++', 'diff', 'index')): continue
        if l.startswith(('-', ' ')): ln += 1
        if l.startswith('-'):
            b = sh(f'git blame -s -L {ln},{ln} HEAD -- {cur}').stdout
            if sh('git log -1 --format=%s ' + b.split()[0].lstrip('^')).stdout.startswith('fix:'): bad.append('touches a fix line: ' + l)
    d = os.path.join(SEED, s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(HEAD + s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO % ('-fsanitize=address,undefined -fno-sanitize-recover=all ' if s['san'] else '')); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    r1 = sh('bash /tmp/plant/vp/test.sh /tmp/plant/out.json')
    o = json.load(open('/tmp/plant/out.json')); miss = stable - set(o['passed'])
    with_ = sh(d + '/demo.sh'); sh('git checkout -q -- .'); without = sh(d + '/demo.sh')
    if miss: bad.append(f'tests fail: {sorted(miss)}' if len(miss) < 10 else 'build fails: ' + r1.stdout[-600:])
    if with_.returncode == 0: bad.append('demo passes with the patch')
    if with_.returncode == 8: bad.append('demo does not compile with the patch ' + with_.stdout[-400:])
    if without.returncode != 0: bad.append('demo fails without the patch: ' + without.stdout[-600:])
    if bad: shutil.rmtree(d)
    print(s['id'], 'BAD ' + str(bad) if bad else 'ok: ' + (with_.stdout.strip().splitlines() or ['rc=%d' % with_.returncode])[-1][:100], flush=True)
