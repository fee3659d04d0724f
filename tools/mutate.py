#!/usr/bin/env python3
"""Mutates the headers line by line and tells which mutants the harnesses, run with small bounds, do not notice.
usage: mutate.py OUT [file.hpp...]   -- survivors are to be read by hand: equivalent, or a gap in a harness."""
import sys, os, re, subprocess, json, hashlib, shutil
from multiprocessing import Pool
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('TTL_REPO', '/repo') + '/ttl'
MAP = {'rbtree.hpp': ['trees', 'stable'], 'set.hpp': ['trees', 'stable'], 'map.hpp': ['trees', 'stable'], 'vector.hpp': ['vec'], 'fixed_vector.hpp': ['vec'],
       'list.hpp': ['lists', 'stable', 'calls'], 'forward_list.hpp': ['lists', 'stable'], 'backward_list.hpp': ['lists', 'stable'], 'lazy_queue.hpp': ['lists', 'stable'], 'slist_node.hpp': ['lists', 'stable'],
       'vector_map.hpp': ['maps'], 'sorted_vector_map.hpp': ['maps'], 'bitset.hpp': ['bits'], 'algorithm.hpp': ['algos', 'calls', 'mixed', 'truth'], 'array.hpp': ['misc'], 'utility.hpp': ['misc'], 'numeric.hpp': ['algos', 'mixed'], 'functional.hpp': ['misc']}
DEFS = {'bits': ["-DWIDTHS=W(1)W(33)W(64)W(65)"]}
SUB = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' < ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'\+\+', '--'), (r'--', '++'), (r'\+= ', '-= '), (r'-= ', '+= '), (r'(?<![=!<>])!(?![=])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bfirst\b', 'last'), (r'\blast\b', 'first'), (r'\bnext\b', 'prev'), (r'\bprev\b', 'next'),
       (r'\bleft\b', 'right'), (r'\bright\b', 'left'), (r'\bbegin\(\)', 'end()'), (r'\bend\(\)', 'begin()'), (r'\bRED\b', 'BLACK'), (r'\bBLACK\b', 'RED'), (r' & ', ' | '), (r' \| ', ' & '), (r' \^= ', ' |= '), (r' \|= ', ' ^= '), (r' &= ', ' |= '), (r'<<', '>>'), (r'>>', '<<'), (r'~', ''),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'\btail_\b', 'head_.next'), (r'first1', 'last1'), (r'first2', 'last2'), (r'upper_bound', 'lower_bound'), (r'lower_bound', 'upper_bound'), (r'\bfirst\b', 'second'), (r'\bsecond\b', 'first'), (r'root_edge', 'edge')]
def mutants(f):
    L = open(f'{R}/{f}').read().split('\n'); com = False
    for n, l in enumerate(L):
        if '/*' in l and '*/' not in l: com = True
        if '*/' in l: com = False
        s = l.split('//')[0]
        if com or not s.strip() or s.strip().startswith(('#', 'typedef', 'friend', 'template', 'namespace', 'public', 'private', 'protected', 'struct', 'class')): continue
        done = set()
        for a, b in SUB:
            for m in re.finditer(a, s):
                t = s[:m.start()] + b + s[m.end():]
                if t not in done: done.add(t); yield n, t
        if re.match(r'\s+[^{}()]*[=(+-].*;\s*$', s) and not re.match(r'\s+(return|typedef|for|while|if|else|const|static|friend|explicit|template)\b', s) and 'operator' not in s: 
            yield n, re.match(r'\s*', s).group() + ';'
        m = re.match(r'(\s*(?:else )?if )\((.*)\)\s*$', s)
        if m: yield n, m.group(1) + '(true)'; yield n, m.group(1) + '(false)'
        m = re.match(r'(\s*)else\b\s*(.*)$', s)
        m = re.match(r'(\s*)while \((.*)\)\s*$', s)
        if m: yield n, m.group(1) + 'if (' + m.group(2) + ')'
def one(a):
    f, n, t = a; h = hashlib.md5(repr(a).encode()).hexdigest()[:10]; d = f'/tmp/mut/{h}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d); shutil.copytree(R, d + '/ttl')
    L = open(f'{d}/ttl/{f}').read().split('\n'); L[n] = t; open(f'{d}/ttl/{f}', 'w').write('\n'.join(L)); res = 'SURVIVES'
    for s in MAP[f]:
        sh = lambda c, to=200: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=to)
        r = sh(f"clang++-18 -std=gnu++17 -O0 -w -Xclang -disable-O0-optnone -fno-exceptions -fno-rtti -gline-tables-only -emit-llvm -c -I{d} -I{V}/rt {' '.join(repr(x) for x in DEFS.get(s, []))} {V}/harness/{s}.cpp -o {d}/h0.bc && opt-18 -passes='sroa,instsimplify' {d}/h0.bc -o {d}/h.bc")
        if r.returncode: res = 'stillborn'; break
        src = open(f'{V}/harness/{s}.cpp').read(); ents = [e for e in re.findall(r'(?:VP_ENTRY|ENTRYW?)\(([a-z]\w+)', src) if e != 'name' and not re.search('huge|_rnd|_big', e)]
        for e in ents:
            os.makedirs(d + '/o', exist_ok=True)
            try: r = sh(f'{V}/engine/symex {d}/h.bc --out {d}/o --workers 1 --time {TL} --after-viol 0 --samples 0 {e}', 60)
            except subprocess.TimeoutExpired: continue
            try: v = json.load(open(f'{d}/o/stats.json'))['entries'][0]['violations']
            except Exception: v = -1
            shutil.rmtree(d + '/o', ignore_errors=True)
            if v: res = f'caught {e}' if v > 0 else f'crash {e}'; break
        if res != 'SURVIVES': break
    shutil.rmtree(d, ignore_errors=True)
    return f, n + 1, t.strip(), res
TL = float(os.environ.get('TL', 3))
if __name__ == '__main__':
    out = open(sys.argv[1], 'a'); todo = [(f, n, t) for f in (sys.argv[2:] or MAP) for n, t in mutants(f)]
    if os.environ.get('EVERY'): todo = todo[::int(os.environ['EVERY'])]
    print(len(todo), 'mutants', flush=True)
    with Pool(int(os.environ.get('J', 6))) as p:
        for f, n, t, r in p.imap_unordered(one, todo): out.write(f'{f}:{n}: {r}: {t}\n'); out.flush()
