#!/usr/bin/env python3
# Rewrites the "fixed:" lines of known_findings.txt from the fix commits in /repo.
import subprocess, os
P = {"set and map upper_bound": "P02", "rbtree::count": "P05", "rbtree::remove lost": "P05", "self-assignment of set": "P06", "vector::reserve": "P09",
 "vector and fixed_vector erase": "P08", "insertion of an own": "P11", "fixed_vector::insert": "P10", "fixed_vector::swap": "P28", "self-assignment of vector": "P29",
 "list::clear left": "P12", "list::resize to zero": "P12", "list::resize left": "P12", "list::erase of an empty": "P12", "list::splice": "P13", "list::remove used": "P11",
 "self-assignment of list": "P29", "forward_list::splice_after": "P14", "backward_list tail after insertion": "P15", "backward_list tail after pop_front": "P15",
 "backward_list and lazy_queue tail": "P28", "backward_list tail after reverse": "P15", "lazy_queue::cleanup": "P16", "list::swap of two": "P28", "list::merge with itself": "P13",
 "sorted_vector_map with a capacity": "P18", "sorted_vector_map::count": "P18", "sorted_vector_map::equal_range": "P18", "vector_map::count": "P17", "bitset constructed from a string": "P21",
 "assignment of a bitset reference": "P19", "bitset::set(pos": "P19", "conversion from a shorter": "P21", "bitset<0>": "P21", "search_n": "P22", "min returned": "P25"}
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); f = os.path.join(H, 'known_findings.txt')
keep = [l for l in open(f) if not l.startswith('fixed:')]
out = []
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]; p = [v for k, v in P.items() if s.startswith(k)]
    assert len(p) == 1, s
    out.append(f'fixed: property={p[0]} {h} {s}\n')
open(f, 'w').writelines(keep + out); print(len(out))
