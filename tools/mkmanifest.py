#!/usr/bin/env python3
# Regenerates MANIFEST.json from units.py.
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from units import PROPS
NOTE = ("Holds for every value of the symbolic inputs within the bounds the evidence states (sizes, operation counts), "
        "on the compiled headers; each violation is replayed on natively compiled code before it is reported. "
        "Trusts clang's front end, the engine and Z3 (thorough runs have cvc5 re-check a sample of the queries).")
m = dict(version=1, setup_cmd='make -s -C engine && engine/selftest.sh', checks=[
    dict(property=p, quick_cmd=f'python3 check.py {p} quick', thorough_cmd=f'python3 check.py {p} thorough',
         technique='symbolic execution of the compiled headers (LLVM IR) with Z3 deciding every feasible branch and assertion', level='model_checking', level_note=NOTE)
    for p in sorted(PROPS)],
    not_applicable=[dict(property='P32', reason='type classification is settled entirely by the compiler during template instantiation; no code is left to execute symbolically and no input to quantify over')])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
