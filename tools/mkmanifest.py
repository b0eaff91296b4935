"""Regenerates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = {}      # property -> level note, filled from vc/specs/levels.json
p = os.path.join(HERE, 'vc', 'specs', 'levels.json')
if os.path.exists(p):
    PROOF = json.load(open(p))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {'C27': 'Property of Python multiprocessing code (python/copclib/mp): no deductive verifier for Python contracts is '
             'installed, the code needs the compiled extension module, which cannot be built offline, and the guarantee is '
             'about worker scheduling, which function contracts cannot express.'}
checks = []
for q in props:
    if q in NA:
        continue
    pr = PROOF.get(q)
    checks.append({'property': q, 'quick_cmd': 'python3-vt check.py %s quick' % q,
                   'thorough_cmd': 'python3-vt check.py %s thorough' % q,
                   'evidence_file': 'evidence/%s.json' % q,
                   'technique': 'contract-based deductive verification of the real C++ (clang AST -> verification conditions -> z3/cvc5)' if pr
                   else 'contracts not yet discharged: bounded runs of the real code against executable contracts',
                   'level': 'proof' if pr else 'exploration',
                   'level_note': pr or 'Bounded stand-in: seeded executions of the real sources checked against executable '
                   'pre- and postconditions; nothing is proved for this property yet.'})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
