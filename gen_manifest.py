"""writes MANIFEST.json: python3 gen_manifest.py"""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the current source of the functions under contract is discharged for all inputs and all '
        'iterations; trusted: clang front end, the VC generator in vcgen/, z3/cvc5, the library models and assumptions listed in the evidence. ')
notes = json.load(open(os.path.join(HERE, 'claims.json')))
checks, na = [], []
for p in props:
    n = notes.get(p, {'na': 'no contract set yet'})
    if 'na' in n:
        na.append({'property': p, 'reason': n['na']})
    else:
        checks.append({'property': p, 'quick_cmd': 'python3-vt check.py %s quick' % p, 'thorough_cmd': 'python3-vt check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'contract-based deductive verification: function contracts, loop contracts and lemmas over the LLVM IR of the real code, discharged by z3/cvc5',
                       'level': n.get('level', 'proof'), 'level_note': NOTE + n['note']})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na,
           'notes': 'check.py compiles the sources a property depends on from /repo to LLVM IR on every run and proves the contracts in contracts/; see DESIGN.md.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
