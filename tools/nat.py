"""nat.py ID... : run all harnesses natively with random inputs (sanity of the contracts)"""
import sys, os
sys.path.insert(0, '/verif/engine')
import run, extract
for i in sys.argv[1:]:
    try:
        b = extract.native(i)
    except RuntimeError as e:
        print("\n".join(l for l in str(e).split("\n") if "error" in l)[:2000]); continue
    for n in extract.contracts_in('/verif/contracts/%s.cpp' % i):
        hit, ran = run.search(b, n, [], 1, 15, 400, False)
        print(i, n, 'ran', ran, 'FAIL ' + '\n'.join(l for l in hit['output'].split('\n') if not l.startswith(('INPUT','SEED')))[:1500] if hit else 'ok')
