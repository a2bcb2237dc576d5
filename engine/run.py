"""Decide one property: generate the proof obligations of its contracts from the current
source of the repository, discharge them, replay failures on the real code, write the evidence.

  run.py ID [--tier quick|thorough]       exit 0: holds, 1: VIOLATION line printed
  run.py --replay FILE                    run the recorded failing input on the real code
"""
import json
import os
import resource
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract  # noqa

VERIF = extract.VERIF
PY = '/opt/veriftools/pyvenv/bin/python' if os.path.exists('/opt/veriftools/pyvenv/bin/python') else sys.executable
KNOWN = os.path.join(VERIF, 'known_findings.txt')
T0 = time.time()

# wall clock limits in seconds
TIERS = {
    'quick': dict(harness=330, deadline=420, replay=60, bounded=25, seeds=5000, cross=0),
    'thorough': dict(harness=1500, deadline=3000, replay=180, bounded=120, seeds=50000, cross=60),
}
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:alloc_dealloc_mismatch=0:abort_on_error=0:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1', OMP_NUM_THREADS='2', OMPI_MCA_btl='self')

TRUSTED = [
    'clang 18 front end and opt passes sroa/simplifycfg/early-cse/loop-simplify (C++ source to LLVM IR)',
    'the verification engine /verif/engine (symbolic execution, loop invariants checked by induction, algebraic normaliser)',
    'z3 (SMT back end)',
    'models of the standard library in /verif/engine/intrin.py (containers, strings, streams, exceptions, libm)',
]
ASSUMED = [
    'double arithmetic is treated as real arithmetic: no rounding, overflow, NaN or infinity; numeric coefficients are compared with relative tolerance 1e-11',
    'int and 64-bit index arithmetic is mathematical; 32-bit signed operations carry no-overflow obligations where reported',
    'OpenMP pragmas are dropped by the extraction (compiled without -fopenmp): the sequential meaning of every parallel loop is what is verified',
    'termination is assumed: partial correctness',
    'memory allocation succeeds; new/malloc return fresh non-null blocks',
]


def limits(mem):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        os.setsid()
    return f


def work(path, name, budget, hard, tmp):
    out = os.path.join(tmp, name + '.json')
    env = dict(os.environ, PYTHONHASHSEED='0')
    t = time.time()
    try:
        p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), path, name, str(budget), out],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=limits(9 << 30), env=env)
        try:
            _, err = p.communicate(timeout=hard)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                p.kill()
            p.communicate()
            return dict(harness=name, error='unsupported: time limit of %d s' % hard, obls=[], notes=[], covers=[], s=time.time() - t)
        with open(out) as f:
            r = json.load(f)
        r['harness'] = name
        return r
    except Exception as e:
        return dict(harness=name, error='unsupported: worker died %r' % (e,), obls=[], notes=[], covers=[], s=time.time() - t)


def known(pid):
    """{(harness, label): text} of recorded, unrepaired findings"""
    out = {}
    if not os.path.exists(KNOWN):
        return out
    for line in open(KNOWN):
        line = line.strip()
        if not line.startswith('KNOWN-FINDING: property=%s ' % pid):
            continue
        head, _, what = line.partition('|')
        kv = dict(x.split('=', 1) for x in head.split()[1:] if '=' in x)
        out[kv.get('harness')] = (kv.get('input'), what.strip(), line)
    return out


def native_run(binary, harness, first, count, table, timeout):
    """returns (verdict, text): verdict in ok/skip/fail/hang"""
    tf = ''
    if table:
        tf = binary + '.%d.%s.tab' % (os.getpid(), harness)
        with open(tf, 'w') as f:
            for k, v in table.items():
                f.write('%s %.17g\n' % (k.replace(' ', ''), v))
    try:
        p = subprocess.Popen([binary, harness, str(first), str(count)] + ([tf] if tf else []), stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, errors='replace', env=ENV, preexec_fn=os.setsid, cwd=scratch())
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
            return 'hang', out
    finally:
        if tf:
            os.unlink(tf)
    if p.returncode == 0:
        return 'ok', out
    if p.returncode == 2 and 'RAN 0 of' in out:
        return 'skip', out
    if p.returncode == 3:
        return 'skip', out
    return 'fail', out


_scratch = []


def scratch():
    if not _scratch:
        import tempfile
        import atexit
        import shutil
        d = tempfile.mkdtemp(prefix='vc-')
        _scratch.append(d)
        atexit.register(lambda: shutil.rmtree(d, True))
    return _scratch[0]


def last_seed(out):
    s = None
    for line in out.splitlines():
        if line.startswith('SEED '):
            s = int(line.split()[1])
    return s


def search(binary, harness, tables, seed, budget, nseeds, hang=True):
    """look for a failing input on the real code; returns dict or None"""
    end = time.time() + budget
    ran = 0

    def fail(out, tab):
        s = last_seed(out)
        return dict(harness=harness, seed=s, table=tab, output=out[-6000:])
    def random(first, count, until):
        """consecutive seeds in chunks, four at a time"""
        nonlocal ran
        it = iter(range(first, first + count, 25))
        import threading
        lock = threading.Lock()
        found = []

        def one():
            nonlocal ran
            while not found and time.time() < until:
                with lock:
                    s = next(it, None)
                if s is None:
                    return
                stop = s + 25
                while s < stop and not found and time.time() < until:
                    v, out = native_run(binary, harness, s, stop - s, None, max(15, until - time.time()))
                    if v == 'fail':
                        found.append(fail(out, None))
                        return
                    if v == 'hang':
                        # one input, alone, with a generous limit
                        z = last_seed(out)
                        v, o2 = native_run(binary, harness, z, 1, None, 20)
                        if v == 'fail':
                            found.append(fail(o2, None))
                            return
                        if v == 'hang' and hang:
                            found.append(dict(harness=harness, seed=z, table=None, output=o2[-2000:] + '\nthe call did not return within 20 s'))
                            return
                        s = z + 1
                        continue
                    for line in out.splitlines():
                        if line.startswith('RAN '):
                            with lock:
                                ran += int(line.split()[1])
                    break
        ts = [threading.Thread(target=one) for _ in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return found[0] if found else None
    base = seed * 100000 + 10
    part = nseeds if not tables else min(nseeds, 2500)
    hit = random(base, part, end if not tables else time.time() + 0.5 * budget)
    if hit:
        return hit, ran
    for tab in tables:
        for s in (1, 2, 3, 4, 5, 6):
            left = end - time.time()
            if left < 1:
                break
            v, out = native_run(binary, harness, seed * 100000 + s, 1, tab, min(10, left))
            if v == 'fail':
                return fail(out, tab), ran
            if v == 'hang':
                break
    if part < nseeds:
        hit = random(base + part, nseeds - part, end)
        if hit:
            return hit, ran
    return None, ran


def main():
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        print(json.dumps({k: r[k] for k in r if k != 'native'}, indent=1))
        if not r.get('native'):
            print('no failing input: the obligations above are not discharged by the verifier')
            return 1
        b = extract.native(r['property'])
        n = r['native']
        v, out = native_run(b, n['harness'], n['seed'], 1, n['table'], 60)
        print(out)
        print(v)
        return 1 if v in ('fail', 'hang') else 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in TIERS:
        tier = 'quick'
    L = TIERS[tier]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    ev = os.path.join(VERIF, 'evidence', pid + '.json')
    if os.path.exists(ev):
        os.unlink(ev)
    for f in os.listdir(os.path.join(VERIF, 'replays')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(VERIF, 'replays', f))
    violations = []

    def violation(tag, rec, found):
        p = os.path.join(VERIF, 'replays', '%s-%s.json' % (pid, tag))
        rec = dict(rec, property=pid, rerun='cd /verif && python3-vt engine/run.py --replay ' + p)
        with open(p, 'w') as f:
            json.dump(rec, f, indent=1)
        violations.append((p, found))

    results = []
    build_error = None
    try:
        path, names = extract.module(pid)
    except Exception as e:
        build_error = str(e)[-3000:]
        names = []
    if build_error:
        violation('build', dict(failed='the contracts of %s do not compile against the current source' % pid, verifier=build_error), False)
    else:
        with ThreadPoolExecutor(max(1, min(8, os.cpu_count() or 8))) as ex:
            end = T0 + L['deadline']
            fs = [ex.submit(lambda n=n: work(path, n, min(L['harness'], max(5, end - time.time() - 15)), max(8, min(L['harness'] + 60, end - time.time())), scratch())) for n in names]
            results = [f.result() for f in fs]
    kn = known(pid)
    # contracts that are only checked on random inputs (declared in /verif/bounded.json, with the reason)
    allowed = {}
    if os.path.exists(os.path.join(VERIF, 'bounded.json')):
        allowed = json.load(open(os.path.join(VERIF, 'bounded.json'))).get(pid, {})
    binary = None

    def nat():
        nonlocal binary
        if binary is None:
            try:
                binary = extract.native(pid)
            except Exception as e:
                binary = False
                print('native build failed: ' + str(e)[-500:])
        return binary
    total = dis = 0
    by = {'algebraic normaliser': 0, 'SMT (z3)': 0, 'during execution': 0}
    bounded = []
    detail = []
    known_hit = []
    failing = []
    notes = set()
    called = set()
    q = st = gen = 0
    for r in results:
        bad = [o for o in r['obls'] if o['status'] != 'proved']
        ens = [o for o in r['obls'] if o['kind'] == 'ensures']
        unreach = [c['label'] for c in r.get('covers', []) if c['status'] == 'unreachable' and
                   not any(d['label'] == c['label'] and d['status'] != 'unreachable' for d in r['covers'])]
        notes.update(r['notes'])
        called.update(r.get('called', []))
        q += r.get('smt', {}).get('queries', 0)
        st += r.get('smt', {}).get('time', 0)
        gen += r.get('gen_s', 0) or 0
        if not r.get('error'):
            total += len(r['obls']) + r.get('auto', 0)
            dis += len(r['obls']) - len(bad) + r.get('auto', 0)
            by['during execution'] += r.get('auto', 0)
            for o in r['obls']:
                if o['status'] == 'proved':
                    by[o.get('by') or 'algebraic normaliser'] = by.get(o.get('by') or 'algebraic normaliser', 0) + 1
        state = 'proved'
        if r.get('error'):
            state = 'out of reach'
        elif bad:
            state = 'failed'
        elif not ens or unreach or not r.get('covers'):
            state = 'vacuous'
        detail.append(dict(contract=r['harness'], state=state, obligations=len(r['obls']), automatic=r.get('auto'),
                           loops=r.get('loops'), solver_s=r.get('smt', {}).get('time'), wall_s=round(r.get('s') or 0, 1), error=r.get('error')))
        if state != 'proved':
            failing.append((r, state, bad, unreach))
    budget_end = T0 + (800 if tier == 'quick' else 7200)
    nf = max(1, len(failing))
    for r, state, bad, unreach in failing:
        name = r['harness']
        rec = dict(harness=name, state=state, error=r.get('error'), unreachable=unreach,
                   failed_obligations=[{k: o.get(k) for k in ('label', 'kind', 'where', 'status', 'why', 'residue', 'facts', 'model')} for o in bad][:20])
        share = max(8, min(L['replay'] if state == 'failed' else L['replay'] + L['bounded'], (budget_end - time.time()) / nf))
        nf = max(1, nf - 1)
        if name in kn:
            # a recorded finding: only the recorded input is excused
            pass
        tables = []
        for o in bad:
            m = o.get('model')
            if m and m not in tables:
                tables.append(m)
        hit, ran = (None, 0)
        if nat():
            hit, ran = search(binary, name, tables[:8], seed, share, L['seeds'] * (1 if state == 'failed' else 4))
        if hit:
            rec['native'] = hit
            violation(name, rec, True)
        elif state == 'out of reach':
            if ran and name in allowed:
                bounded.append('%s: %d random inputs on the real code (sizes up to 14) with address and undefined-behaviour sanitizers, not proved: %s' % (name, ran, r['error'][:160]))
            else:
                violation(name, rec, False)
        else:
            violation(name, rec, False)
    crossed = 0
    if L['cross'] and not violations and results and nat():
        per = max(3, L['cross'] * 8 / max(1, len(results)))
        with ThreadPoolExecutor(8) as ex:
            for hit, ran in ex.map(lambda r: search(binary, r['harness'], [], seed + 7, per, 100000, False), results):
                crossed += ran
                if hit:
                    violation(hit['harness'] + '-cross', dict(harness=hit['harness'], state='contract violated by the real code', native=hit), True)
    for h, (inp, what, line) in kn.items():
        print(line.replace('|', ' ', 1))
    cov = dict(obligations=total, discharged=dis, checker_cmd='python3-vt engine/run.py %s --tier %s' % (pid, tier),
               trusted_base=TRUSTED, functions_under_contract=sorted(called), contracts=detail, discharged_by=by,
               smt_queries=q, solver_s=round(st, 1), generation_s=round(gen, 1), bounded=bounded,
               cross_checked_inputs=crossed)
    if bounded:
        cov['explanation'] = 'contracts listed under bounded are not proved on this tree and not counted as discharged'
    rep = dict(property=pid, tier=tier, seed=seed, level='proof', coverage=cov,
               assumptions=ASSUMED + sorted(n for n in notes), wall_s=round(time.time() - T0, 1), violations=len(violations))
    with open(ev + '.tmp', 'w') as f:
        json.dump(rep, f, indent=1)
    os.rename(ev + '.tmp', ev)
    print('%s: %d contracts, %d obligations, %d discharged, %d bounded, %.0f s' % (pid, len(results), total, dis, len(bounded), time.time() - T0))
    for p, found in sorted(violations, key=lambda v: not v[1]):
        print('VIOLATION property=%s replay=%s%s' % (pid, p, '' if found else ' no-failing-input-found'))
    sys.stdout.flush()
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
