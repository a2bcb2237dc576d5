"""Generate and discharge the obligations of one contract (one harness function)."""
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)

from terms import *
import llir
import symex
import smt
import prove
import loops  # noqa


def model_inputs(ex, model):
    """values of the named inputs in an SMT model: {name or name(i): float}"""
    out = {}
    mdl, c = model
    import z3

    def num(v):
        try:
            if z3.is_int_value(v):
                return float(v.as_long())
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
            if z3.is_true(v):
                return 1.0
            if z3.is_false(v):
                return 0.0
        except Exception:
            pass
        return None
    for d in mdl.decls():
        n = d.name()
        if not n.startswith('in:'):
            continue
        n = n[3:].split('/')[0]
        if d.arity() == 0:
            v = num(mdl[d])
            if v is not None:
                out[n] = v
    # applications that occur in the query
    for t, z in list(c.memo.items()):
        if t.op == 'uf' and t.a[0].startswith('in:') and all(x.sort == 'I' for x in t.a[1:]):
            try:
                args = [num(mdl.eval(c.memo[x], model_completion=True)) for x in t.a[1:]]
                v = num(mdl.eval(z, model_completion=True))
                if v is not None and all(a is not None for a in args):
                    out['%s(%s)' % (t.a[0][3:], ','.join('%d' % a for a in args))] = v
            except Exception:
                pass
    return out


def run_ctors(ex, mod):
    g = mod.glob('llvm.global_ctors')
    if not g:
        return
    ty, val, _ = g
    for ety, e in val[1]:
        fn = e[1][1][1]
        if fn[0] == 'g':
            f = mod.func(fn[1])
            # static constructors of the standard library (iostream) have no effect here
            ex.call(fn[1], [])


def run(path, harness, budget, trace=0):
    t0 = time.time()
    mod = llir.load(path)
    ex = symex.Exec(mod)
    ex.trace = trace
    res = {'harness': harness, 'obls': [], 'error': None, 'notes': []}
    try:
        ex.safety = False
        run_ctors(ex, mod)
        ex.safety = True
        ex.guard = TRUE
        v, th = ex.call('c_' + harness, [])
        thr = or_(*th) if th else FALSE
        if thr is not FALSE:
            ex.guard = thr
            ex.oblige(FALSE, 'no exception escapes', 'ensures')
        res['gen_s'] = time.time() - t0
    except symex.Unsupported as e:
        res['error'] = 'unsupported: ' + str(e)[:500]
        if trace:
            raise
    except prove.Blowup:
        res['error'] = 'unsupported: normal form too large'
    except (RecursionError, MemoryError) as e:
        res['error'] = 'unsupported: ' + type(e).__name__
    except Exception as e:
        import traceback
        res['error'] = 'unsupported: engine ' + repr(e)[:300] + ' ' + traceback.format_exc()[-600:]
        if trace:
            raise
    tgen = time.time()
    n = {}
    vac = None
    for o in ex.obls:
        left = budget - (time.time() - t0)
        n[o.label] = n.get(o.label, 0) + 1
        r = {'label': o.label, 'kind': o.kind, 'where': o.where, 'n': n[o.label]}
        if res['error'] and o.kind == 'ensures' and False:
            pass
        if left <= 1:
            r['status'] = 'unknown'
            r['why'] = 'time budget'
        else:
            t1 = time.time()
            p = prove.Prover(o, min(left, max(20, budget / 3)))
            try:
                r['status'] = p.run()
            except prove.Blowup:
                r['status'] = 'unknown'
                p.why = 'normal form too large'
            except RecursionError:
                r['status'] = 'unknown'
                p.why = 'recursion'
            r['s'] = round(time.time() - t1, 3)
            r['leaves'] = p.leaves
            if r['status'] != 'proved':
                r['why'] = p.why
                if p.fail:
                    try:
                        r['residue'] = show(p.fail[1], 9)[:1500]
                        r['facts'] = [show(f, 6)[:300] for f in p.fail[0]][:40]
                    except Exception:
                        pass
                if p.model:
                    try:
                        r['model'] = model_inputs(ex, p.model)
                    except Exception as e:
                        r['model_error'] = repr(e)
                if trace:
                    print('  OBL', r['label'], r['status'], r.get('why'))
                    print('     residue', r.get('residue'))
                    print('     facts', r.get('facts'))
        res['obls'].append(r)
    # vacuity: the preconditions are satisfiable and the covers reachable
    covs = []
    seen = set()
    for lab, fs in ex.covers:
        if lab in seen:
            continue
        c = smt.consistent(fs, nonlin=False, timeout=4000)
        if c == 'unsat':
            # another occurrence may be reachable
            covs.append({'label': lab, 'status': 'unreachable'})
        else:
            covs.append({'label': lab, 'status': 'reachable' if c == 'sat' else 'not refuted'})
    res['covers'] = covs
    res['auto'] = len(ex.ub)
    res['called'] = sorted(mod.dem.get(x, x) for x in ex.called if not x.startswith('c_'))
    res['notes'] = sorted(ex.notes)
    res['loops'] = ex.nloops
    res['steps'] = ex.steps
    res['smt'] = {'queries': smt.stats['queries'], 'time': round(smt.stats['time'], 2), 'cached': smt.stats['cache']}
    res['prove'] = prove.stats
    res['s'] = round(time.time() - t0, 2)
    return res


def main():
    path, harness, budget, out = sys.argv[1:5]
    trace = int(os.environ.get('VC_TRACE', '0'))
    box = {}

    def go():
        try:
            box['r'] = run(path, harness, float(budget), trace)
        except BaseException as e:
            import traceback
            traceback.print_exc()
            box['r'] = {'harness': harness, 'obls': [], 'error': 'engine: ' + repr(e)[:300], 'notes': [], 'covers': []}
    t = threading.Thread(target=go)
    t.start()
    t.join()
    json.dump(box['r'], open(out, 'w'), indent=1)


if __name__ == '__main__':
    main()
