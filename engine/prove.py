"""Discharging obligations: polynomial / rational normal forms over atoms, case
splitting on path conditions, and SMT for linear and nonlinear arithmetic."""
import time
from fractions import Fraction
from terms import *
from terms import sub as sub_
import terms as tm
import smt

TOL = Fraction(1, 10 ** 11)


class Blowup(Exception):
    pass


MAXTERMS = 20000
LIMIT = [None, MAXTERMS]        # deadline and size limit of normal forms
_nf = {}
stats = {'nf': 0, 'smt': 0, 'split': 0}


# ------------------------------------------------------------------ polynomials
# dict: monomial (tuple of (atom term, exponent)) -> (value, magnitude)
def p_const(c):
    return {(): (Fraction(c), abs(Fraction(c)))} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, (v, g) in b.items():
        o = r.get(m)
        if o is None:
            r[m] = (v, g)
        else:
            r[m] = (o[0] + v, o[1] + g)
    return p_clean(r)


def p_clean(r):
    bad = [m for m, (v, g) in r.items() if v == 0 or abs(v) <= TOL * g]
    for m in bad:
        del r[m]
    return r


def p_scale(k, a):
    if k == 0:
        return {}
    ak = abs(k)
    return {m: (v * k, g * ak) for m, (v, g) in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for t, p in b:
        q = d.get(t, 0) + p
        if q:
            d[t] = q
        else:
            del d[t]
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def p_mul(a, b):
    r = {}
    if len(a) * len(b) > LIMIT[1] * 8:
        raise Blowup()
    if LIMIT[0] is not None and time.process_time() > LIMIT[0]:
        raise Blowup()
    for m1, (v1, g1) in a.items():
        for m2, (v2, g2) in b.items():
            m = m_mul(m1, m2)
            v, g = v1 * v2, g1 * g2
            o = r.get(m)
            if o is not None:
                v, g = v + o[0], g + o[1]
            r[m] = (v, g)
    if len(r) > LIMIT[1]:
        raise Blowup()
    return reduce_(p_clean(r))


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


def p_inv(P):
    if not P:
        return {((uf('divzero', (), 'R'), 1),): (Fraction(1), Fraction(1))}
    if len(P) == 1:
        (m, (v, g)), = P.items()
        return reduce_({tuple((t, -p) for t, p in m): (1 / v, abs(1 / v))})
    # content
    com = None
    for m in P:
        d = dict(m)
        if com is None:
            com = d
        else:
            for t in list(com):
                e = min(com[t], d.get(t, 0))
                if e:
                    com[t] = e
                else:
                    del com[t]
            for t, p in d.items():
                if t not in com and p < 0:
                    com[t] = p
    # exponents: min over all (absent = 0)
    full = {}
    for m in P:
        for t, p in m:
            full.setdefault(t, []).append(p)
    n = len(P)
    com = {}
    for t, ps in full.items():
        e = min(ps + ([0] if len(ps) < n else []))
        if e:
            com[t] = e
    cm = tuple(sorted(((t, -e) for t, e in com.items()), key=lambda x: x[0].id))
    Q = {m_mul(m, cm): c for m, c in P.items()} if cm else P
    lead = min(Q, key=lambda m: (len(m), [(t.id, p) for t, p in m]))
    k = Q[lead][0]
    Qt = poly_term({m: (v / k, g) for m, (v, g) in Q.items()}, 'R')
    mm = m_mul(cm, ((Qt, -1),))
    return reduce_({mm: (1 / k, abs(1 / k))})


def reduce_(P):
    """sqrt^2, cos^2, exp products, even functions; result has sqrt/cos/cosh powers <= 1"""
    todo = None
    for m in P:
        nexp = 0
        for t, p in m:
            if t.op == 'uf':
                h = t.a[0]
                if h == 'sqrt' and (p >= 2 or p < 0) or h in ('cos', 'cosh') and p >= 2:
                    todo = True
                elif h == 'exp':
                    nexp += 1 if p == 1 else 2
        if nexp > 1:
            todo = True
        if todo:
            break
    if not todo:
        return P
    out = {}
    for m, c in P.items():
        mono = []
        facs = []
        exps = None
        for t, p in m:
            if t.op == 'uf' and t.a[0] == 'sqrt' and (p >= 2 or p < 0):
                q, r = divmod(p, 2)
                if r:
                    mono.append((t, 1))
                a = nf(t.a[1])
                facs.append(p_pow(a, q) if q > 0 else p_pow(p_inv(a), -q))
            elif t.op == 'uf' and t.a[0] in ('cos', 'cosh') and p >= 2:
                q, r = divmod(p, 2)
                if r:
                    mono.append((t, 1))
                if t.a[0] == 'cos':
                    s = {((uf('sin', t.a[1:], 'R'), 2),): (Fraction(-1), Fraction(1)), (): (Fraction(1), Fraction(1))}
                else:
                    s = {((uf('sinh', t.a[1:], 'R'), 2),): (Fraction(1), Fraction(1)), (): (Fraction(1), Fraction(1))}
                facs.append(p_pow(s, q))
            elif t.op == 'uf' and t.a[0] == 'exp':
                e = p_scale(p, nf(t.a[1]))
                exps = e if exps is None else p_add(exps, e)
            else:
                mono.append((t, p))
        if exps is not None and exps:
            mono.append((uf('exp', (poly_term(exps, 'R'),), 'R'), 1))
        mono = tuple(sorted(mono, key=lambda x: x[0].id))
        R_ = {mono: c}
        if mono and len(set(t for t, _ in mono)) != len(mono):
            R_ = {m_mul((), ()): c}
            for t, p in mono:
                R_ = {m_mul(mm, ((t, p),)): cc for mm, cc in R_.items()}
        for f in facs:
            R_ = p_mul(R_, f)
        out = p_add(out, R_)
    return reduce_(out) if out is not P else out


def mono_term(m, sort='R'):
    r = const(1, sort)
    if not m:
        return r
    d = {}
    for t, p in m:
        d[t] = d.get(t, 0) + p
    return tm._mkmono(d, sort)


def poly_term(P, sort='R'):
    pairs = []
    c0 = 0
    for m, (v, g) in P.items():
        if m == ():
            c0 += v
        else:
            pairs.append((v, m))
    d = {}
    for v, m in pairs:
        t = mono_term(m, sort)
        d[t] = d.get(t, 0) + v
    r = tm._mklin(Fraction(c0) if sort == 'R' else int(c0), d, sort)
    return r


def atom(t):
    return {((t, 1),): (Fraction(1), Fraction(1))}


def lead_sign(P):
    lead = min(P, key=lambda m: (len(m), [(t.id, p) for t, p in m]))
    return 1 if P[lead][0] > 0 else -1


def nf(t):
    r = _nf.get(t)
    if r is None:
        r = _nf_(t)
        _nf[t] = r
    return r


def canon(t):
    """canonical term equal to t"""
    if t.sort == 'R':
        return poly_term(nf(t), 'R')
    if t.sort == 'I':
        if t.op in ('uf', 'ite', 'trunc', 'floor', 'sum', 'lin', 'mul', 'idiv', 'imod'):
            return rebuild(t, canon) if t.op != 'sum' else t
        return t
    if t.sort == 'B':
        return rebuild(t, canon) if t.op not in ('var', 'const') else t
    return t


def _nf_(t):
    op = t.op
    if op == 'const':
        return p_const(t.a[0])
    if op == 'lin':
        r = p_const(t.a[0])
        for k, u in t.a[1]:
            r = p_add(r, p_scale(k, nf(u)))
        return r
    if op == 'mul':
        r = p_const(1)
        for u, p in t.a:
            a = nf(u)
            r = p_mul(r, p_pow(a, p) if p > 0 else p_pow(p_inv(a), -p))
        return r
    if op == 'toreal':
        a = canon(t.a[0])
        u = toreal(a)
        if u.op == 'toreal':
            return atom(u)
        return nf(u)
    if op == 'uf':
        h = t.a[0]
        if h in ('sin', 'cos', 'sinh', 'cosh', 'atan', 'tan', 'tanh', 'asin'):
            A = nf(t.a[1])
            if not A:
                return p_const(1 if h in ('cos', 'cosh') else 0)
            s = lead_sign(A)
            if s < 0:
                A = p_scale(-1, A)
            u = atom(uf(h, (poly_term(A),), 'R'))
            return p_scale(-1, u) if s < 0 and h not in ('cos', 'cosh') else u
        if h == 'exp':
            A = nf(t.a[1])
            if not A:
                return p_const(1)
            return atom(uf('exp', (poly_term(A),), 'R'))
        if h == 'sqrt':
            A = nf(t.a[1])
            x = sqrt(poly_term(A))
            if x.op == 'const':
                return p_const(x.a[0])
            # pull a numeric factor out so that sqrt(4x) = 2 sqrt(x)
            return atom(x)
        args = [canon(x) for x in t.a[1:]]
        if h in UF_FOLD:
            u = UF_FOLD[h](*args)
            return nf(u) if u is not t and u.op != 'uf' else atom(u)
        return atom(uf(h, args, t.sort))
    if op == 'sum':
        return nf_sum(t)
    if op == 'ite':
        return atom(ite(canon(t.a[0]), canon(t.a[1]), canon(t.a[2]))) if True else None
    if op in ('trunc', 'floor', 'idiv', 'imod'):
        return atom(rebuild(t, canon))
    return atom(t)


def nf_sum(t):
    n, b, body = t.a
    n = canon(n)
    k = tm.fresh('sk', 'I')
    kb = subst(body, {b: k})
    P = nf(kb) if body.sort == 'R' else None
    if P is None:
        # integer sums: linear split only
        c, items = tm._lin_parts(kb)
        out = {}
        if c:
            out = p_scale(c, nf(toreal(n)))
        for kk, u in items:
            out = p_add(out, p_scale(kk, atom(toreal(sum_(n, k, u)))))
        return out
    out = {}
    groups = {}
    for m, c in P.items():
        free, bound = [], []
        for a, p in m:
            (bound if has(a, k) else free).append((a, p))
        groups.setdefault(tuple(bound), {})[tuple(free)] = c
    for bm, coef in groups.items():
        if not bm:
            s = nf(toreal(n)) if n.op != 'const' else p_const(max(0, n.a[0]))
        else:
            st = sum_(n, k, mono_term(bm))
            if st.op == 'sum':
                s = atom(st)
            else:
                s = nf(st)
        out = p_add(out, p_mul(coef, s))
    return out


DBG = __import__('os').environ.get('VC_DBG')
_has = {}


def has(t, v):
    key = (t, v)
    r = _has.get(key)
    if r is None:
        if t is v:
            r = True
        else:
            r = any(has(c, v) for c in children(t))
        _has[key] = r
    return r


def clear_den(P):
    """multiply by denominators until none of the polynomial ones is left"""
    for _ in range(60):
        mx = {}
        for m in P:
            for t, p in m:
                if p < 0 and t.op == 'lin':
                    mx[t] = max(mx.get(t, 0), -p)
        if not mx:
            return P
        # one denominator at a time: the one with the largest id depth first
        t = max(mx, key=lambda x: x.id)
        e = mx[t]
        Q = nf(t)
        pw = [p_const(1)]
        for _i in range(e):
            pw.append(p_mul(pw[-1], Q))
        out = {}
        byexp = {}
        for m, c in P.items():
            d = dict(m)
            x = d.pop(t, 0)
            mm = tuple(sorted(d.items(), key=lambda y: y[0].id))
            byexp.setdefault(e + x, {})[mm] = c
        for x, PP in byexp.items():
            q = pw[x] if x <= e else p_pow(Q, x)
            out = p_add(out, p_mul(PP, q))
        P = out
    return P


def is_zero(t):
    """t == 0 by normal form; large terms are first generalised over shared subterms"""
    stats['nf'] += 1
    if t.op == 'const':
        return t.a[0] == 0
    n = tm.dagsize(t, 200)
    old = list(LIMIT)
    try:
        if n >= 60:
            for small, terms, secs in ((False, 1200, 5), (True, 6000, 15), (False, 6000, 25)):
                LIMIT[0] = min(old[0] or 1e18, time.process_time() + secs)
                LIMIT[1] = min(old[1], terms)
                try:
                    if lazy_zero(t, small):
                        return True
                    break
                except Blowup:
                    pass
            LIMIT[0] = min(old[0] or 1e18, time.process_time() + 25)
            LIMIT[1] = old[1]
        return zero_poly(nf(t))
    finally:
        LIMIT[0], LIMIT[1] = old


def zero_poly(P):
    if not P:
        return True
    if not any(p < 0 and a.op == 'lin' for m in P for a, p in m):
        return False
    return not clear_den(P)


def generalise(t):
    """(term with shared compound real subterms replaced by variables, definitions, rank)"""
    order = []
    seen = set()
    par = {}

    def go(u):
        if u in seen:
            return
        seen.add(u)
        for c in children(u):
            par[c] = par.get(c, 0) + 1
            go(c)
        order.append(u)
    go(t)
    cut = {}
    defs = {}
    rank = {}
    memo = {}

    def bvs(u):
        return tm._maxbv(u) > 0
    # sums flattened into larger ones: recover k*L + rest
    lins = [u for u in order if u.op == 'lin' and u.sort == 'R' and len(u.a[1]) >= 3 and not bvs(u)]
    pos = {u: i for i, u in enumerate(lins)}
    for u in lins:
        par.setdefault(u, 0)

    def refactor(u):
        d = {x: k for k, x in u.a[1]}
        best = None
        for L in lins:
            if L is u or len(L.a[1]) >= len(d) + 1 or pos[L] >= pos[u] and L is not u:
                continue
            it = L.a[1]
            k0 = d.get(it[0][1])
            if k0 is None:
                continue
            f = Fraction(k0) / Fraction(it[0][0])
            if all(x in d and abs(Fraction(d[x]) - f * Fraction(k)) <= TOL * abs(Fraction(d[x])) for k, x in it):
                if best is None or len(it) > len(best[0].a[1]):
                    best = (L, f)
        return best
    refac = {}
    for u in lins:
        b = refactor(u)
        if b is not None:
            refac[u] = b
            par[b[0]] = par.get(b[0], 0) + 1
    # several sums that are used inside of others count as shared
    for u in order:
        if u in refac:
            L, f = refac[u]
            if par.get(L, 0) >= 2 and L in memo:
                have = {x for _, x in L.a[1]}
                rest = lincomb([(k, memo.get(x, x)) for k, x in u.a[1] if x not in have] + [(f, memo[L])],
                               Fraction(u.a[0]) - f * Fraction(L.a[0]), 'R')
                r = rest
            else:
                r = rebuild(u, lambda x: memo.get(x, x))
        else:
            r = u if u.op in ('const', 'var', 'bv') else rebuild(u, lambda x: memo.get(x, x))
        if u is not t and u.sort == 'R' and par.get(u, 0) >= 2 and not bvs(u) and \
                (u.op == 'lin' or u.op == 'uf' and u.a[0] == 'sqrt' or u.op == 'mul' and len(u.a) > 1):
            v = tm.fresh('cut', 'R')
            defs[v] = r
            rank[v] = len(rank)
            r = v
        memo[u] = r
    return memo[t], defs, rank


def below(x, defs, out):
    """generalised subterms inside of the definition of x"""
    for u in tm.subterms(defs[x]):
        if u in defs and u not in out:
            out.add(u)
            below(u, defs, out)


def lazy_zero(t, small=False):
    """prove t == 0 with shared compound subterms generalised to arbitrary reals, unfolding
    the outermost ones step by step (small: those first which add the fewest terms)"""
    cur, defs, rank = generalise(t)
    if not defs:
        return False
    for _ in range(200):
        P = nf(cur)
        if P and any(p < 0 and a.op == 'lin' for m in P for a, p in m):
            P = clear_den(P)
        if not P:
            return True
        cur = poly_term(P)
        vs = [v for v in tm.subterms(cur) if v in defs]
        if not vs:
            return False
        if small:
            inner = set()
            for x in vs:
                below(x, defs, inner)
            pw = {}
            for m in P:
                for x, q in m:
                    if x in defs:
                        pw[x] = max(pw.get(x, 1), abs(q))
            v = min((x for x in vs if x not in inner), key=lambda x: ((len(defs[x].a[1]) if defs[x].op == 'lin' else 1) ** pw.get(x, 1), -rank[x]))
        else:
            v = max(vs, key=lambda x: rank[x])
        if DBG:
            print('  lazy', len(P), 'terms; unfold', v, show(defs[v], 5)[:300])
        cur = subst(cur, {v: defs[v]})
    return False


class NRA(smt.Conv):
    """polynomial arithmetic over reals only; everything else is an arbitrary value"""
    def conv(self, t):
        import z3
        op = t.op
        if op == 'var':
            return z3.Real(t.a[0]) if t.sort in 'RI' else z3.Bool(t.a[0])
        if op == 'const' and t.sort == 'I':
            return z3.RealVal(t.a[0])
        if op == 'toreal':
            return self(t.a[0])
        if op == 'uf':
            n = '%s#%d' % (t.a[0], t.id)
            if t.sort == 'B':
                return z3.Bool(n)
            z = z3.Real(n)
            if t.a[0] == 'sqrt':
                x = self(t.a[1])
                self.axioms.append(z >= 0)
                self.axioms.append(z3.Implies(x >= 0, z * z == x))
            elif t.a[0] == 'exp':
                self.axioms.append(z > 0)
            elif t.a[0] in ('sin', 'cos'):
                self.axioms.append(z3.And(z >= -1, z <= 1))
            elif t.a[0] == 'cosh':
                self.axioms.append(z >= 1)
            return z
        if op in ('sum', 'ptr', 'floor', 'trunc', 'idiv', 'imod', 'bv'):
            return z3.Real('%s#%d' % (op, t.id))
        if op == 'mul':
            r = None
            for u, p in t.a:
                z = self(u)
                if p < 0:
                    v = z3.Real('inv#%d' % u.id)
                    self.axioms.append(z3.Implies(z != 0, v * z == 1))
                    z = v
                f = z
                for _ in range(abs(p) - 1):
                    f = f * z
                r = f if r is None else r * f
            return r
        if op == 'lin' and t.sort == 'I':
            c, items = t.a
            r = z3.RealVal(str(c))
            for k, u in items:
                r = r + z3.RealVal(str(k)) * self(u)
            return r
        if op == 'ite' and t.sort == 'P':
            return z3.Real('pite#%d' % t.id)
        return super().conv(t)


def nra(facts, goal, defs, timeout):
    import z3
    c = NRA()
    s = z3.SolverFor('QF_NRA')
    smt.limit(s, timeout, 2)
    s.add(z3.Not(c(goal)))
    for v, d in defs:
        if d.op == 'uf' and d.a[0] == 'sqrt':
            x = c(d.a[1])
            s.add(c(v) >= 0)
            s.add(z3.Implies(x >= 0, c(v) * c(v) == x))
        else:
            s.add(c(v) == c(d))
    for f in facts:
        s.add(c(f))
    for a in c.axioms:
        s.add(a)
    t0 = time.process_time()
    r = s.check()
    smt.stats['queries'] += 1
    smt.stats['time'] += time.process_time() - t0
    return r == z3.unsat


def lazy_ineq(facts, goal, budget=8.0):
    """goal d<=0 / d<0 with shared subterms generalised; definitions are added outermost first"""
    t_end = time.process_time() + budget
    cur, defs, rank = generalise(goal)
    fs = [f for f in facts if f.op in ('le', 'lt', 'eq')]
    inv = None
    order = sorted(defs, key=lambda v: -rank[v])
    syms = None
    n = 0
    while True:
        used = [(v, defs[v]) for v in order[:n]]
        live = symbols_of([cur] + [d for _, d in used])
        rel = [f for f in fs if symbols_of([f]) & live]
        if nra(rel, cur, used, 1500):
            return True
        if n >= len(order) or time.process_time() > t_end:
            return False
        n = min(len(order), n + 2)


def symbols_of(ts):
    out = set()
    for t in ts:
        for u in subterms(t):
            if u.op in ('var', 'uf'):
                out.add(u)
    return out


_qe = {}


def quick_eq(a, b, facts=None):
    if a is b:
        return True
    if a.sort == 'B' or a.sort == 'P':
        return False
    key = (a, b)
    r = _qe.get(key)
    if r is None:
        try:
            r = is_zero(sub_(toreal(a) if a.sort == 'I' else a, toreal(b) if b.sort == 'I' else b))
        except Blowup:
            r = False
        _qe[key] = r
    if not r and facts:
        d = sub_(a, b)
        if a.sort == 'I' or len(subterms(d)) < 60:
            r = smt.check(list(facts), [], eq(a, b), timeout=400)[0] == 'valid'
    return r


def cancel(d, marker):
    """normalise; return the simplified term if marker drops out"""
    if d.sort != 'R':
        return None
    try:
        P = nf(d)
    except Blowup:
        return None
    for m in P:
        for t, p in m:
            if marker in t.sp:
                return None
    return poly_term(P, 'R')


# ------------------------------------------------------------------ case splitting
def ite_conds(t):
    """conditions of ites in t, innermost-first order of discovery"""
    out = {}
    seen = set()

    def go(u):
        if u in seen:
            return
        seen.add(u)
        if u.op == 'sum':
            # conditions free of the bound variable may be split outside
            for c in children(u):
                go(c)
            return
        for c in children(u):
            go(c)
        if u.op == 'ite':
            out[u.a[0]] = out.get(u.a[0], 0) + 1
    go(t)
    return out


def cond_atoms(c, out):
    if c.op in ('and', 'or'):
        for x in c.a:
            cond_atoms(x, out)
    elif c.op == 'not':
        cond_atoms(c.a[0], out)
    elif c.op != 'const':
        out[c] = out.get(c, 0) + 1


def has_bv(t):
    return tm._maxbv(t) > 0


def solve_eqs(facts):
    """substitution from equality facts var = expr"""
    m = {}
    for f in facts:
        if f.op != 'eq':
            continue
        d = f.a[0]
        if m:
            d = subst(d, m)
        if d.op == 'const':
            continue
        c, items = tm._lin_parts(d)
        best = None
        for k, u in items:
            if u.op in ('var', 'uf') and (d.sort == 'R' or abs(k) == 1):
                rest = [(kk, v) for kk, v in items if v is not u]
                if any(has(v, u) for _, v in rest):
                    continue
                if u.op == 'uf' and not (u.op == 'uf' and len(u.a) >= 1):
                    continue
                score = (u.op == 'var', u.id)
                if best is None or score > best[0]:
                    best = (score, u, k, rest)
        if best is None:
            continue
        _, u, k, rest = best
        if d.sort == 'I':
            e = lincomb([(-kk * k, v) for kk, v in rest], -c * k, 'I')
        else:
            e = lincomb([(-kk / Fraction(k), v) for kk, v in rest], -c / Fraction(k), 'R')
        m = {a: subst(b, {u: e}) for a, b in m.items()}
        m[u] = e
    return m


class Prover:
    def __init__(self, obl, budget=60.0):
        self.o = obl
        self.t_end = time.process_time() + budget
        self.leaves = 0
        self.notes = []
        self.why = None
        self.model = None
        self.fail = None

    def timeup(self):
        return time.process_time() > self.t_end

    def run(self):
        o = self.o
        facts = []
        for f in o.facts:
            for x in (f.a if f.op == 'and' else (f,)):
                facts.append(x)
        goal, lhs, rhs = o.goal, o.lhs, o.rhs
        try:
            if o.defs:
                gs = [g for g, d in o.defs]
                if goal.op in ('eq', 'le', 'lt') and goal.a[0].sort == 'R' and any(has(goal, g) for g in gs):
                    fs = [f for f in facts if f.op in ('eq', 'le', 'lt') and (any(has(f, g) for g in gs) and tm.dagsize(f, 80) < 80 or tm.dagsize(f, 12) < 12)]
                    if nra(fs, goal, [], 5000):
                        stats['smt'] += 1
                        return 'proved'
                for g, d in reversed(o.defs):
                    if tm._maxbv(d):
                        continue
                    m = {g: d}
                    facts = [subst(f, m) for f in facts]
                    goal = subst(goal, m)
                    if lhs is not None:
                        lhs, rhs = subst(lhs, m), subst(rhs, m)
            return self.prove(facts, goal, lhs, rhs)
        except Blowup:
            self.why = 'normal form too large'
            return 'unknown'

    def prove(self, facts, goal, lhs=None, rhs=None):
        if goal is TRUE:
            return 'proved'
        if lhs is not None:
            return self.eq(facts, lhs, rhs)
        if goal.op == 'and':
            for g in goal.a:
                r = self.prove(facts, g)
                if r != 'proved':
                    return r
            return 'proved'
        if goal in facts:
            return 'proved'
        if goal.op == 'or':
            # implication-like: choose the positive conclusion with real content, others negated into facts
            parts = list(goal.a)
            concl = max(parts, key=lambda p: (p.op in ('eq',) , p.op == 'and', p.op == 'le' or p.op == 'lt', len(subterms(p))))
            nf_ = list(facts)
            for p in parts:
                if p is not concl:
                    q = not_(p)
                    nf_ += list(q.a) if q.op == 'and' else [q]
            # quick smt first for the complete goal
            if smt.check(facts, self.o.qfacts, goal, timeout=500)[0] == 'valid':
                stats['smt'] += 1
                return 'proved'
            r = self.prove(nf_, concl)
            if r == 'proved':
                return r
            return self.smt(facts, goal)
        if goal.op == 'eq':
            d = goal.a[0]
            return self.eq(facts, d, const(0, d.sort))
        return self.ineq(facts, goal)

    def smt(self, facts, goal):
        left = max(1.0, self.t_end - time.process_time())
        stats['smt'] += 1
        m0 = solve_eqs(facts)
        r, _ = smt.check(facts, self.o.qfacts, goal, timeout=int(min(4000, left * 1000)), nonlin=False)
        if r == 'valid':
            return 'proved'
        if m0:
            fs = [subst(f, m0) for f in facts]
            g = subst(goal, m0)
            if g is TRUE:
                return 'proved'
            r, _ = smt.check(fs, self.o.qfacts, g, timeout=int(min(2000, left * 1000)), nonlin=True)
            if r == 'valid':
                return 'proved'
        r, mdl = smt.check(facts, self.o.qfacts, goal, timeout=int(min(8000, left * 1000)), nonlin=True, want_model=True)
        if r == 'valid':
            return 'proved'
        self.why = 'smt: ' + r
        self.fail = self.fail or (facts, goal)
        if r == 'invalid':
            self.model = mdl
            return 'failed'
        return 'unknown'

    def ineq(self, facts, goal):
        r, _ = smt.check(facts, self.o.qfacts, goal, timeout=1500, nonlin=False)
        if r == 'valid':
            stats['smt'] += 1
            return 'proved'
        # normalise the difference
        if goal.op in ('le', 'lt') and goal.a[0].sort == 'R':
            d = canon(goal.a[0])
            g2 = tm._cmp(goal.op, d)
            if g2 is TRUE:
                return 'proved'
            if g2 is not goal:
                r, _ = smt.check([canon(f) for f in facts], self.o.qfacts, g2, timeout=1500, nonlin=True)
                if r == 'valid':
                    stats['smt'] += 1
                    return 'proved'
        conds = ite_conds(goal)
        if conds:
            return self.split(facts, goal, lambda fs, g: self.prove(fs, g) if not ite_conds(g) else self.smt(fs, g))
        if goal.op in ('le', 'lt') and goal.a[0].sort == 'R':
            if lazy_ineq(facts, goal, min(8.0, max(1.0, self.t_end - time.process_time()))):
                stats['smt'] += 1
                return 'proved'
        return self.smt(facts, goal)

    def feasible(self, facts, c):
        r, _ = smt.check(facts, self.o.qfacts, not_(c), timeout=600, nonlin=False)
        if r != 'valid' and contains_op(c, ('mul', 'uf')):
            r2, _ = smt.check(facts, self.o.qfacts, not_(c), timeout=300, nonlin=True)
            if r2 == 'valid':
                return False
        return r != 'valid'

    def split(self, facts, obj, leaf, depth=0):
        """obj: a term (bool goal or real difference)"""
        conds = {}
        for c in ite_conds(obj):
            if has_bv(c):
                continue
            cond_atoms(c, conds)
        conds = {c: n for c, n in conds.items() if not has_bv(c)}
        if not conds:
            return leaf(facts, obj)
        if self.timeup():
            self.why = 'time'
            return 'unknown'
        stats['split'] += 1
        # prefer atoms with few symbols, that occur often
        c = min(conds, key=lambda x: (len(subterms(x)) > 40, -conds[x], len(subterms(x)), x.id))
        for lit in (c, not_(c)):
            if not self.feasible(facts, lit):
                continue
            o2 = assume(obj, {lit})
            if has_sum(o2):
                o2 = assume_sum(o2, lit)
            if o2 is obj:
                # could not eliminate: stop splitting on it
                return leaf(facts, obj)
            r = self.split(facts + [lit], o2, leaf, depth + 1)
            if r != 'proved':
                return r
        return 'proved'

    def eq(self, facts, a, b):
        if a is b:
            return 'proved'
        if a.sort == 'B':
            r = self.prove(facts, or_(not_(a), b))
            return r if r != 'proved' else self.prove(facts, or_(a, not_(b)))
        if a.sort == 'P':
            return self.smt(facts, peq(a, b))
        d = sub_(a, b)
        if a.sort == 'I':
            r, _ = smt.check(facts, self.o.qfacts, eq(a, b), timeout=1500, nonlin=False)
            if r == 'valid':
                stats['smt'] += 1
                return 'proved'
            d = toreal(d)
            intg = True
        else:
            intg = False
        return self.split(facts, d, lambda fs, x: self.eq_leaf(fs, x, intg))

    def eq_leaf(self, facts, d, intg):
        self.leaves += 1
        if is_zero(d):
            return 'proved'
        m = solve_eqs(facts)
        if m:
            d1 = subst(d, m)
            if is_zero(d1):
                return 'proved'
            if ite_conds(d1) and any(not has_bv(c) for c in ite_conds(d1)) and not ite_conds(d):
                return self.split(facts, d1, lambda fs, x: self.eq_leaf2(fs, x, intg))
        else:
            d1 = d
        return self.eq_leaf2(facts, d1, intg)

    def eq_leaf2(self, facts, d, intg):
        if is_zero(d):
            return 'proved'
        # merge function applications with provably equal arguments
        d2 = self.unify(facts, d)
        if d2 is not d:
            if is_zero(d2):
                return 'proved'
            d = d2
        if has_sum(d):
            r = self.sums(facts, d)
            if r == 'proved':
                return r
        if intg:
            r = self.smt(facts, tm._cmp('eq', d))
            return r
        r = 'unknown'
        if len(subterms(d)) < 400:
            r = self.smt(facts, tm._cmp('eq', canon(d)))
        else:
            self.why = 'residue too large for smt'
        if r != 'proved':
            self.fail = (facts, tm._cmp('eq', canon(d)))
        return r

    def unify(self, facts, d):
        for _ in range(6):
            heads = {}
            for u in subterms(d):
                if u.op == 'uf' and len(u.a) > 1 and not has_bv(u):
                    heads.setdefault((u.a[0], len(u.a)), []).append(u)
            m = {}
            for h, us in heads.items():
                if len(us) < 2:
                    continue
                us.sort(key=lambda x: x.id)
                if len(us) > 40:
                    continue
                reps = []
                for u in us:
                    for r in reps:
                        if all(self.arg_eq(facts, x, y) for x, y in zip(u.a[1:], r.a[1:])):
                            m[u] = r
                            break
                    else:
                        reps.append(u)
            if not m:
                return d
            d2 = subst(d, m)
            if d2 is d:
                return d
            d = d2
        return d

    def arg_eq(self, facts, x, y):
        if x is y:
            return True
        if x.sort != y.sort:
            return False
        if x.op == 'const' and y.op == 'const':
            return False
        if x.sort == 'P':
            return peq(x, y) is TRUE
        if x.sort == 'B':
            return smt.check(facts, self.o.qfacts, eq(x, y), timeout=300)[0] == 'valid'
        try:
            if is_zero(sub_(toreal(x), toreal(y)) if x.sort == 'I' else sub_(x, y)):
                return True
        except Blowup:
            return False
        if len(subterms(x)) + len(subterms(y)) > 150:
            return False
        return smt.check(facts, self.o.qfacts, eq(x, y), timeout=500)[0] == 'valid'

    def sums(self, facts, d):
        """sum atoms over equal ranges: prove the combined bodies equal"""
        P = nf(d)
        if any(p < 0 and a.op == 'lin' for m in P for a, p in m):
            P = clear_den(P)
        lin, rest = [], {}
        for m, c in P.items():
            sums = [(a, p) for a, p in m if a.op == 'sum']
            if not sums:
                rest[m] = c
                continue
            if len(sums) != 1 or sums[0][1] != 1:
                return 'unknown'
            co = {tuple(x for x in m if x[0] is not sums[0][0]): c}
            lin.append((sums[0][0], co))
        if not lin:
            return 'unknown'
        groups = []
        for s, co in lin:
            n = s.a[0]
            for g in groups:
                if g[0] is n or quick_eq(g[0], n, facts):
                    g[1].append((s, co))
                    break
            else:
                groups.append((n, [(s, co)]))
        tot_rest = rest
        for n, lst in groups:
            k = tm.fresh('k', 'I')
            bodyd = R0
            for s, co in lst:
                bodyd = add(bodyd, mul(poly_term(co), toreal(subst(s.a[2], {s.a[1]: k}))))
            if len(groups) == 1 and tot_rest:
                # a constant remainder may stem from a split-off iteration; not handled
                return 'unknown'
            fs = facts + [ge(k, I0), lt(k, n)]
            r = self.eq(fs, bodyd, R0)
            if r != 'proved':
                # try reversal of individual sums
                if len(lst) == 2:
                    (s1, c1), (s2, c2) = lst
                    b1 = mul(poly_term(c1), toreal(subst(s1.a[2], {s1.a[1]: k})))
                    b2 = mul(poly_term(c2), toreal(subst(s2.a[2], {s2.a[1]: sub_(sub_(n, I1), k)})))
                    r = self.eq(fs, add(b1, b2), R0)
                if r != 'proved':
                    return r
        return 'proved' if not tot_rest else 'unknown'


def has_sum(t):
    return any(u.op == 'sum' for u in subterms(t))


def assume_sum(t, lit):
    """apply a literal inside of sum bodies as well (literal has no bound variables)"""
    nl = not_(lit)
    memo = {}

    def go(u):
        if u is lit:
            return TRUE
        if u is nl:
            return FALSE
        if u.op in ('const', 'var', 'bv'):
            return u
        r = memo.get(u)
        if r is None:
            r = rebuild(u, go)
            memo[u] = r
        return r
    return go(t)
