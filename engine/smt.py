"""Translation of terms to z3 and decision helpers."""
import z3
import time
from terms import *
import terms as tm

stats = {'queries': 0, 'time': 0.0, 'cache': 0}


class Conv:
    def __init__(self, nonlin=True):
        self.nonlin = nonlin
        self.memo = {}
        self.axioms = []
        self.funs = {}

    def fun(self, name, sorts, rsort):
        key = (name, tuple(sorts), rsort)
        f = self.funs.get(key)
        if f is None:
            zs = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'P': z3.IntSort()}
            f = z3.Function('%s/%s' % (name, ''.join(sorts)), *([zs[s] for s in sorts] + [zs[rsort]]))
            self.funs[key] = f
        return f

    def opaque(self, t, pre):
        n = '%s#%d' % (pre, t.id)
        if t.sort == 'R':
            return z3.Real(n)
        if t.sort == 'B':
            return z3.Bool(n)
        return z3.Int(n)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.conv(t)
            self.memo[t] = r
        return r

    def conv(self, t):
        op = t.op
        if op == 'const':
            v = t.a[0]
            if t.sort == 'I':
                return z3.IntVal(v)
            if t.sort == 'R':
                return z3.RealVal(str(v))
            return z3.BoolVal(v)
        if op == 'var':
            if t.sort == 'R':
                return z3.Real(t.a[0])
            if t.sort == 'B':
                return z3.Bool(t.a[0])
            return z3.Int(t.a[0])
        if op == 'bv':
            return z3.Int('$bv%d' % t.a[0])
        if op == 'lin':
            c, items = t.a
            r = None
            for k, u in items:
                z = self(u)
                if k != 1:
                    z = (z3.RealVal(str(k)) if t.sort == 'R' else z3.IntVal(k)) * z
                r = z if r is None else r + z
            if c:
                r = r + (z3.RealVal(str(c)) if t.sort == 'R' else z3.IntVal(c))
            return r
        if op == 'mul':
            if not self.nonlin and t.sort == 'R':
                return self.opaque(t, 'nl')
            r = None
            for u, p in t.a:
                z = self(u)
                f = z
                for _ in range(abs(p) - 1):
                    f = f * z
                if p < 0:
                    f = z3.RealVal(1) / f
                r = f if r is None else r * f
            return r
        if op == 'uf':
            nm = t.a[0]
            args = t.a[1:]
            if nm == 'special_inf':
                return self.opaque(t, 'inf')
            if not args:
                return self.opaque(t, nm)
            f = self.fun(nm, [x.sort for x in args], t.sort)
            z = f(*[self(x) for x in args])
            if nm == 'sqrt':
                self.axioms.append(z >= 0)
                if self.nonlin:
                    self.axioms.append(z3.Implies(self(args[0]) >= 0, z * z == self(args[0])))
                self.axioms.append(z3.Implies(self(args[0]) > 0, z > 0))
            elif nm == 'exp':
                self.axioms.append(z > 0)
                self.axioms.append(z3.Implies(self(args[0]) <= 0, z <= 1))
                self.axioms.append(z3.Implies(self(args[0]) == 0, z == 1))
            elif nm in ('sin', 'cos'):
                self.axioms.append(z3.And(z >= -1, z <= 1))
            elif nm == 'cosh':
                self.axioms.append(z >= 1)
            elif nm == 'atan':
                self.axioms.append(z3.And(z > z3.RealVal('-1.5707963267948967'), z < z3.RealVal('1.5707963267948967')))
                x = self(args[0])
                self.axioms.append(z3.And(z3.Implies(x > 0, z > 0), z3.Implies(x < 0, z < 0), z3.Implies(x == 0, z == 0)))
            return z
        if op == 'sum':
            z = self.opaque(t, 'sum')
            if t.sort == 'I':
                b = tm.body_range(t.a[2])
                if b is not None:
                    # a sum of n values in lo..hi
                    n = self(t.a[0])
                    self.axioms.append(z3.Implies(n >= 0, z3.And(z >= int(b[0]) * n, z <= int(b[1]) * n)))
            return z
        if op == 'ptr':
            return self.opaque(t, 'ptr')
        if op in ('le', 'lt', 'eq'):
            d = self(t.a[0])
            return d <= 0 if op == 'le' else d < 0 if op == 'lt' else d == 0
        if op == 'and':
            return z3.And(*[self(x) for x in t.a])
        if op == 'or':
            return z3.Or(*[self(x) for x in t.a])
        if op == 'not':
            return z3.Not(self(t.a[0]))
        if op == 'ite':
            if t.sort == 'P':
                return self.opaque(t, 'pite')
            return z3.If(self(t.a[0]), self(t.a[1]), self(t.a[2]))
        if op == 'toreal':
            return z3.ToReal(self(t.a[0]))
        if op == 'floor':
            x = self(t.a[0])
            return z3.ToInt(x)
        if op == 'trunc':
            x = self(t.a[0])
            return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
        if op == 'idiv':
            a, b = self(t.a[0]), self(t.a[1])
            if t.a[1].op == 'const' and t.a[1].a[0] > 0:
                return z3.If(a >= 0, a / b, -((-a) / b))
            return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
        if op == 'imod':
            a, b = self(t.a[0]), self(t.a[1])
            bb = b if (t.a[1].op == 'const' and t.a[1].a[0] > 0) else z3.If(b > 0, b, -b)
            return z3.If(a >= 0, a % bb, -((-a) % bb))
        raise Exception('conv ' + op)


_syms = {}


def symbols(t):
    """set of atoms (vars and uf heads applied) for relevance filtering"""
    r = _syms.get(t)
    if r is not None:
        return r
    out = set()
    for u in subterms(t):
        if u.op == 'var':
            out.add(u.a[0])
        elif u.op == 'uf':
            out.add('f:' + u.a[0])
    r = frozenset(out)
    _syms[t] = r
    return r


class QFact:
    """forall binders (each 0<=b<n): body"""
    __slots__ = ('binders', 'body', 'syms', 'bsyms', 'key')

    def __init__(self, binders, body):
        self.binders, self.body = binders, body
        self.key = (tuple((b.id, n.id if n is not None else None) for b, n in binders), body.id)
        s = symbols(body)
        bs = {b.a[0] for b, n in binders}
        self.syms = s - bs
        self.bsyms = set().union(*[symbols(n) for b, n in binders if n is not None]) - bs if binders else set()


def relevant(facts, qfacts, goal):
    need = set(symbols(goal))
    fs = [(f, symbols(f)) for f in facts]
    chosen = []
    rest = fs
    changed = True
    while changed:
        changed = False
        nxt = []
        for f, s in rest:
            if not s or s & need:
                chosen.append(f)
                if not s <= need:
                    need |= s
                    changed = True
            else:
                nxt.append((f, s))
        rest = nxt
        if not changed:
            for q in qfacts:
                if q.syms & need and not q.bsyms <= need:
                    need |= q.bsyms
                    changed = True
    qs = [q for q in qfacts if q.syms & need]
    return chosen, qs


_nlq = {}


def nlpatterns(q):
    """quantified facts with products: (patterns of one binder, or None)"""
    r = _nlq.get(q.key)
    if r is None:
        r = ()
        if len(q.binders) == 1:
            b = q.binders[0][0]
            if any(u.op == 'mul' and u.sort == 'R' and b in u.sp for u in subterms(q.body)):
                r = tuple({(u.a[0], i, len(u.a)): 1 for u in subterms(q.body) if u.op == 'uf' for i, x in enumerate(u.a) if i and x is b})
        _nlq[q.key] = r = (r,)
    return r[0]


def instances(q, pats, terms):
    """ground instances of a quantified fact for the given terms"""
    b, n = q.binders[0]
    cand = {}
    for t in terms:
        for u in subterms(t):
            if u.op == 'uf':
                for h, i, m in pats:
                    if u.a[0] == h and len(u.a) == m:
                        cand[u.a[i]] = 1
    out = []
    for x in list(cand)[:6]:
        if b in x.sp:
            continue
        g = tm.and_(tm.ge(x, tm.I0), tm.lt(x, n)) if n is not None else tm.TRUE
        out.append(tm.implies(g, tm.subst(q.body, {b: x})))
    return out


_cache = {}


def limit(s, timeout, slow=1):
    # effort is limited by z3's own resource count (about 2000 units per ms), so that the outcome does not
    # depend on the load of the machine; the wall clock is only a safety net
    s.set('rlimit', int(timeout) * 3000)
    s.set('timeout', int(timeout) * 6 + 2000 if slow == 1 else int(timeout) * 2)


def check(facts, qfacts, goal, timeout=1000, nonlin=False, want_model=False, cache=True, rel=True):
    """is  facts |= goal ?  returns 'valid' | 'invalid' | 'unknown' (, model)"""
    if goal.op == 'const':
        return ('valid', None) if goal.a[0] else ('invalid', None)
    extra, skip = [], ()
    if not nonlin and qfacts:
        for q in qfacts:
            pats = nlpatterns(q)
            if pats:
                xs = instances(q, pats, [goal])
                if xs:
                    extra += xs
                    skip += (q,)
        if extra:
            facts = list(facts) + extra
            qfacts = [q for q in qfacts if q not in skip]
    if rel:
        facts, qs = relevant(facts, qfacts, goal)
    else:
        qs = qfacts
    key = (frozenset(f.id for f in facts), goal.id, nonlin, len(qs) and tuple(q.key for q in qs))
    if cache and key in _cache and not want_model:
        stats['cache'] += 1
        return _cache[key]
    t0 = time.time()
    c = Conv(nonlin)
    s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
    limit(s, timeout, 2 if nonlin else 1)
    for f in facts:
        s.add(c(f))
    s.add(z3.Not(c(goal)))
    for q in qs:
        zb = [c(b) for b, n in q.binders]
        rng = [z3.And(c(b) >= 0, c(b) < c(n)) for b, n in q.binders if n is not None]
        na = len(c.axioms)
        body = c(q.body)
        del c.axioms[na:]
        s.add(z3.ForAll(zb, z3.Implies(z3.And(*rng) if rng else z3.BoolVal(True), body)))
    for a in c.axioms:
        s.add(a)
    r = s.check()
    stats['queries'] += 1
    stats['time'] += time.time() - t0
    res = 'valid' if r == z3.unsat else 'invalid' if r == z3.sat else 'unknown'
    model = None
    if want_model and r == z3.sat:
        model = (s.model(), c)
    if not want_model:
        _cache[key] = (res, None)
    return res, model


def consistent(facts, qfacts=(), timeout=3000, nonlin=True):
    """'sat' | 'unsat' | 'unknown'"""
    c = Conv(nonlin)
    s = z3.Solver()
    limit(s, timeout)
    for f in facts:
        s.add(c(f))
    for a in c.axioms:
        s.add(a)
    return str(s.check())
