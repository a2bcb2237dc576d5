"""Hash-consed term language of the verification-condition generator.

Sorts: 'I' mathematical integer, 'R' mathematical real, 'B' boolean, 'P' pointer.
Terms are kept in a light canonical form (linear combinations, monomials with
integer powers, normalised comparisons) so that many equalities are syntactic.
"""
from fractions import Fraction
from math import gcd, floor

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'sp', '__weakref__')

    def __repr__(self):
        return show(self)


EMPTY = frozenset()


def _mk(op, a, sort, sp=EMPTY):
    key = (op, a, sort)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.sort, t.sp = op, a, sort, sp
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


def _spu(ts):
    s = EMPTY
    for t in ts:
        if t.sp:
            if not s:
                s = t.sp
            elif t.sp is not s and not t.sp <= s:
                s = s | t.sp
    return s


# ---------------------------------------------------------------- leaves
def const(v, sort):
    if sort == 'I':
        v = int(v)
    elif sort == 'R':
        v = Fraction(v)
    elif sort == 'B':
        v = bool(v)
    return _mk('const', (v,), sort)


TRUE = const(True, 'B')
FALSE = const(False, 'B')
I0, I1 = const(0, 'I'), const(1, 'I')
R0, R1 = const(0, 'R'), const(1, 'R')


def I(v):
    return const(v, 'I')


def R(v):
    return const(v, 'R')


def Rf(x):
    """a double literal: the shortest decimal that denotes it (what the source says)"""
    if x != x or x in (float('inf'), float('-inf')):
        return uf('special_' + repr(x), (), 'R')
    return const(Fraction(repr(x)), 'R')


_fresh = [0]


def var(name, sort, special=False):
    t = _mk('var', (name,), sort)
    if special and not t.sp:
        t.sp = frozenset((t,))
    return t


def fresh(name, sort, special=False):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort, special)


def bv(level):
    t = _mk('bv', (level,), 'I')
    return t


def isc(t):
    return t.op == 'const'


def cv(t):
    return t.a[0]


# ---------------------------------------------------------------- arithmetic
def _lin_parts(t):
    """(const, {term: coef})"""
    if t.op == 'const':
        return t.a[0], ()
    if t.op == 'lin':
        return t.a
    return 0, ((1, t),)


def _mklin(c, d, sort):
    items = [(k, t) for t, k in d.items() if k != 0]
    if not items:
        return const(c, sort)
    if c == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    items.sort(key=lambda x: x[1].id)
    if sort == 'R':
        c = Fraction(c)
        items = [(Fraction(k), t) for k, t in items]
    return _mk('lin', (c, tuple(items)), sort, _spu([t for _, t in items]))


COEF_INV = 10 ** 11


def lincomb(pairs, c0=0, sort=None):
    """sum of coef*term + c0"""
    d = {}
    c = c0
    for k, t in pairs:
        if sort is None:
            sort = t.sort
        tc, items = _lin_parts(t)
        c += k * tc
        for kk, tt in items:
            v = k * kk
            o = d.get(tt)
            if o is not None:
                r = o + v
                # coefficients cancelling up to the rounding of constants
                v = 0 if sort == 'R' and r and abs(r) * COEF_INV <= abs(o) else r
            d[tt] = v
    return _mklin(c, d, sort)


def add(a, b):
    if a.op == 'const' and a.a[0] == 0:
        return b
    if b.op == 'const' and b.a[0] == 0:
        return a
    return lincomb(((1, a), (1, b)), sort=a.sort)


def sub(a, b):
    if a is b:
        return const(0, a.sort)
    if b.op == 'const' and b.a[0] == 0:
        return a
    return lincomb(((1, a), (-1, b)), sort=a.sort)


def neg(a):
    return lincomb(((-1, a),), sort=a.sort)


def scale(k, a):
    if k == 0:
        return const(0, a.sort)
    return lincomb(((k, a),), sort=a.sort)


def _monic(t):
    """split a real factor: t = c * t'  with t' monic lin / atom.  returns (c, [(t',pow)])"""
    if t.op == 'const':
        return t.a[0], ()
    if t.op == 'mul':
        return 1, t.a
    if t.op == 'lin':
        c, items = t.a
        if c == 0 and len(items) == 1:
            k, u = items[0]
            cc, f = _monic(u)
            return k * cc, f
        k = items[0][0]
        if t.sort == 'I':
            g = 0
            for kk, _ in items:
                g = gcd(g, kk)
            g = gcd(g, c)
            if k < 0:
                g = -g
            k = g
            if k == 1:
                return 1, ((t, 1),)
            return k, ((_mklin(c // k, {u: kk // k for kk, u in items}, 'I'), 1),)
        if k == 1:
            return 1, ((t, 1),)
        return k, ((_mklin(c / k, {u: kk / k for kk, u in items}, 'R'), 1),)
    return 1, ((t, 1),)


def _mkmono(d, sort):
    items = [(t, p) for t, p in d.items() if p != 0]
    if not items:
        return const(1, sort)
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    items.sort(key=lambda x: x[0].id)
    return _mk('mul', tuple(items), sort, _spu([t for t, _ in items]))


def _mulf(fa, fb, sort):
    d = {}
    for t, p in fa:
        d[t] = d.get(t, 0) + p
    for t, p in fb:
        d[t] = d.get(t, 0) + p
    return _mkmono(d, sort)


def mul(a, b):
    if a.op == 'const':
        return scale(a.a[0], b)
    if b.op == 'const':
        return scale(b.a[0], a)
    if a.sort == 'I':
        ca, ia = _lin_parts(a)
        cb, ib = _lin_parts(b)
        pairs = []
        for k1, t1 in ia:
            for k2, t2 in ib:
                f1 = t1.a if t1.op == 'mul' else ((t1, 1),)
                f2 = t2.a if t2.op == 'mul' else ((t2, 1),)
                pairs.append((k1 * k2, _mulf(f1, f2, 'I')))
            if cb:
                pairs.append((k1 * cb, t1))
        for k2, t2 in ib:
            if ca:
                pairs.append((ca * k2, t2))
        return lincomb(pairs, ca * cb, 'I')
    # push products into ite with a zero branch
    ka, fa = _monic(a)
    kb, fb = _monic(b)
    return scale(ka * kb, _mulf(fa, fb, 'R'))


def inv(a):
    if a.op == 'const':
        if a.a[0] == 0:
            return uf('divzero', (), 'R')
        return const(1 / Fraction(a.a[0]), 'R')
    k, f = _monic(a)
    return scale(1 / Fraction(k), _mkmono({t: -p for t, p in f}, 'R'))


def div(a, b):
    return mul(a, inv(b))


def powi(a, n):
    if n == 0:
        return const(1, a.sort)
    if n < 0:
        return inv(powi(a, -n))
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def toreal(a):
    if a.sort == 'R':
        return a
    if a.op == 'const':
        return const(a.a[0], 'R')
    if a.op == 'lin':
        return lincomb([(k, toreal(t)) for k, t in a.a[1]], a.a[0], 'R')
    if a.op == 'mul':
        r = R1
        for t, p in a.a:
            r = mul(r, powi(toreal(t), p))
        return r
    if a.op == 'ite':
        return ite(a.a[0], toreal(a.a[1]), toreal(a.a[2]))
    return _mk('toreal', (a,), 'R', a.sp)


def trunc(a):
    """C conversion double -> integer (truncation towards zero)"""
    if a.op == 'const':
        v = a.a[0]
        q = abs(v.numerator) // v.denominator
        return I(q if v >= 0 else -q)
    if a.op == 'toreal':
        return a.a[0]
    if a.op == 'lin' and all(k.denominator == 1 and t.op == 'toreal' for k, t in a.a[1]) and a.a[0].denominator == 1:
        return lincomb([(int(k), t.a[0]) for k, t in a.a[1]], int(a.a[0]), 'I')
    if a.op == 'uf' and a.a[0] in ('floor', 'ceil') :
        return flr(a.a[1]) if a.a[0] == 'floor' else neg(flr(neg(a.a[1])))
    if a.op == 'ite' and integral(a):
        return ite(a.a[0], trunc(a.a[1]), trunc(a.a[2]))
    return _mk('trunc', (a,), 'I', a.sp)


def integral(a):
    """syntactically integer-valued real term"""
    if a.op == 'const':
        return a.a[0].denominator == 1
    if a.op == 'ite':
        return integral(a.a[1]) and integral(a.a[2])
    if a.op == 'lin':
        return a.a[0].denominator == 1 and all(k.denominator == 1 and integral(t) for k, t in a.a[1])
    return a.op == 'toreal'


def flr(a):
    """mathematical floor: real -> int"""
    if a.op == 'const':
        return I(floor(a.a[0]))
    if a.op == 'toreal':
        return a.a[0]
    if a.op == 'lin':
        # pull out integral parts
        out, rest, c = [], [], a.a[0]
        for k, t in a.a[1]:
            if t.op == 'toreal' and k.denominator == 1:
                out.append((int(k), t.a[0]))
            else:
                rest.append((k, t))
        ci = floor(c)
        if out or ci:
            r = lincomb(rest, c - ci, 'R')
            if r.op == 'const':
                return lincomb(out, ci + floor(r.a[0]), 'I')
            return lincomb(out + [(1, _mk('floor', (r,), 'I', r.sp))], ci, 'I')
    return _mk('floor', (a,), 'I', a.sp)


def idiv(a, b):
    """truncated integer division, b constant or term"""
    if b.op == 'const' and b.a[0] == 1:
        return a
    if a.op == 'const' and b.op == 'const' and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return I(q if (a.a[0] >= 0) == (b.a[0] > 0) else -q)
    if b.op == 'const' and b.a[0] != 0:
        c, items = _lin_parts(a)
        if c % b.a[0] == 0 and all(k % b.a[0] == 0 for k, _ in items):
            return lincomb([(k // b.a[0], t) for k, t in items], c // b.a[0], 'I')
    else:
        q = polydiv(a, b)
        if q is not None:
            return q
    return _mk('idiv', (a, b), 'I', _spu((a, b)))


def imod(a, b):
    """remainder with the sign of the dividend (C %)"""
    if a.op == 'const' and b.op == 'const' and b.a[0] != 0:
        r = abs(a.a[0]) % abs(b.a[0])
        return I(r if a.a[0] >= 0 else -r)
    if b.op == 'const' and b.a[0] in (1, -1):
        return I0
    if b.op == 'const' and b.a[0] != 0:
        c, items = _lin_parts(a)
        if c % b.a[0] == 0 and all(k % b.a[0] == 0 for k, _ in items):
            return I0
    else:
        q = polydiv(a, b)
        if q is not None:
            return I0
    return _mk('imod', (a, b), 'I', _spu((a, b)))


# polynomial helpers on integer terms --------------------------------------
def ipoly(t):
    """integer term -> dict monomial(tuple of (term,pow)) -> coef"""
    c, items = _lin_parts(t)
    d = {}
    if c:
        d[()] = c
    for k, u in items:
        m = u.a if u.op == 'mul' else ((u, 1),)
        d[m] = d.get(m, 0) + k
    return d


def ipoly_term(d):
    pairs = []
    c = 0
    for m, k in d.items():
        if m == ():
            c += k
        else:
            pairs.append((k, _mkmono(dict(m), 'I')))
    return lincomb(pairs, c, 'I')


def mono_div(m, q):
    d = dict(m)
    for t, p in q:
        if d.get(t, 0) < p:
            return None
        d[t] -= p
    return tuple(sorted(((t, p) for t, p in d.items() if p), key=lambda x: x[0].id))


def polydivmod(a, b):
    """multivariate division of integer term a by b: (quotient, remainder) terms."""
    pa, pb = ipoly(a), ipoly(b)
    if not pb:
        return None
    # leading monomial of b: highest total degree
    lead = max(pb, key=lambda m: (sum(p for _, p in m), [t.id for t, _ in m]))
    lc = pb[lead]
    q, rem = {}, {}
    work = dict(pa)
    guard = 0
    while work:
        guard += 1
        if guard > 500:
            return None
        m = max(work, key=lambda m: (sum(p for _, p in m), [t.id for t, _ in m]))
        c = work[m]
        md = mono_div(m, lead)
        if md is not None and c % lc == 0:
            k = c // lc
            q[md] = q.get(md, 0) + k
            for bm, bc in pb.items():
                nm = {}
                for t, p in md:
                    nm[t] = nm.get(t, 0) + p
                for t, p in bm:
                    nm[t] = nm.get(t, 0) + p
                nm = tuple(sorted(nm.items(), key=lambda x: x[0].id))
                work[nm] = work.get(nm, 0) - k * bc
                if work[nm] == 0:
                    del work[nm]
        else:
            rem[m] = c
            del work[m]
    return ipoly_term(q), ipoly_term(rem)


def polydiv(a, b):
    r = polydivmod(a, b)
    if r is None or not (r[1].op == 'const' and r[1].a[0] == 0):
        return None
    return r[0]


# ---------------------------------------------------------------- booleans
def not_(a):
    if a.op == 'const':
        return FALSE if a.a[0] else TRUE
    if a.op == 'not':
        return a.a[0]
    if a.op == 'le':
        d = a.a[0]
        if d.sort == 'I':
            return _cmp('le', lincomb(((-1, d),), 1, 'I'))
        return _cmp('lt', neg(d))
    if a.op == 'lt':
        return _cmp('le', neg(a.a[0]))
    if a.op == 'and':
        return or_(*[not_(x) for x in a.a])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.a])
    return _mk('not', (a,), 'B', a.sp)


def _cmp(op, d):
    """op in le, lt, eq : d op 0"""
    if d.op == 'const':
        v = d.a[0]
        return TRUE if (v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0) else FALSE
    if d.sort == 'I':
        if op == 'lt':
            d = lincomb(((1, d),), 1, 'I')
            op = 'le'
            if d.op == 'const':
                return _cmp(op, d)
        c, items = _lin_parts(d)
        g = 0
        for k, _ in items:
            g = gcd(g, abs(k))
        if g > 1:
            if op == 'le':
                # sum k x + c <= 0  <=> sum (k/g) x + ceil(c/g) <= 0
                c2 = -((-c) // g)
                d = _mklin(c2, {t: k // g for k, t in items}, 'I')
            else:
                if c % g:
                    return FALSE
                d = _mklin(c // g, {t: k // g for k, t in items}, 'I')
        if op == 'eq':
            c, items = _lin_parts(d)
            if items[0][0] < 0:
                d = neg(d)
    else:
        c, items = _lin_parts(d)
        k = abs(items[0][0])
        if op == 'eq':
            k = items[0][0]
        if k != 1:
            d = scale(1 / Fraction(k), d)
        if POS and not c:
            d = drop_positive(d)
    # comparison of a two-valued ite against a constant
    if d.op == 'ite' or (d.op == 'lin' and len(d.a[1]) == 1 and d.a[1][0][1].op == 'ite'):
        if d.op == 'ite':
            i, k, c = d, 1, 0
        else:
            c, ((k, i),) = d.a
        x, y = i.a[1], i.a[2]
        dx = lincomb(((k, x),), c, d.sort)
        dy = lincomb(((k, y),), c, d.sort)
        if dx.op == 'const' or dy.op == 'const':
            return ite(i.a[0], _cmp(op, dx), _cmp(op, dy))
    return _mk(op, (d,), 'B', d.sp)


# name of an input function -> range of its values
BOUNDS = {}


def body_range(t):
    """constant bounds of an integer term built from bounded inputs, or None"""
    if t.op == 'const':
        return t.a[0], t.a[0]
    if t.op == 'uf':
        return BOUNDS.get(t.a[0])
    if t.op == 'lin':
        lo = hi = t.a[0]
        for k, u in t.a[1]:
            b = body_range(u)
            if b is None:
                return None
            lo += min(k * b[0], k * b[1])
            hi += max(k * b[0], k * b[1])
        return int(lo), int(hi)
    if t.op == 'ite':
        a, b = body_range(t.a[1]), body_range(t.a[2])
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    return None


POS = set()     # real terms required to be positive


def drop_positive(d):
    """d without common factors known to be positive (for comparisons with zero)"""
    while True:
        c, items = _lin_parts(d)
        if c:
            return d
        common = None
        for _, t in items:
            fs = {u for u, p in (t.a if t.op == 'mul' else ((t, 1),)) if p >= 1 and u in POS}
            common = fs if common is None else common & fs
            if not common:
                return d
        v = min(common, key=lambda u: u.id)
        if d is v:
            return d
        iv = powi(v, -1)
        d2 = lincomb([(q, mul(t, iv)) for q, t in items], 0, 'R')
        if d2.op == 'const':
            return d
        d = d2


def le(a, b):
    return _cmp('le', sub(a, b))


def lt(a, b):
    return _cmp('lt', sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == 'B':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.sort == 'P':
        return peq(a, b)
    return _cmp('eq', sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def and_(*xs):
    out = {}
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x.op == 'and':
            st.extend(reversed(x.a))
        elif x is TRUE:
            pass
        elif x is FALSE:
            return FALSE
        else:
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return FALSE
    # absorption with or-literals
    res = []
    for x in out:
        if x.op == 'or':
            if any(y in out for y in x.a):
                continue
            ys = [y for y in x.a if not_(y) not in out]
            if len(ys) != len(x.a):
                z = or_(*ys)
                if z is FALSE:
                    return FALSE
                res.append(z)
                continue
        res.append(x)
    if len(res) != len(out) or any(r.op == 'and' for r in res):
        return and_(*res)
    if not res:
        return TRUE
    if len(res) == 1:
        return res[0]
    res.sort(key=lambda x: x.id)
    return _mk('and', tuple(res), 'B', _spu(res))


def or_(*xs):
    out = {}
    st = list(reversed(xs))
    while st:
        x = st.pop()
        if x.op == 'or':
            st.extend(reversed(x.a))
        elif x is FALSE:
            pass
        elif x is TRUE:
            return TRUE
        else:
            out[x] = 1
    for x in out:
        if not_(x) in out:
            return TRUE
    # pairwise: {C,l} {C,not l} -> C ; absorption
    items = list(out)
    changed = True
    while changed and len(items) > 1 and len(items) < 24:
        changed = False
        sets = [frozenset(x.a) if x.op == 'and' else frozenset((x,)) for x in items]
        for i in range(len(items)):
            for j in range(len(items)):
                if i == j:
                    continue
                if sets[i] <= sets[j]:
                    items = [x for n, x in enumerate(items) if n != j]
                    changed = True
                    break
                di = sets[i] - sets[j]
                if len(di) == 1:
                    l = next(iter(di))
                    if not_(l) in sets[j]:
                        # (A & l) | (B & ~l), A subset of B  ->  (A&l) | B
                        com = sets[j] - {not_(l)}
                        nj = and_(*com)
                        if nj is TRUE:
                            return TRUE
                        items = [x if n != j else nj for n, x in enumerate(items)]
                        items = list(dict.fromkeys(items))
                        changed = True
                        break
            if changed:
                break
    if not items:
        return FALSE
    if len(items) == 1:
        return items[0]
    # factor common literals
    sets = [frozenset(x.a) if x.op == 'and' else frozenset((x,)) for x in items]
    com = frozenset.intersection(*sets)
    if com:
        rest = or_(*[and_(*(s - com)) for s in sets])
        return and_(rest, *com)
    items.sort(key=lambda x: x.id)
    return _mk('or', tuple(items), 'B', _spu(items))


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if c.op == 'const':
        return a if c.a[0] else b
    if a is b:
        return a
    if a.sort == 'B':
        return or_(and_(c, a), and_(not_(c), b))
    nc = not_(c)
    if c.op == 'not' or (nc.op != 'not' and nc.id < c.id):
        c, a, b = nc, b, a
        nc = not_(c)
    if a.op == 'ite':
        if a.a[0] is c:
            a = a.a[1]
        elif a.a[0] is nc:
            a = a.a[2]
    if b.op == 'ite':
        if b.a[0] is c:
            b = b.a[2]
        elif b.a[0] is nc:
            b = b.a[1]
    if a is b:
        return a
    if a.sort in ('I', 'R'):
        # undefined branch: any value is allowed
        ca, ia = _lin_parts(a)
        cb, ib = _lin_parts(b)
        da = {t: k for k, t in ia}
        common = {t: k for k, t in ib if da.get(t) == k}
        com = _mklin(0, common, a.sort) if common else None
        if com is not None:
            return add(com, ite(c, sub(a, com), sub(b, com)))
        if ca == cb and ca != 0 and not isc(a) and not isc(b):
            k = const(ca, a.sort)
            return add(k, ite(c, sub(a, k), sub(b, k)))
        # ite(c, x, 0) with nested ite(d, .. ) stays
    if a.sort == 'P':
        if a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]):
            idx = tuple(ite(c, x, y) for x, y in zip(a.a[1], b.a[1]))
            return ptr(a.a[0], idx, ite(c, a.a[2], b.a[2]))
    return _mk('ite', (c, a, b), a.sort, _spu((c, a, b)))


# ---------------------------------------------------------------- functions
def uf(name, args, sort):
    return _mk('uf', (name,) + tuple(args), sort, _spu(args))


def sqrt(x):
    if x.op == 'const':
        v = x.a[0]
        from math import isqrt
        if v >= 0:
            n, d = isqrt(v.numerator), isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return R(Fraction(n, d))
    else:
        # square root of a fourth power
        k, f = _monic(x)
        if k > 0 and f and all(p % 4 == 0 for _, p in f):
            return mul(sqrt(const(k, 'R')), _mkmono({t: p // 2 for t, p in f}, 'R'))
    return uf('sqrt', (x,), 'R')


# binder sum -------------------------------------------------------------
def _maxbv(t, memo=None):
    memo = {} if memo is None else memo
    if t.id in memo:
        return memo[t.id]
    memo[t.id] = 0
    r = 0
    if t.op == 'bv':
        r = t.a[0]
    else:
        for c in children(t):
            m = _maxbv(c, memo)
            if m > r:
                r = m
    memo[t.id] = r
    return r


def _uses(t, k, memo):
    r = memo.get((t, 'uses'))
    if r is None:
        r = memo[(t, 'uses')] = t is k or any(_uses(u, k, memo) for u in children(t))
    return r


def _descends(t, k, memo=None):
    """True if every index used in t goes down with k, None if k is not in an index, False otherwise"""
    if memo is None:
        memo = {}
    r = memo.get(t, 0)
    if r != 0:
        return r
    memo[t] = None
    if t.op in ('toreal', 'le', 'lt', 'eq'):
        return None
    if t.sort == 'I' and (t is k or t.op in ('lin', 'mul')):
        r = None
        for m, q in ipoly(t).items():
            for u, p in m:
                if u is k:
                    if q > 0 or p != 1:
                        r = False
                    elif r is None:
                        r = True
                elif _uses(u, k, memo):
                    r = False
    else:
        r = None
        for u in children(t):
            x = _descends(u, k, memo)
            if x is False:
                r = False
                break
            if x:
                r = True
    memo[t] = r
    return r


def sum_(n, k, body):
    """Sum_{k=0}^{n-1} body(k); k a var term"""
    sort = body.sort
    if n.op == 'const':
        if n.a[0] <= 0:
            return const(0, sort)
        if n.a[0] <= 6:
            r = const(0, sort)
            for i in range(n.a[0]):
                r = add(r, subst(body, {k: I(i)}))
            return r
    if body.op == 'const' and body.a[0] == 0:
        return body
    if sort == 'I':
        c, items = _lin_parts(body)
        g = 0
        for q in [c] + [q for q, _ in items]:
            g = gcd(g, int(q))
        if g > 1:
            return mul(I(g), sum_(n, k, lincomb([(int(q) // g, t) for q, t in items], int(c) // g, 'I')))
    if _descends(body, k) is True:
        body = subst(body, {k: add(n, add(I(-1), mul(I(-1), k)))})     # the same terms, added up from the other end
    lvl = _maxbv(body) + 1
    b = subst(body, {k: bv(lvl)})
    return _mk('sum', (n, bv(lvl), b), sort, _spu((n, b)))


def ptr(region, idx, off):
    return _mk('ptr', (region, tuple(idx), off), 'P', _spu(tuple(idx) + (off,)))


class _Null:
    name = 'null'
    rid = 0


NULLREG = _Null()
NULL = None


def _init_null():
    global NULL
    NULL = ptr(NULLREG, (), I0)


_init_null()


def peq(a, b):
    if a.op == 'ite':
        return ite(a.a[0], peq(a.a[1], b), peq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], peq(a, b.a[1]), peq(a, b.a[2]))
    if a.op == 'ptr' and b.op == 'ptr':
        if a.a[0] is not b.a[0]:
            return FALSE
        c = [eq(x, y) for x, y in zip(a.a[1], b.a[1])]
        return and_(eq(a.a[2], b.a[2]), *c)
    if a is b:
        return TRUE
    return uf('ptreq', (a, b), 'B')


# ---------------------------------------------------------------- traversal
def children(t):
    op = t.op
    if op in ('const', 'var', 'bv'):
        return ()
    if op == 'lin':
        return [u for _, u in t.a[1]]
    if op == 'mul':
        return [u for u, _ in t.a]
    if op == 'uf':
        return t.a[1:]
    if op == 'ptr':
        return t.a[1] + (t.a[2],)
    return t.a


def rebuild(t, f):
    op = t.op
    if op in ('const', 'var', 'bv'):
        return t
    if op == 'lin':
        return lincomb([(k, f(u)) for k, u in t.a[1]], t.a[0], t.sort)
    if op == 'mul':
        r = const(1, t.sort)
        for u, p in t.a:
            v = f(u)
            r = mul(r, powi(v, p))
        return r
    if op == 'uf':
        n = [f(u) for u in t.a[1:]]
        if t.a[0] == 'sqrt':
            return sqrt(n[0])
        if t.a[0] in UF_FOLD:
            return UF_FOLD[t.a[0]](*n)
        return uf(t.a[0], n, t.sort)
    if op == 'ptr':
        return ptr(t.a[0], [f(u) for u in t.a[1]], f(t.a[2]))
    if op == 'le' or op == 'lt' or op == 'eq':
        return _cmp(op, f(t.a[0]))
    if op == 'and':
        return and_(*[f(u) for u in t.a])
    if op == 'or':
        return or_(*[f(u) for u in t.a])
    if op == 'not':
        return not_(f(t.a[0]))
    if op == 'ite':
        c = f(t.a[0])
        if c is TRUE:
            return f(t.a[1])
        if c is FALSE:
            return f(t.a[2])
        return ite(c, f(t.a[1]), f(t.a[2]))
    if op == 'toreal':
        return toreal(f(t.a[0]))
    if op == 'trunc':
        return trunc(f(t.a[0]))
    if op == 'floor':
        return flr(f(t.a[0]))
    if op == 'idiv':
        return idiv(f(t.a[0]), f(t.a[1]))
    if op == 'imod':
        return imod(f(t.a[0]), f(t.a[1]))
    if op == 'sum':
        n = f(t.a[0])
        k = fresh('k', 'I')
        body = f(subst(t.a[2], {t.a[1]: k}))
        return sum_(n, k, body)
    raise Exception('rebuild ' + op)


UF_FOLD = {}


def subst(t, m):
    """m: dict term->term (vars, bv or any node)"""
    memo = {}
    sps = None
    if all(k.sp for k in m):
        sps = frozenset().union(*[k.sp for k in m])

    def go(u):
        r = m.get(u)
        if r is not None:
            return r
        if u.op in ('const', 'var', 'bv'):
            return u
        if sps is not None and not (u.sp & sps):
            return u
        r = memo.get(u)
        if r is None:
            r = rebuild(u, go)
            memo[u] = r
        return r
    return go(t)


def assume(t, facts):
    """replace boolean subterms known true / false by facts (a set of true nodes)"""
    memo = {}

    def go(u):
        if u.op in ('const', 'var', 'bv') and u.sort != 'B':
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u.sort == 'B':
            if u in facts:
                return TRUE
            if not_(u) in facts:
                return FALSE
        r = rebuild(u, go) if u.op != 'sum' else u
        memo[u] = r
        return r
    return go(t)


def subterms(t, seen=None):
    seen = {} if seen is None else seen
    st = [t]
    while st:
        u = st.pop()
        if u in seen:
            continue
        seen[u] = 1
        st.extend(children(u))
    return seen


def contains_op(t, ops):
    return any(u.op in ops for u in subterms(t))


# ---------------------------------------------------------------- printing
def show(t, depth=12):
    if depth <= 0:
        return '...'
    d = depth - 1
    op = t.op
    if op == 'const':
        v = t.a[0]
        if t.sort == 'R':
            if v.denominator == 1 and abs(v.numerator) < 10 ** 12:
                return str(v.numerator) + '.'
            return repr(float(v))
        return str(v)
    if op == 'var':
        return t.a[0]
    if op == 'bv':
        return '$%d' % t.a[0]
    if op == 'lin':
        s = []
        for k, u in t.a[1]:
            if k == 1:
                s.append('+' + show(u, d))
            elif k == -1:
                s.append('-' + show(u, d))
            else:
                s.append('%+g*%s' % (float(k), show(u, d)))
        if t.a[0]:
            s.append('%+g' % float(t.a[0]))
        return '(' + ' '.join(s).lstrip('+') + ')'
    if op == 'mul':
        return '*'.join(show(u, d) + ('^%d' % p if p != 1 else '') for u, p in t.a)
    if op == 'uf':
        return '%s(%s)' % (t.a[0], ','.join(show(u, d) for u in t.a[1:]))
    if op == 'ptr':
        return '&%s[%s]+%s' % (t.a[0].name, ','.join(show(u, d) for u in t.a[1]), show(t.a[2], d))
    if op in ('le', 'lt', 'eq'):
        return '(%s %s 0)' % (show(t.a[0], d), {'le': '<=', 'lt': '<', 'eq': '=='}[op])
    if op == 'sum':
        return 'Sum(%s<%s: %s)' % (show(t.a[1], d), show(t.a[0], d), show(t.a[2], d))
    return '%s(%s)' % (op, ', '.join(show(u, d) for u in t.a))


def dagsize(t, limit):
    """number of distinct subterms, counted up to limit"""
    seen = {t}
    st = [t]
    while st:
        u = st.pop()
        for c in children(u):
            if c not in seen:
                seen.add(c)
                st.append(c)
                if len(seen) >= limit:
                    return limit
    return len(seen)
