"""Models of the functions that are not verified code: the standard library
(containers, exceptions, streams, math) and the specification functions of the contracts."""
import re
import time
import smt
from terms import *
from terms import sub as sub_
import terms as tm
import symex
from symex import Unsupported, U, D

_cache = {}
GHOST = 'ghost'


def lookup(ex, name, dem):
    key = (id(ex), name)
    h = _cache.get(key, 0)
    if h == 0:
        h = find(ex, name, dem)
        _cache[key] = h
    rp = ex.replaced.get(dem) if ex.replaced else None
    if rp is not None and name != rp and rp not in ex.callstack:
        def repl(ex, name, dem, vals, ins, throws, rp=rp):
            ex.notes.add('contract of %s used at its call sites' % dem)
            if rp.startswith('va_'):
                # the contract gets the variable arguments as an array of 8-byte slots, zeros behind the last one
                k = len(ex.mod.func(rp).params) - 1
                r, idx = ex.new_region('arguments', 'heap', I(8 * 64), 'malloc')
                ex.fill(r, idx, I0, I(8 * 64), 'zero')
                for i, ((t, _, _), x) in enumerate(list(zip(ins.ops[1], vals))[k:]):
                    ex.write(r, idx, I(8 * i), tm.NULL if x is I0 and ex.mod.size(t) == 8 else x, ex.mod.size(t))
                vals = vals[:k] + [ptr(r, idx, I0)]
            v, th = ex.call(rp, vals)
            throws.extend(th)
            return v
        return repl
    return h


EXACT = {}
PREFIX = []


def exact(*names):
    def deco(f):
        for n in names:
            EXACT[n] = f
        return f
    return deco


def regex(rx):
    def deco(f):
        PREFIX.append((re.compile(rx), f))
        return f
    return deco


NOOP_RX = re.compile(
    r'(std::(basic_)?(o|i|io)?(f|string)?stream|std::basic_ios|std::ios_base|std::__cxx11::basic_(o|i)?string|'
    r'std::__cxx11::basic_stringstream|std::char_traits|std::allocator|std::__new_allocator|std::basic_filebuf|std::operator<<|std::set(w|precision|fill)|'
    r'std::_Setw|std::exception::|IOexception::|RANGEexception::|std::ctype|std::__cxx11::to_string|std::flush|std::endl|'
    r'std::__exception_ptr|std::ostream|std::istream|std::operator\+<|std::operator|<char|std::logic_error|std::runtime_error|'
    r'std::__throw_)')


def find(ex, name, dem):
    if name in EXACT:
        return EXACT[name]
    if dem in EXACT:
        return EXACT[dem]
    base = dem
    for rx, f in PREFIX:
        if rx.match(base):
            return f
    m = re.match(r'^(?:.*? )?(std::|__gnu_cxx::)', base)
    if base.startswith(('IOexception::', 'RANGEexception::')):
        return noop
    # return type in front of template functions
    core = base
    if NOOP_RX.match(core) or (' std::operator<<' in core) or core.startswith('std::basic_ostream') or \
       (('basic_string' in core or 'basic_ostream' in core or 'char_traits' in core) and 'std::vector' not in core.split('(')[0] and
            ('std::' in core.split('(')[0])):
        if core.startswith('std::allocator') or core.startswith('std::__new_allocator'):
            return noop
        return noop
    return None


def noop(ex, name, dem, vals, ins, throws):
    ty = ins.ty
    if ty == 'void':
        return None
    if ty == 'ptr':
        for v in vals:
            if isinstance(v, T) and v.sort == 'P':
                return v
        return NULL
    if isinstance(ty, tuple) and ty[0] in ('l', 's'):
        st = ex.mod.struct(ty[1]) if ty[0] == 's' else ty
        return tuple(ex.fresh('ext', ex.sort_of(t)) for t in st[1])
    return ex.fresh('ext', ex.sort_of(ty))


def literal(ex, p):
    """the string literal a pointer refers to, or None"""
    try:
        return cstring(ex, p)
    except (Unsupported, AttributeError, KeyError, TypeError):
        pass
    # characters put into an array
    p = ex.simp(p)
    if p.op != 'ptr' or p.a[0].kind != 'stack' or p.a[2].op != 'const':
        return None
    node, s = ex.mem.get(p.a[0]), ''
    if type(node) is not symex.D or node.idx != p.a[1]:
        return None
    hit = node.d.get(p.a[2])
    if hit is not None and hit[1] == 8 and hit[0].op == 'ptr':   # a std::string made from a literal (see _string)
        return literal(ex, hit[0])
    while len(s) < 64:
        hit = node.d.get(add(p.a[2], I(len(s))))
        if hit is None or hit[1] != 1 or hit[0].op != 'const':
            return None
        if not hit[0].a[0]:
            return s
        s += chr(hit[0].a[0])


def cstring(ex, p):
    if p.op != 'ptr':
        raise Unsupported('string argument is not a literal')
    r, idx, off = p.a
    if r.ety is None:
        raise Unsupported('string argument is not a literal')
    ty, val = r.ety
    if val[0] == 'bytes':
        b = bytes(val[1])
    elif val[0] == 'zero':
        b = b'\0'
    else:
        raise Unsupported('string argument')
    b = b[off.a[0]:]
    return b.split(b'\0')[0].decode('latin1')


# ------------------------------------------------------------------ LLVM
@regex(r'^llvm\.(lifetime\.start)')
def _lts(ex, name, dem, vals, ins, throws):
    p = vals[-1]
    if p.op == 'ptr' and p.a[0].kind == 'stack' and not p.a[1]:
        # the object starts with indeterminate content
        ex.mem.pop(p.a[0], None)
        ex.resets[p.a[0]] = ex.resets.get(p.a[0], 0) + 1
    return None


@regex(r'^llvm\.(lifetime\.end|dbg|invariant|experimental\.noalias|donothing|stacksave|stackrestore)')
def _ltnop(ex, name, dem, vals, ins, throws):
    return noop(ex, name, dem, vals, ins, throws)


@regex(r'^llvm\.assume')
def _assume(ex, name, dem, vals, ins, throws):
    return None


@regex(r'^llvm\.expect')
def _expect(ex, name, dem, vals, ins, throws):
    return vals[0]


@regex(r'^(llvm\.memcpy|llvm\.memmove)')
def _memcpy(ex, name, dem, vals, ins, throws):
    ex.memcpy(vals[0], vals[1], vals[2])


@exact('memcpy', 'memmove')
def _cmemcpy(ex, name, dem, vals, ins, throws):
    ex.memcpy(vals[0], vals[1], vals[2])
    return vals[0]


@regex(r'^llvm\.memset')
def _memset(ex, name, dem, vals, ins, throws):
    p = ex.simp(vals[0])
    if p.op != 'ptr' or not (vals[1].op == 'const' and vals[1].a[0] == 0):
        raise Unsupported('memset')
    r, idx, off = p.a
    if r is tm.NULLREG:
        if vals[2].op == 'const' and vals[2].a[0] == 0:
            return
        ex.oblige(FALSE, 'null pointer in memset', 'safety')
        return
    if r.size is not None:
        ex.oblige(and_(ge(off, I0), le(add(off, vals[2]), ex.region_size(r, idx))), 'memset inside of object', 'safety')
    ex.fill(r, idx, off, vals[2], 'zero')


@regex(r'^llvm\.umul\.with\.overflow')
def _umulo(ex, name, dem, vals, ins, throws):
    r = mul(vals[0], vals[1])
    return (r, FALSE)


@regex(r'^llvm\.(smul|sadd|uadd|usub|ssub)\.with\.overflow')
def _o(ex, name, dem, vals, ins, throws):
    raise Unsupported(dem)


@regex(r'^llvm\.fmuladd|^llvm\.fma\b')
def _fma(ex, name, dem, vals, ins, throws):
    return add(mul(vals[0], vals[1]), vals[2])


@regex(r'^llvm\.trap')
def _trap(ex, name, dem, vals, ins, throws):
    ex.guard = FALSE


@regex(r'^llvm\.(smin|smax|umin|umax)')
def _mm(ex, name, dem, vals, ins, throws):
    a, b = vals[:2]
    if 'u' == dem[5]:
        a, b = ex.unsigned(a, ins.ty[1]), ex.unsigned(b, ins.ty[1])
    return ite(lt(a, b), a, b) if 'min' in dem else ite(lt(a, b), b, a)


@regex(r'^llvm\.abs\.')
def _iabs(ex, name, dem, vals, ins, throws):
    return ite(ge(vals[0], I0), vals[0], neg(vals[0]))


# ------------------------------------------------------------------ math
def m_fabs(x):
    return ite(ge(x, R0), x, neg(x))


def u1(n):
    def f(x):
        return uf(n, (x,), 'R')
    return f


def m_exp(x):
    if x.op == 'const' and x.a[0] == 0:
        return R1
    return uf('exp', (x,), 'R')


def m_trig(n, at0):
    def f(x):
        if x.op == 'const' and x.a[0] == 0:
            return R(at0)
        return uf(n, (x,), 'R')
    return f


def m_pow(x, y):
    if y.op == 'const':
        v = y.a[0]
        if v.denominator == 1 and abs(v.numerator) <= 12:
            return powi(x, int(v))
        if v.denominator == 2 and abs(v.numerator) <= 12:
            return powi(sqrt(x), int(v.numerator))
    if y.op == 'toreal':
        return uf('pow', (x, y), 'R')
    return uf('pow', (x, y), 'R')


def m_floor(x):
    return toreal(tm.flr(x))


def m_ceil(x):
    return neg(toreal(tm.flr(neg(x))))


def m_round(x):
    """half away from zero"""
    h = R(Fraction(1, 2))
    return ite(ge(x, R0), toreal(tm.flr(add(x, h))), neg(toreal(tm.flr(add(neg(x), h)))))


def m_rint(x):
    """nearest, ties to even"""
    h = R(Fraction(1, 2))
    f = tm.flr(add(x, h))
    tie = and_(eq(toreal(f), add(x, h)), not_(eq(mul(tm.flr(mul(toreal(f), h)), I(2)), f)))
    return toreal(ite(tie, sub_(f, I(1)), f))


def m_trunc(x):
    return toreal(trunc(x))


MATH1 = {'sqrt': sqrt, 'fabs': m_fabs, 'exp': m_exp, 'sin': m_trig('sin', 0), 'cos': m_trig('cos', 1), 'tan': u1('tan'),
         'sinh': m_trig('sinh', 0), 'cosh': m_trig('cosh', 1), 'tanh': u1('tanh'), 'atan': u1('atan'), 'asin': u1('asin'), 'acos': u1('acos'),
         'log': u1('log'), 'log10': u1('log10'), 'floor': m_floor, 'ceil': m_ceil, 'round': m_round, 'trunc': m_trunc, 'rint': m_rint, 'nearbyint': m_rint}

UF_FOLD.update({'exp': m_exp, 'sin': MATH1['sin'], 'cos': MATH1['cos'], 'sinh': MATH1['sinh'], 'cosh': MATH1['cosh'], 'pow': m_pow})


def _math1(ex, name, dem, vals, ins, throws):
    n = re.match(r'(?:llvm\.|std::)?([a-z0-9]+?)f?(?:\.f64|\.f32|\(|$)', dem).group(1)
    if n == 'sqrt' and ex.roots:
        r = known_root(ex, vals[0])
        if r is not None:
            return r
    return MATH1[n](vals[0])


def known_root(ex, x):
    """sqrt(x) for x = k*w^2 with a proved non-negative w (vc_root) and a constant k > 0"""
    import prove
    if x.op == 'const' or any(tm._maxbv(w) for _, w in ex.roots):
        return None
    lim = list(prove.LIMIT)
    try:
        prove.LIMIT[0], prove.LIMIT[1] = time.process_time() + 5, 3000
        P = prove.nf(x)
        for w2, w in ex.roots:
            try:
                Q = prove.nf(w2)
                for m, (v, g) in Q.items():
                    if m in P and P[m][0] / v > 0:
                        k = P[m][0] / v
                        if prove.is_zero(sub(x, scale(k, w2))):
                            return mul(sqrt(R(k)), w)
                        break
            except prove.Blowup:
                pass
    except prove.Blowup:
        pass
    finally:
        prove.LIMIT[0], prove.LIMIT[1] = lim
    return None


for _n in MATH1:
    EXACT[_n] = _math1
    EXACT['llvm.%s.f64' % _n] = _math1


@exact('pow', 'llvm.pow.f64')
def _pow(ex, name, dem, vals, ins, throws):
    return m_pow(vals[0], vals[1])


@regex(r'^llvm\.powi')
def _powi(ex, name, dem, vals, ins, throws):
    return m_pow(vals[0], toreal(vals[1]))


@regex(r'.*std::pow<double, (int|double)>\(')
def _powt(ex, name, dem, vals, ins, throws):
    b = vals[1]
    return m_pow(vals[0], b if b.sort == 'R' else toreal(b))


@exact('hypot', 'cabs')
def _hypot(ex, name, dem, vals, ins, throws):
    return sqrt(add(mul(vals[0], vals[0]), mul(vals[1], vals[1])))


@exact('fmod', 'atan2', 'erf', 'lgamma')
def _m2(ex, name, dem, vals, ins, throws):
    return uf(dem, tuple(vals), 'R')


@exact('fmin', 'llvm.minnum.f64')
def _fmin(ex, name, dem, vals, ins, throws):
    return ite(lt(vals[0], vals[1]), vals[0], vals[1])


@exact('fmax', 'llvm.maxnum.f64')
def _fmax(ex, name, dem, vals, ins, throws):
    return ite(lt(vals[0], vals[1]), vals[1], vals[0])


@exact('cexp')
def _cexp(ex, name, dem, vals, ins, throws):
    e = m_exp(vals[0])
    return (mul(e, MATH1['cos'](vals[1])), mul(e, MATH1['sin'](vals[1])))


@exact('std::isnan(double)', 'std::isinf(double)', 'isnan', 'isinf')
def _isnan(ex, name, dem, vals, ins, throws):
    return FALSE


@exact('std::isfinite(double)')
def _isfin(ex, name, dem, vals, ins, throws):
    return TRUE


# ------------------------------------------------------------------ exceptions
def type_id(ex, p):
    if p.op == 'ptr' and p.a[0] is tm.NULLREG:
        return I(-1)
    if p.op == 'ptr':
        return I(ex.type_ids.setdefault(p.a[0].name, len(ex.type_ids) + 1))
    raise Unsupported('typeinfo')


def ghost_region(ex):
    r = getattr(ex, '_ghost', None)
    if r is None:
        r = symex.Region(-5, 'exception-in-flight', 'ghost')
        ex._ghost = r
    return r


@exact('__cxa_allocate_exception')
def _cae(ex, name, dem, vals, ins, throws):
    r, idx = ex.new_region('exc', 'heap', vals[0], 'exc')
    return ptr(r, idx, I0)


@exact('__cxa_throw')
def _throw(ex, name, dem, vals, ins, throws):
    ex.write(ghost_region(ex), (), I0, type_id(ex, vals[1]), 8)
    throws.append(ex.guard)
    ex.guard = FALSE


@exact('__cxa_rethrow')
def _rethrow(ex, name, dem, vals, ins, throws):
    throws.append(ex.guard)
    ex.guard = FALSE


@regex(r'^llvm\.eh\.typeid\.for')
def _tif(ex, name, dem, vals, ins, throws):
    return type_id(ex, vals[0])


@exact('__cxa_begin_catch', '__cxa_get_exception_ptr')
def _bc(ex, name, dem, vals, ins, throws):
    return vals[0]


@exact('__cxa_end_catch', '__cxa_free_exception', '__cxa_atexit', '__clang_call_terminate', '__cxa_pure_virtual',
       'exit', 'abort', '_ZSt9terminatev', '__cxa_call_unexpected')
def _term(ex, name, dem, vals, ins, throws):
    if name in ('__clang_call_terminate', 'exit', 'abort', '_ZSt9terminatev', '__cxa_call_unexpected', '__cxa_pure_virtual'):
        if name in ('abort', '__cxa_pure_virtual', '_ZSt9terminatev', '__cxa_call_unexpected', '__clang_call_terminate'):
            ex.oblige(FALSE, 'no abnormal termination', 'safety')
        ex.guard = FALSE
        return None
    return noop(ex, name, dem, vals, ins, throws)


# ------------------------------------------------------------------ heap
def _new(kind):
    def f(ex, name, dem, vals, ins, throws):
        n = vals[0]
        ex.oblige(and_(ge(n, I0), le(n, I(2 ** 47))), 'allocation size is sane', 'safety')
        r, idx = ex.new_region('heap', 'heap', n, kind)
        r.base = tuple(ex.active) if ex.active else None
        return ptr(r, idx, I0)
    return f


EXACT['_Znwm'] = _new('new')
EXACT['_Znam'] = _new('new[]')
EXACT['malloc'] = _new('malloc')


@exact('calloc')
def _calloc(ex, name, dem, vals, ins, throws):
    n = mul(vals[0], vals[1])
    r, idx = ex.new_region('heap', 'heap', n, 'malloc')
    r.base = tuple(ex.active) if ex.active else None
    ex.fill(r, idx, I0, n, 'zero')
    return ptr(r, idx, I0)


def _delete(kind):
    def f(ex, name, dem, vals, ins, throws):
        p = ex.simp(vals[0])

        def go(p, g):
            if p.op == 'ite':
                go(p.a[1], and_(g, p.a[0]))
                go(p.a[2], and_(g, not_(p.a[0])))
                return
            if p.op != 'ptr' or p.a[0] is tm.NULLREG:
                return
            r = p.a[0]
            if r.kind != 'heap' or r.alloc != kind:
                s = ex.guard
                ex.guard = and_(s, g)
                ex.oblige(FALSE, 'memory obtained with %s is released with the matching operator (not %s)' % (r.alloc, kind.replace('new', 'delete')), 'safety')
                ex.guard = s
        go(p, TRUE)
    return f


EXACT['_ZdlPv'] = EXACT['_ZdlPvm'] = _delete('new')
EXACT['_ZdaPv'] = EXACT['_ZdaPvm'] = _delete('new[]')
EXACT['free'] = _delete('malloc')


# ------------------------------------------------------------------ std::vector
_vrx = re.compile(r'^std::vector<(.*), std::allocator<(.*?) ?> >::(~?[\w\[\]=]+|operator\[\]|operator=)(?:<.*>)?\((.*)\)( const)?$')


def split_vec(dem):
    """(element type, method, args)"""
    assert dem.startswith('std::vector<')
    d = 0
    i = len('std::vector')
    j = i
    first = None
    while True:
        c = dem[j]
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
            if d == 0:
                break
        elif c == ',' and d == 1 and first is None:
            first = dem[i + 1:j]
        j += 1
    rest = dem[j + 1:]
    if not rest.startswith('::'):
        return None
    m = re.match(r'::(operator\[\]|operator=|~?\w+)', rest)
    return first, m.group(1), rest[m.end():]


def elem_type(ex, T_):
    T_ = T_.strip()
    if T_.endswith('*'):
        return 'ptr'
    b = {'double': 'double', 'float': 'float', 'int': ('i', 32), 'unsigned int': ('i', 32), 'long': ('i', 64), 'unsigned long': ('i', 64),
         'bool': ('i', 8), 'char': ('i', 8)}.get(T_)
    if b:
        return b
    for pre in ('class.', 'struct.'):
        if pre + T_ in ex.mod._rawtypes:
            return ('s', pre + T_)
    if T_.startswith('std::vector<'):
        return 'vector'
    raise Unsupported('vector element type ' + T_)


def esize(ex, et):
    return 24 if et == 'vector' else ex.mod.size(et)


def trivial(ex, et):
    return et != 'vector'


class Vec:
    """access to a modelled std::vector object"""

    def __init__(self, ex, p, et):
        self.ex, self.p, self.et = ex, ex.simp(p), et
        self.es = esize(ex, et)

    def data(self):
        return self.ex.load(self.p, 'P', 8)

    def count(self):
        return self.ex.load(self.ex.padd(self.p, I(8)), 'I', 8)

    def init(self, n=I0):
        ex = self.ex
        r, idx = ex.new_region('vec', 'vec')
        r.base = tuple(ex.active) if ex.active else None
        ex.store(self.p, ptr(r, idx, I0), 8)
        self.setn(n)
        return ptr(r, idx, I0)

    def setn(self, n):
        self.ex.store(self.ex.padd(self.p, I(8)), n, 8)

    def elem(self, i):
        return self.ex.padd(self.data(), mul(i, I(self.es)))

    def copy_elem(self, dst, src):
        ex = self.ex
        if self.et == 'vector':
            v = Vec(ex, dst, 'double')
            copy_vec(ex, v, Vec(ex, src, 'double'))
        else:
            ex.copy_typed(dst, src, self.et)


def copy_vec(ex, dst, src, fresh=True):
    n = src.count()
    sp = src.data()
    if fresh:
        dp = dst.init(n)
    else:
        dp = dst.data()
        dst.setn(n)
    range_copy(ex, dp, sp, mul(n, I(src.es)))


def range_copy(ex, dp, sp, nbytes):
    dp, sp = ex.simp(dp), ex.simp(sp)
    if nbytes.op == 'const' and nbytes.a[0] == 0:
        return
    if sp.op == 'ite' or dp.op == 'ite':
        ex.memcpy(dp, sp, nbytes)
        return
    if sp.op != 'ptr' or dp.op != 'ptr':
        raise Unsupported('copy between unknown pointers')
    if sp.a[0] is tm.NULLREG or dp.a[0] is tm.NULLREG:
        ex.oblige(eq(nbytes, I0), 'null pointer in copy', 'safety')
        return
    for p, nm in ((dp, 'destination'), (sp, 'source')):
        if p.a[0].size is not None:
            ex.oblige(or_(le(nbytes, I0), and_(ge(p.a[2], I0), le(add(p.a[2], nbytes), ex.region_size(p.a[0], p.a[1])))), 'copy inside of ' + nm, 'safety')
    if nbytes.op == 'const' and nbytes.a[0] <= 512:
        ex.memcpy(dp, sp, nbytes)
        return
    ex.fill(dp.a[0], dp.a[1], dp.a[2], nbytes, 'copy', src=(sp.a[0], sp.a[1], sp.a[2], ex.mem.get(sp.a[0])))


@regex(r'^std::vector<')
def _vector(ex, name, dem, vals, ins, throws):
    sv = split_vec(dem)
    if sv is None:
        raise Unsupported(dem)
    ets, meth, rest = sv
    if 'initializer_list' in rest:
        raise Unsupported(dem)
    if meth.startswith('~'):
        return None
    if meth in ('max_size',):
        return I(2 ** 60)
    et = elem_type(ex, ets)
    v = Vec(ex, vals[0], et)
    if meth == 'vector':
        if rest.startswith('()') or rest.startswith('(std::allocator'):
            v.init()
            return None
        m = re.match(r'\(unsigned long, std::allocator', rest)
        if m:
            dp = v.init(vals[1])
            ex.oblige(ge(vals[1], I0), 'vector size is not negative', 'safety')
            ex.fill(dp.a[0], dp.a[1], I0, mul(vals[1], I(v.es)), 'zero')
            if et == 'vector':
                empty_rows(ex, v, I0, vals[1])
            return None
        if re.match(r'\(unsigned long, .*const&, std::allocator', rest):
            n = vals[1]
            ex.oblige(ge(n, I0), 'vector size is not negative', 'safety')
            if et == 'vector':
                raise Unsupported(dem)
            dp = v.init(n)
            fill_n(ex, v, I0, n, vals[2])
            return None
        if re.match(r'\(std::vector<.*const&\)', rest):
            copy_vec(ex, v, Vec(ex, vals[1], et))
            return None
        if re.match(r'\(std::vector<.*&&\)', rest):
            s = Vec(ex, vals[1], et)
            d, n = s.data(), s.count()
            ex.store(v.p, d, 8)
            v.setn(n)
            s.init()
            return None
        raise Unsupported(dem)
    if meth == 'operator=':
        if '&&' in rest:
            s = Vec(ex, vals[1], et)
            d, n = s.data(), s.count()
            ex.store(v.p, d, 8)
            v.setn(n)
            s.init()
            return vals[0]
        s = Vec(ex, vals[1], et)
        n = s.count()
        sp = s.data()
        # new storage: the old content becomes unreachable
        dp = v.init(n)
        range_copy(ex, dp, sp, mul(n, I(v.es)))
        return vals[0]
    if meth in ('push_back', 'emplace_back'):
        if len(vals) != 2:
            raise Unsupported(dem)
        n = v.count()
        v.copy_elem(v.elem(n), vals[1])
        v.setn(add(n, I1))
        return v.elem(n) if ins.ty == 'ptr' else None
    if meth == 'pop_back':
        n = v.count()
        ex.oblige(gt(n, I0), 'pop_back on a non-empty vector', 'safety')
        v.setn(sub_(n, I1))
        return None
    if meth in ('size',):
        return v.count()
    if meth == 'capacity':
        c = ex.fresh('cap', 'I')
        return c
    if meth == 'empty':
        return eq(v.count(), I0)
    if meth in ('reserve', 'shrink_to_fit'):
        return None
    if meth == 'clear':
        v.setn(I0)
        return None
    if meth == 'resize':
        n0 = v.count()
        n = vals[1]
        ex.oblige(ge(n, I0), 'vector size is not negative', 'safety')
        g = ex.guard
        ex.guard = and_(g, gt(n, n0))
        if ex.guard is not FALSE:
            dp = v.data()
            if len(vals) > 2:
                fill_n(ex, v, n0, sub_(n, n0), vals[2])
            else:
                ex.fill(dp.a[0], dp.a[1], add(dp.a[2], mul(n0, I(v.es))), mul(sub_(n, n0), I(v.es)), 'zero')
                if et == 'vector':
                    empty_rows(ex, v, n0, sub_(n, n0))
        ex.guard = g
        v.setn(n)
        return None
    if meth in ('operator[]', 'at'):
        i = vals[1]
        n = v.count()
        ex.oblige(and_(ge(i, I0), lt(i, n)), 'vector index inside of [0,size)', 'safety')
        return v.elem(i)
    if meth == 'front':
        ex.oblige(gt(v.count(), I0), 'front() of a non-empty vector', 'safety')
        return v.elem(I0)
    if meth == 'back':
        n = v.count()
        ex.oblige(gt(n, I0), 'back() of a non-empty vector', 'safety')
        return v.elem(sub_(n, I1))
    if meth == 'erase' and len(vals) == 2 and et != 'vector':
        n = v.count()
        d, p = ex.simp(v.data()), ex.simp(vals[1])
        if d.op != 'ptr' or p.op != 'ptr' or d.a[0] is not p.a[0]:
            raise Unsupported(dem)
        rel = sub_(p.a[2], d.a[2])
        ex.oblige(and_(ge(rel, I0), le(add(rel, I(v.es)), mul(n, I(v.es)))), 'erase of an existing element', 'safety')
        range_copy(ex, p, ex.padd(p, I(v.es)), sub_(mul(sub_(n, I1), I(v.es)), rel))
        v.setn(sub_(n, I1))
        return p
    if meth in ('begin', 'cbegin', 'data'):
        return v.data()
    if meth in ('end', 'cend'):
        return v.elem(v.count())
    if meth == 'assign' and re.match(r'\(unsigned long, ', rest):
        v.init(vals[1])
        fill_n(ex, v, I0, vals[1], vals[2])
        return None
    raise Unsupported(dem)


def fill_n(ex, v, i0, n, src):
    """n copies of *src starting with element i0: a map over the element index"""
    dp = v.data()
    r, idx, off = dp.a
    kb = var('fill@%d' % ex.seq, 'I', special=True)
    ex.seq += 1
    for o, t in ex.mod.leaves(v.et):
        s = ex.sort_of(t)
        sz = ex.mod.size(t)
        x = ex.load(ex.padd(src, I(o)), s, sz)
        base = add(off, add(mul(i0, I(v.es)), I(o)))
        if n.op == 'const' and 0 <= n.a[0] <= 8:
            for j in range(n.a[0]):
                ex.write(r, idx, add(base, I(j * v.es)), x, sz)
            continue
        ex.mem[r] = U('w', ((kb, n),), ex.guard, idx, add(base, mul(kb, I(v.es))), x, sz, ex.mem.get(r))


def empty_rows(ex, v, i0, n):
    """elements [i0,i0+n) of a vector of vectors become empty vectors, each with storage of its own"""
    dp = v.data()
    r, idx, off = dp.a
    kb = var('row@%d' % ex.seq, 'I', special=True)
    ex.seq += 1
    ex.active.append(kb)
    r2, i2 = ex.new_region('vec', 'vec')
    r2.base = tuple(ex.active)
    ex.active.pop()
    ex.mem[r] = U('w', ((kb, n),), ex.guard, idx, add(off, mul(add(i0, kb), I(v.es))), ptr(r2, i2, I0), 8, ex.mem.get(r))


def _std_copy(ex, name, dem, vals, ins, throws):
    a, b, d = vals[:3]
    a, b, d = ex.simp(a), ex.simp(b), ex.simp(d)
    if not (a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0]):
        raise Unsupported('std::copy over unknown range')
    n = sub_(b.a[2], a.a[2])
    range_copy(ex, d, a, n)
    return ex.padd(d, n)


@regex(r'^.* std::copy<')
def _copy(ex, name, dem, vals, ins, throws):
    return _std_copy(ex, name, dem, vals, ins, throws)


@regex(r'^std::operator[|&]|^std::(endl|flush)')
def _flags(ex, name, dem, vals, ins, throws):
    return noop(ex, name, dem, vals, ins, throws)


@exact('printf', 'fprintf', 'sprintf', 'snprintf', 'puts', 'putchar', 'fflush', 'fopen', 'fclose', 'fputs', 'strlen', 'strcpy',
       'omp_get_thread_num', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_wtime', 'current_time', 'fwrite', 'time', 'gettimeofday')
def _io(ex, name, dem, vals, ins, throws):
    return noop(ex, name, dem, vals, ins, throws)


@exact('strncpy')
def _strncpy(ex, name, dem, vals, ins, throws):
    # only copies which are complete are modelled
    a = literal(ex, vals[1])
    if a is None or vals[2].op != 'const' or len(a) >= vals[2].a[0]:
        ex.oblige(FALSE, 'the copied string is complete', 'safety')
    return vals[0]


@regex(r'^std::__cxx11::basic_string<.*>::(~?basic_string|operator|append|assign|insert|erase|push_back|clear|replace|resize|swap|pop_back|substr)')
def _string(ex, name, dem, vals, ins, throws):
    """strings are not modelled, except that a local one made from a literal is known until it may change"""
    p = ex.simp(vals[0])
    if p.op == 'ptr' and p.a[0].kind == 'stack' and '::operator[]' not in dem and '::~' not in dem:
        new = None
        if '>::basic_string' in dem and len(vals) > 1 and vals[1].sort == 'P' and literal(ex, vals[1]) is not None:
            new = ex.simp(vals[1])
            if new.op == 'ptr' and new.a[0].kind == 'stack':
                node = ex.mem.get(new.a[0])
                hit = node.d.get(new.a[2])
                new = hit[0] if hit is not None and hit[1] == 8 and hit[0].op == 'ptr' else None
        if new is not None:
            ex.store(p, new, 8)
        elif literal(ex, p) is not None:
            ex.store(p, ex.fresh('string', 'P'), 8)
    return noop(ex, name, dem, vals, ins, throws)


@exact('strcmp')
def _strcmp(ex, name, dem, vals, ins, throws):
    a, b = literal(ex, vals[0]), literal(ex, vals[1])
    if a is None or b is None:
        return noop(ex, name, dem, vals, ins, throws)
    return I((a > b) - (a < b))


@exact('current_time()')
def _ct(ex, name, dem, vals, ins, throws):
    return ex.fresh('time', 'R')


# ------------------------------------------------------------------ specification functions
def nd_var(ex, name, sort):
    v = var('in:' + name, sort)
    ex.inputs[name] = v
    return v


@exact('nd_r')
def _ndr(ex, name, dem, vals, ins, throws):
    return nd_var(ex, cstring(ex, vals[0]), 'R')


@exact('nd_r1', 'nd_r2', 'nd_r3')
def _ndr1(ex, name, dem, vals, ins, throws):
    n = cstring(ex, vals[0])
    ex.inputs[n] = len(vals) - 1
    return uf('in:' + n, tuple(vals[1:]), 'R')


@exact('nd_f5', 'nd_f1', 'nd_f4', 'nd_f2', 'nd_f3', 'nd_f6', 'nd_f7', 'nd_f8')
def _ndf(ex, name, dem, vals, ins, throws):
    n = cstring(ex, vals[0])
    ex.inputs[n] = 'f'
    return uf('in:' + n, tuple(vals[1:]), 'R')


@exact('nd_i', 'nd_n')
def _ndi(ex, name, dem, vals, ins, throws):
    n = cstring(ex, vals[0])
    v = nd_var(ex, n, 'I')
    ex.facts.append(implies(ex.guard, and_(ge(v, vals[1]), le(v, vals[2]))))
    return v


@exact('nd_i1', 'nd_n1')
def _ndi1(ex, name, dem, vals, ins, throws):
    n = cstring(ex, vals[0])
    v = uf('in:' + n, (vals[1],), 'I')
    ex.inputs[n] = 1
    if vals[2].op == 'const' and vals[3].op == 'const':
        # nd_i1 delivers values in this range whatever the index
        tm.BOUNDS['in:' + n] = (vals[2].a[0], vals[3].a[0])
    ex.facts.append(implies(ex.guard, and_(ge(v, vals[2]), le(v, vals[3]))))
    return v


# ------------------------------------------------------------------ random numbers: any value of the range

@regex(r'^std::random_device::~?random_device|^std::mersenne_twister_engine<.*>::mersenne_twister_engine|^std::normal_distribution<double>::normal_distribution')
def _rngctor(ex, name, dem, vals, ins, throws):
    return None


@regex(r'^std::random_device::operator\(\)')
def _rdev(ex, name, dem, vals, ins, throws):
    v = ex.fresh('random', 'I')
    ex.facts.append(implies(ex.guard, and_(ge(v, I0), lt(v, I(1 << 32)))))
    return v


@regex(r'^double std::uniform_real_distribution<double>::operator\(\)')
def _uniform(ex, name, dem, vals, ins, throws):
    a = ex.load(vals[0], 'R', 8)
    b = ex.load(ex.padd(vals[0], I(8)), 'R', 8)
    v = ex.fresh('random', 'R')
    ex.facts.append(implies(ex.guard, and_(ge(v, a), lt(v, b))))
    return v


@regex(r'^double std::normal_distribution<double>::operator\(\)')
def _normal(ex, name, dem, vals, ins, throws):
    return ex.fresh('random', 'R')


@exact('nd_b')
def _ndb(ex, name, dem, vals, ins, throws):
    return nd_var(ex, cstring(ex, vals[0]), 'B')


@exact('nd_b1')
def _ndb1(ex, name, dem, vals, ins, throws):
    n = cstring(ex, vals[0])
    ex.inputs[n] = 1
    return uf('in:' + n, tuple(vals[1:]), 'B')


@exact('vc_requires')
def _req(ex, name, dem, vals, ins, throws):
    c = vals[0]
    if c.sort == 'I':
        c = ne(c, I0)
    g = and_(ex.guard, c)
    for x in symex.lits(implies(ex.guard, c)):
        if x is not TRUE:
            ex.facts.append(x)
            if x.op == 'lt' and ex.guard is TRUE and not ex.active and x.a[0].op == 'lin' and x.a[0].sort == 'R':
                c0, items = x.a[0].a
                if c0 >= 0 and len(items) == 1 and items[0][0] < 0 and items[0][1].op == 'var':
                    tm.POS.add(items[0][1])
    ex.nreq += 1


def tob(c):
    return ne(c, I0) if c.sort == 'I' else c


@exact('vc_ensures')
def _ens(ex, name, dem, vals, ins, throws):
    ex.oblige(tob(vals[0]), cstring(ex, vals[1]), 'ensures')


@exact('vc_ensures_eq', 'vc_ensures_eqi')
def _enseq(ex, name, dem, vals, ins, throws):
    ex.oblige(eq(vals[0], vals[1]), cstring(ex, vals[2]), 'ensures', vals[0], vals[1])


@exact('vc_ensures_eqs')
def _enseqs(ex, name, dem, vals, ins, throws):
    ex.oblige(eq(vals[0], vals[1]), cstring(ex, vals[3]), 'ensures', vals[0], vals[1])


@exact('vc_increasing')
def _incr(ex, name, dem, vals, ins, throws):
    nm = cstring(ex, vals[0])
    a, b = tm.fresh('qa', 'I', special=True), tm.fresh('qb', 'I', special=True)
    n = vals[1]
    body = implies(lt(a, b), lt(uf('in:' + nm, (a,), 'R'), uf('in:' + nm, (b,), 'R')))
    ex.qfacts.append(smt.QFact([(a, n), (b, n)], implies(ex.guard, body)))


@exact('vc_assert')
def _assert(ex, name, dem, vals, ins, throws):
    c = tob(vals[0])
    ex.oblige(c, cstring(ex, vals[1]), 'assert')
    for x in symex.lits(implies(ex.guard, c)):
        if x is not TRUE:
            ex.facts.append(x)


@exact('vc_assert_eqs')
def _asserteq(ex, name, dem, vals, ins, throws):
    c = eq(vals[0], vals[1])
    ex.oblige(c, cstring(ex, vals[3]), 'assert', vals[0], vals[1])
    ex.facts.append(implies(ex.guard, c))


def known_quotient(ex, a, b):
    """a/b for a = k*v*b with a registered value v (vc_value) and a constant k"""
    import prove
    if tm._maxbv(a) or tm._maxbv(b):
        return None
    lim = list(prove.LIMIT)
    try:
        prove.LIMIT[0], prove.LIMIT[1] = time.process_time() + 5, 3000
        P = prove.nf(a)
        if not P:
            return R0
        for v in [tm.R(1)] + ex.values:
            try:
                Q = prove.nf(mul(v, b))
                for m, (x, g) in Q.items():
                    if m in P:
                        k = P[m][0] / x
                        if prove.is_zero(sub(a, scale(k, mul(v, b)))):
                            return scale(k, v)
                        break
            except prove.Blowup:
                pass
    except prove.Blowup:
        pass
    finally:
        prove.LIMIT[0], prove.LIMIT[1] = lim
    return None


@exact('vc_value')
def _value(ex, name, dem, vals, ins, throws):
    # quotients which equal a multiple of this value are recognised
    if not tm._maxbv(vals[0]):
        ex.values.append(vals[0])


@exact('vc_index')
def _index(ex, name, dem, vals, ins, throws):
    # loop indices found to have this value (or the next one) at loop exit are replaced by it
    if not tm._maxbv(vals[0]):
        ex.pins += [vals[0], add(vals[0], tm.I1)]


@exact('vc_root')
def _root(ex, name, dem, vals, ins, throws):
    # a proved non-negative value: square roots of multiples of its square are recognised
    ex.oblige(tm.le(R0, vals[0]), cstring(ex, vals[1]), 'assert')
    ex.facts.append(implies(ex.guard, tm.le(R0, vals[0])))
    if ex.guard is TRUE and not ex.active:
        ex.roots.append((mul(vals[0], vals[0]), vals[0]))


@exact('vc_ghost')
def _ghost(ex, name, dem, vals, ins, throws):
    # a named intermediate value: its definition is only unfolded when needed
    v = vals[0]
    if v.op in ('const', 'var'):
        return v
    nm = 'ghost%d' % len(ex.ghosts)
    g = uf(nm, tuple(ex.active), 'R') if ex.active else var(nm, 'R')
    ex.ghosts.append((g, v))
    return g


def derivative(t, x):
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            r = memo[u] = d(u)
        return r

    def d(u):
        if u is x:
            return R1
        if x not in tm.subterms(u):
            return R0
        if u.op == 'lin':
            return addn(*[mul(R(k), go(v)) for k, v in u.a[1]])
        if u.op == 'mul':
            out = []
            for i, (v, p) in enumerate(u.a):
                dv = go(v)
                if dv is R0:
                    continue
                fs = [mul(R(p), powi(v, p - 1)), dv] + [powi(w, q) for j, (w, q) in enumerate(u.a) if j != i]
                f = fs[0]
                for g in fs[1:]:
                    f = mul(f, g)
                out.append(f)
            return addn(*out)
        if u.op == 'ite':
            return ite(u.a[0], go(u.a[1]), go(u.a[2]))
        if u.op == 'uf' and len(u.a) == 2:
            v = u.a[1]
            dv = go(v)
            n = u.a[0]
            f = {'sin': lambda: uf('cos', (v,), 'R'), 'cos': lambda: neg(uf('sin', (v,), 'R')), 'exp': lambda: u,
                 'sinh': lambda: uf('cosh', (v,), 'R'), 'cosh': lambda: uf('sinh', (v,), 'R'),
                 'sqrt': lambda: mul(R(Fraction(1, 2)), powi(u, -1)), 'log': lambda: powi(v, -1),
                 'atan': lambda: powi(add(R1, mul(v, v)), -1)}.get(n)
            if f:
                return mul(f(), dv)
        raise Unsupported('derivative of ' + u.op)
    return go(t)


def addn(*xs):
    r = R0
    for x in xs:
        r = add(r, x)
    return r


@exact('vc_deriv')
def _deriv(ex, name, dem, vals, ins, throws):
    x = vals[1]
    if x.op not in ('var', 'uf'):
        raise Unsupported('derivative with respect to an expression')
    return derivative(vals[0], x)


@exact('vc_math_atan')
def _matan(ex, name, dem, vals, ins, throws):
    x, y = vals
    ax, ay = uf('atan', (x,), 'R'), uf('atan', (y,), 'R')
    h = R(Fraction('1.5707963267948966'))
    ex.facts.append(implies(le(x, y), le(ax, ay)))
    ex.facts.append(implies(le(y, x), le(ay, ax)))
    # atan(x) <= -pi/2 - 1/x for x < 0
    ex.facts.append(implies(lt(x, R0), le(ax, add(neg(h), neg(powi(x, -1))))))
    return None


@exact('vc_cover')
def _cover(ex, name, dem, vals, ins, throws):
    ex.covers.append((cstring(ex, vals[0]), list(ex.facts) + list(symex.lits(ex.guard))))


@exact('vc_engine')
def _eng(ex, name, dem, vals, ins, throws):
    return TRUE if ins.ty == ('i', 1) else I1


@exact('vc_replace')
def _repl(ex, name, dem, vals, ins, throws):
    ex.replaced[cstring(ex, vals[0])] = cstring(ex, vals[1])


@exact('vc_assume')
def _as(ex, name, dem, vals, ins, throws):
    ex.facts.append(implies(ex.guard, tob(vals[0])))
    ex.notes.add('ASSUMED: ' + cstring(ex, vals[1]))


@exact('vc_div')
def _vdiv(ex, name, dem, vals, ins, throws):
    return div(vals[0], vals[1])


# ------------------------------------------------------------------ opaque
def opaque_call(ex, name, dem, vals, ins, throws):
    raise Unsupported('opaque ' + dem)


OK_EXTERNAL = re.compile(r'^(H5|SDDS|pugi|std::)')


def external(ex, name, dem, vals, ins, throws):
    if OK_EXTERNAL.match(dem) or re.match(r'^[\w<>:, ]* std::', dem):
        ex.notes.add('external call without effect on the verified state: ' + dem.split('(')[0][:60])
        return noop(ex, name, dem, vals, ins, throws)
    raise Unsupported('call of external function ' + dem)
