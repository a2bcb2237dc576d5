"""Reader for the textual LLVM IR that clang extracts from the sources on each run."""
import re
import subprocess

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<num>-?(?:0x[KLMH]?[0-9A-Fa-f]+|\d+\.\d*(?:[eE][-+]?\d+)?|\d+))
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    for m in TOK.finditer(s):
        k = m.lastgroup
        out.append((k, m.group()))
    return out


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'ops', 'x', 'text')

    def __init__(self, op, dst=None, ty=None, ops=(), x=None, text=''):
        self.op, self.dst, self.ty, self.ops, self.x, self.text = op, dst, ty, ops, x, text


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, name, attrs dict)
        self.ret = None
        self.blocks = None
        self.raw = None
        self.loops = None


PARAM_ATTR = {'noundef', 'nonnull', 'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'signext',
              'zeroext', 'inreg', 'returned', 'nocapture', 'readonly', 'writeonly', 'readnone', 'dead_on_unwind',
              'writable', 'noalias', 'immarg', 'nofree', 'allocptr', 'allocalign', 'nest', 'swiftself', 'captures',
              'range', 'initializes', 'nofpclass', 'inalloca', 'preallocated', 'elementtype', 'byref', 'swifterror'}
CC_WORDS = {'fastcc', 'coldcc', 'tail', 'musttail', 'notail', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
            'fast'}


class P:
    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        x = self.next()
        if x[1] != v:
            raise Exception('expected %s got %s in %s' % (v, x[1], ' '.join(y[1] for y in self.t)))

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.match(r'i\d+$', v):
                t = ('i', int(v[1:]))
            elif v in ('double', 'float', 'ptr', 'void', 'x86_fp80', 'half', 'label', 'metadata', 'token', 'opaque'):
                t = v
            else:
                raise Exception('type word ' + v + ' in ' + ' '.join(y[1] for y in self.t[:40]))
        elif k == 'name':
            t = ('s', v[1:].strip('"'))
        elif v == '{':
            l = []
            while not self.acc('}'):
                l.append(self.type())
                self.acc(',')
            t = ('l', tuple(l))
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                l = []
                while not self.acc('}'):
                    l.append(self.type())
                    self.acc(',')
                self.exp('>')
                t = ('lp', tuple(l))
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('v', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('a', n, e)
        else:
            raise Exception('type ' + str(v) + ' in ' + ' '.join(y[1] for y in self.t[:40]))
        # function types  (args)
        while self.peek()[1] == '(' and self._looks_fn():
            self.next()
            while not self.acc(')'):
                if self.acc('...'):
                    continue
                self.type()
                self.attrs()
                self.acc(',')
            t = ('f', t)
        while self.acc('*'):
            t = 'ptr'
        return t

    def _looks_fn(self):
        # only after 'call <ty> (<types>)' form
        j = self.i + 1
        x = self.t[j]
        return x[1] in (')', '...', 'ptr', 'double', 'float', 'i32', 'i64', 'i8', 'i1', 'i16')

    def attrs(self):
        a = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTR:
                self.next()
                if v == 'align':
                    if self.acc('('):
                        self.next()
                        self.exp(')')
                    else:
                        self.next()
                    a[v] = 1
                elif self.peek()[1] == '(':
                    self.next()
                    if v in ('sret', 'byval', 'elementtype', 'byref', 'inalloca', 'preallocated'):
                        a[v] = self.type()
                    else:
                        a[v] = 1
                        dep = 1
                        while dep:
                            x = self.next()[1]
                            dep += (x == '(') - (x == ')')
                        continue
                    self.exp(')')
                else:
                    a[v] = 1
            elif k == 'str':
                self.next()
                if self.acc('='):
                    self.next()
            else:
                return a

    # values: ('reg',name) ('c',value) ('g',name) ('undef',) ('null',) ('zero',) ('ce',...)
    def value(self, ty):
        k, v = self.next()
        if k == 'name':
            n = v[1:].strip('"') if v[1] == '"' else v[1:]
            if v[0] == '%':
                return ('reg', n)
            return ('g', n)
        if k == 'num':
            if ty in ('double', 'float', 'x86_fp80'):
                return ('f', parse_fp(v))
            return ('c', int(v, 0))
        if k == 'word':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('undef',)
            if v == 'getelementptr':
                self.acc('inbounds')
                self.acc('nuw')
                if self.acc('inrange'):
                    self._skip_paren()
                self.exp('(')
                if self.acc('inrange'):
                    self._skip_paren()
                bt = self.type()
                self.exp(',')
                args = []
                while True:
                    self.acc('inrange')
                    t = self.type()
                    args.append((t, self.value(t)))
                    if not self.acc(','):
                        break
                self.exp(')')
                return ('gep', bt, args)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast', 'zext', 'sext'):
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp('to')
                t2 = self.type()
                self.exp(')')
                return ('cast', v, t, x, t2)
            if v in ('add', 'sub', 'mul'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                t = self.type()
                x = self.value(t)
                self.exp(',')
                t2 = self.type()
                y = self.value(t2)
                self.exp(')')
                return ('cbin', v, t, x, y)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
        if k == 'str' and v.startswith('c"'):
            return ('bytes', cstr(v[2:-1]))
        if v in ('{', '<', '['):
            close = {'{': '}', '<': '>', '[': ']'}[v]
            packed = False
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            l = []
            while not self.acc(close):
                t = self.type()
                l.append((t, self.value(t)))
                self.acc(',')
            if packed:
                self.exp('>')
            return ('agg', l)
        raise Exception('value %s %s in %s' % (k, v, ' '.join(y[1] for y in self.t)[:300]))

    def _skip_paren(self):
        if self.acc('('):
            dep = 1
            while dep:
                x = self.next()[1]
                dep += (x == '(') - (x == ')')

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def parse_fp(v):
    import struct
    neg = v.startswith('-')
    if neg:
        v = v[1:]
    if v.startswith('0x'):
        h = v[2:]
        if h[0] in 'KLMH':
            raise Exception('fp80 constant')
        x = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    else:
        x = float(v)
    return -x if neg else x


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self._rawtypes = {}
        self.globals = {}
        self._rawglobals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self._split(text)
        self._layout = {}
        names = list(self.funcs) + list(self.decls)
        r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        dem = r.stdout.split('\n')
        self.dem = dict(zip(names, dem))

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                nm = m.group(1).strip('"')
                f = Func(nm)
                f.raw = (l, lines[i + 1:j])
                self.funcs[nm] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                nm, d = l.split(' = type ', 1)
                self._rawtypes[nm[1:].strip('"')] = d
            elif l.startswith('@'):
                nm, d = l.split(' = ', 1)
                nm = nm[1:].strip('"')
                if ' alias ' in ' ' + d:
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*$', d)
                    if m:
                        self.aliases[nm] = m.group(1).strip('"')
                else:
                    self._rawglobals[nm] = d
            i += 1

    # ---- types
    def struct(self, name):
        r = self.types.get(name)
        if r is None:
            d = self._rawtypes[name]
            if d.strip() == 'opaque':
                r = ('opaque',)
            else:
                r = P(self, tokenize(d)).type()
            self.types[name] = r
        return r

    def size_align(self, t):
        r = self._layout.get(t)
        if r is None:
            r = self._sa(t)
            self._layout[t] = r
        return r

    def _sa(self, t):
        if t == 'ptr':
            return 8, 8
        if t == 'double':
            return 8, 8
        if t == 'float':
            return 4, 4
        if t == 'x86_fp80':
            return 16, 16
        if isinstance(t, str):
            return 0, 1
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16)
        if k == 'a':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'v':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 's':
            st = self.struct(t[1])
            if st == ('opaque',):
                return 0, 1
            return self.size_align(st)
        if k in ('l', 'lp'):
            o, al = 0, 1
            for e in t[1]:
                s, a = self.size_align(e)
                if k == 'lp':
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            return (o + al - 1) // al * al, al
        raise Exception('size ' + str(t))

    def size(self, t):
        return self.size_align(t)[0]

    def fields(self, t):
        """list of (offset, type)"""
        if t[0] == 's':
            t = self.struct(t[1])
        out = []
        o = 0
        for e in t[1]:
            s, a = self.size_align(e)
            if t[0] == 'lp':
                a = 1
            o = (o + a - 1) // a * a
            out.append((o, e))
            o += s
        return out

    def leaves(self, t, base=0):
        """scalar leaves (offset, type) of a type"""
        if isinstance(t, str) or t[0] == 'i':
            return [(base, t)]
        if t[0] == 'a':
            s = self.size(t[2])
            out = []
            for i in range(t[1]):
                out += self.leaves(t[2], base + i * s)
            return out
        out = []
        for o, e in self.fields(t):
            out += self.leaves(e, base + o)
        return out

    # ---- globals
    def glob(self, name):
        g = self.globals.get(name)
        if g is None:
            d = self._rawglobals.get(name)
            if d is None:
                return None
            toks = tokenize(d)
            # skip linkage words up to global/constant
            i = 0
            ext = False
            const = False
            dep = 0
            while True:
                if toks[i][1] == '(':
                    dep += 1
                if toks[i][1] == ')':
                    dep -= 1
                if dep == 0 and toks[i][1] in ('global', 'constant'):
                    const = toks[i][1] == 'constant'
                    break
                if toks[i][1] == 'external' or toks[i][1] == 'extern_weak':
                    ext = True
                i += 1
            p = P(self, toks)
            p.i = i + 1
            ty = p.type()
            val = None
            if not ext:
                val = p.value(ty)
            g = (ty, val, const)
            self.globals[name] = g
        return g

    # ---- functions
    def func(self, name):
        f = self.funcs.get(name)
        if f is None and name in self.aliases:
            return self.func(self.aliases[name])
        if f is None:
            return None
        if f.blocks is None:
            self._parse_func(f)
        return f

    def _parse_func(self, f):
        head, body = f.raw
        toks = tokenize(head)
        p = P(self, toks)
        # find function name position
        idx = next(i for i, (k, v) in enumerate(toks) if k == 'name' and v[0] == '@')
        # return type: parse backwards is awkward; find type by scanning
        j = idx - 1
        # try each start position
        f.ret = None
        for s in range(1, idx):
            try:
                q = P(self, toks)
                q.i = s
                q.attrs()
                t = q.type()
                q.attrs()
                if q.i == idx:
                    f.ret = t
                    break
            except Exception:
                pass
        p.i = idx + 1
        p.exp('(')
        n = 0
        while not p.acc(')'):
            if p.acc('...'):
                continue
            t = p.type()
            a = p.attrs()
            k, v = p.peek()
            if k == 'name':
                p.next()
                nm = v[1:].strip('"')
            else:
                nm = str(n)
            f.params.append((t, nm, a))
            n += 1
            p.acc(',')
        # blocks
        blocks = {}
        order = []
        cur = None
        # entry block label is the next number
        first = None
        k = 0
        lines = []
        i = 0
        while i < len(body):
            l = body[i]
            # multi-line constructs: switch [...], landingpad clauses
            if re.match(r'\s+(%\S+ = )?landingpad', l):
                while i + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i + 1]):
                    l += ' ' + body[i + 1].strip()
                    i += 1
            elif re.match(r'\s+switch ', l):
                while ']' not in l:
                    i += 1
                    l += ' ' + body[i].strip()
            elif re.match(r'\s+(%\S+ = )?invoke', l):
                while ' unwind label' not in l:
                    i += 1
                    l += ' ' + body[i].strip()
            lines.append(l)
            i += 1
        for l in lines:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if not l.strip():
                continue
            if cur is None:
                # unnamed entry: number after params
                cur = str(len([1 for t, nm, a in f.params if re.match(r'\d+$', nm)]))
                blocks[cur] = []
                order.append(cur)
            blocks[cur].append(self._parse_instr(l.strip()))
        f.blocks = blocks
        f.order = order
        f.entry = order[0]

    def _parse_instr(self, l):
        toks = tokenize(l)
        # cut trailing metadata
        for i, (k, v) in enumerate(toks):
            if k == 'meta' and i > 0 and toks[i - 1][1] == ',' and not any(t[1] == 'switch' for t in toks[:4]):
                toks = toks[:i - 1]
                break
        p = P(self, toks)
        dst = None
        if len(toks) > 2 and toks[1][1] == '=' and toks[0][0] == 'name':
            dst = toks[0][1][1:].strip('"')
            p.i = 2
        op = p.next()[1]
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        I = lambda **kw: Instr(op, dst, text=l, **kw)
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type()
            n = None
            if p.acc(','):
                if p.peek()[1] != 'align':
                    n = p.tv()
            return I(ty=t, ops=(n,))
        if op == 'load':
            p.acc('atomic')
            p.acc('volatile')
            t = p.type()
            p.exp(',')
            a = p.tv()
            return I(ty=t, ops=(a,))
        if op == 'store':
            p.acc('atomic')
            p.acc('volatile')
            v = p.tv()
            p.exp(',')
            a = p.tv()
            return I(ty=v[0], ops=(v, a))
        if op == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.exp(',')
            args = []
            while True:
                args.append(p.tv())
                if not p.acc(','):
                    break
            return I(ty=bt, ops=args)
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'ashr', 'urem', 'srem', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek()[1] in CC_WORDS:
                fl.add(p.next()[1])
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return I(ty=t, ops=(a, b), x=fl)
        if op == 'fneg':
            while p.peek()[1] in CC_WORDS:
                p.next()
            t = p.type()
            return I(ty=t, ops=(p.value(t),))
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in CC_WORDS or p.peek()[1] == 'samesign':
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.exp(',')
            b = p.value(t)
            return I(ty=t, ops=(a, b), x=pred)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast',
                  'fpext', 'fptrunc'):
            while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
                p.next()
            a = p.tv()
            p.exp('to')
            t = p.type()
            return I(ty=t, ops=(a,))
        if op == 'phi':
            while p.peek()[1] in CC_WORDS:
                p.next()
            t = p.type()
            inc = []
            while p.acc('['):
                v = p.value(t)
                p.exp(',')
                b = p.next()[1][1:].strip('"')
                p.exp(']')
                inc.append((v, b))
                p.acc(',')
            return I(ty=t, ops=inc)
        if op == 'select':
            while p.peek()[1] in CC_WORDS:
                p.next()
            c = p.tv()
            p.exp(',')
            a = p.tv()
            p.exp(',')
            b = p.tv()
            return I(ty=a[0], ops=(c, a, b))
        if op == 'br':
            if p.acc('label'):
                return I(ops=(p.next()[1][1:].strip('"'),))
            c = p.tv()
            p.exp(',')
            p.exp('label')
            a = p.next()[1][1:].strip('"')
            p.exp(',')
            p.exp('label')
            b = p.next()[1][1:].strip('"')
            return I(ops=(c, a, b))
        if op == 'switch':
            c = p.tv()
            p.exp(',')
            p.exp('label')
            d = p.next()[1][1:].strip('"')
            p.exp('[')
            cases = []
            while not p.acc(']'):
                t = p.type()
                v = p.value(t)
                p.exp(',')
                p.exp('label')
                cases.append((v, p.next()[1][1:].strip('"')))
            return I(ops=(c, d, cases))
        if op == 'ret':
            if p.acc('void'):
                return I(ops=())
            return I(ops=(p.tv(),))
        if op in ('call', 'invoke'):
            while p.peek()[1] in CC_WORDS:
                p.next()
            p.attrs()
            t = p.type()
            p.attrs()
            k, v = p.next()
            if k == 'name':
                callee = ('g', v[1:].strip('"')) if v[0] == '@' else ('reg', v[1:].strip('"'))
            else:
                p.i -= 1
                callee = p.value('ptr')
            p.exp('(')
            args = []
            while not p.acc(')'):
                ty = p.type()
                if ty == 'metadata':
                    dep = 0
                    while not (dep == 0 and p.peek()[1] in (',', ')')):
                        x = p.next()[1]
                        dep += (x == '(') - (x == ')')
                    p.acc(',')
                    continue
                a = p.attrs()
                args.append((ty, p.value(ty), a))
                p.acc(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.next()
                p.exp('label')
                norm = p.next()[1][1:].strip('"')
                p.exp('unwind')
                p.exp('label')
                unw = p.next()[1][1:].strip('"')
            if isinstance(t, tuple) and t[0] == 'f':
                t = t[1]
            return I(ty=t, ops=(callee, args), x=(norm, unw))
        if op == 'landingpad':
            return I(x='cleanup' if 'cleanup' in l else 'catch')
        if op in ('unreachable', 'fence'):
            return I()
        if op == 'resume':
            return I(ops=())
        if op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(ty=a[0], ops=(a,), x=idx)
        if op == 'insertvalue':
            a = p.tv()
            p.exp(',')
            b = p.tv()
            idx = []
            while p.acc(','):
                idx.append(int(p.next()[1]))
            return I(ty=a[0], ops=(a, b), x=idx)
        if op == 'freeze':
            a = p.tv()
            return I(ty=a[0], ops=(a,))
        if op in ('atomicrmw', 'cmpxchg', 'extractelement', 'insertelement', 'shufflevector', 'va_arg'):
            return I(x=toks)
        raise Exception('instr ' + l)


def load(path):
    return Module(open(path).read())
