"""Symbolic execution of extracted LLVM IR with inferred loop summaries.

Straight-line and branching code is executed with state merging (every store is
guarded by its path condition).  Loops are summarised for an arbitrary number of
iterations: an induction-verified closed form is inferred for every loop-carried
value (affine, sum, last value, ...) and for every array written (a map over the
iteration number); what cannot be expressed is replaced by an unconstrained value.
"""
import re
import sys
from terms import *
import terms as tm
import smt

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Region:
    __slots__ = ('rid', 'name', 'kind', 'arity', 'size', 'alloc', 'ety', 'base', 'depth')

    def __init__(self, rid, name, kind, arity=0, size=None, alloc=None):
        self.rid, self.name, self.kind, self.arity, self.size, self.alloc = rid, name, kind, arity, size, alloc
        self.ety = None
        self.base = None
        self.depth = 0

    def __repr__(self):
        return self.name


class D:
    __slots__ = ('d', 'epoch', 'parent', 'idx')

    def __init__(self, d, epoch, parent, idx):
        self.d, self.epoch, self.parent, self.idx = d, epoch, parent, idx


class U:
    __slots__ = ('kind', 'binders', 'guard', 'idx', 'off', 'val', 'size', 'parent', 'len', 'src')

    def __init__(self, kind, binders, guard, idx, off, val, size, parent, len=None, src=None):
        self.kind, self.binders, self.guard, self.idx, self.off, self.val = kind, binders, guard, idx, off, val
        self.size, self.parent, self.len, self.src = size, parent, len, src

    def key(self):
        return (self.kind, tuple(self.binders), self.guard, self.idx, self.off, self.val, self.size, self.len,
                self.src and (self.src[0], self.src[1], self.src[2]))


class Obl:
    __slots__ = ('label', 'kind', 'facts', 'qfacts', 'goal', 'binders', 'lhs', 'rhs', 'where', 'defs')

    def __init__(self, label, kind, facts, qfacts, goal, lhs=None, rhs=None, where=''):
        self.label, self.kind, self.facts, self.qfacts, self.goal, self.lhs, self.rhs, self.where = \
            label, kind, facts, qfacts, goal, lhs, rhs, where
        self.defs = ()


class Act:
    __slots__ = ('fn', 'env', 'returns', 'throws', 'stack')

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.returns = []
        self.throws = []


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = set()
        self.latches = []
        self.inner = []
        self.parent = None


def succs(blk):
    t = blk[-1]
    if t.op == 'br':
        return [t.ops[0]] if len(t.ops) == 1 else [t.ops[1], t.ops[2]]
    if t.op == 'switch':
        return [t.ops[1]] + [b for _, b in t.ops[2]]
    if t.op == 'invoke':
        return [t.x[0], t.x[1]]
    return []


def analyse_loops(f):
    if f.loops is not None:
        return
    blocks = f.blocks
    # rpo
    seen, post = set(), []
    st = [(f.entry, iter(succs(blocks[f.entry])))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(blocks[s]))))
                break
        else:
            post.append(b)
            st.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in set(succs(blocks[b])):
            preds[s].append(b)
    # dominators
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(blocks[b]):
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise Unsupported('irreducible loop')
                L = loops.setdefault(s, Loop(s))
                if b not in L.latches:
                    L.latches.append(b)
                # natural loop
                L.blocks.add(s)
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in L.blocks:
                        continue
                    L.blocks.add(x)
                    stk.extend(preds[x])
    # nesting
    ls = sorted(loops.values(), key=lambda l: len(l.blocks))
    for i, l in enumerate(ls):
        for m in ls[i + 1:]:
            if l.header in m.blocks and m is not l:
                l.parent = m
                break
    f.loops = loops
    f.rpo = rpo
    f.blk_loop = {}
    for l in reversed(ls):
        for b in l.blocks:
            f.blk_loop[b] = l


def lits(g):
    if g is TRUE:
        return ()
    if g.op == 'and':
        return g.a
    return (g,)


class Exec:
    def __init__(self, mod):
        self.mod = mod
        self.mem = {}
        self.facts = []          # assumed terms
        self.qfacts = []
        self.guard = TRUE
        self.obls = []
        self.active = []         # binder values for family indices
        self.epoch = 0
        self.loop_ctx = None
        self.snaps, self.snapname = {}, {}
        self.seq = 0
        self.regs = {}
        self.globreg = {}
        self.funreg = {}
        self.opaque = []         # (regex, mode)
        self.depth = 0
        self.trace = 0
        self.called = {}
        self.safety = True
        self.covers = []
        self.inputs = {}
        self.notes = set()
        self.nloops = 0
        self.loopinfo = {}
        self.callstack = []
        self.steps = 0
        self.max_steps = 3000000
        self.written_stack = []
        self.decide_cache = {}
        self.vty = {}
        self.ub = []
        self.replaced = {}
        self.type_ids = {}
        self.nreq = 0
        self.ghosts = []
        self.roots = []
        self.pins = []
        self.values = []
        self.resets = {}

    # ------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.seq += 1
        n = '%s!%d' % (name, self.seq)
        if self.active:
            return uf(n, tuple(self.active), sort)
        return var(n, sort)

    def new_region(self, name, kind, size=None, alloc=None, family=True):
        self.seq += 1
        ar = len(self.active) if family else 0
        key = (self.seq, name, kind, ar)
        r = self.regs.get(key)
        if r is None:
            r = Region(len(self.regs) + 1, '%s!%d' % (name, self.seq), kind, ar, size, alloc)
            self.regs[key] = r
        r.size = size
        r.depth = len(self.active)
        return r, (tuple(self.active) if family else ())

    def ctx_facts(self):
        return self.facts + list(lits(self.guard))

    def factset(self):
        s = set()
        for f in self.facts:
            s.update(lits(f))
        s.update(lits(self.guard))
        return s

    def entails(self, goal, timeout=700):
        if goal is TRUE:
            return True
        if goal is FALSE:
            return False
        fs = self.factset()
        if goal in fs:
            return True
        if not_(goal) in fs:
            return False
        if goal.op == 'and':
            return all(self.entails(x) for x in goal.a)
        if not any(self._shares(f, goal) for f in fs) and goal.op != 'or' and not self.qfacts and not contains_op(goal, ('uf','ite','idiv','imod','trunc','floor')):
            return False
        r, _ = smt.check(list(fs), self.qfacts, goal, timeout=timeout, nonlin=False)
        return r == 'valid'

    def _shares(self, f, g):
        return bool(smt.symbols(f) & smt.symbols(g))

    def decide(self, c):
        if c.op == 'const':
            return c
        if c.op == 'and':
            out = []
            for x in c.a:
                y = self.decide(x)
                if y is FALSE:
                    return FALSE
                out.append(y)
            r = and_(*out)
            return r
        if self.entails(c):
            return TRUE
        if self.entails(not_(c)):
            return FALSE
        return c

    def deep(self, v):
        """resolve the choices in a term under the current path condition"""
        m = {}
        for u in subterms(v):
            if u.op == 'ite':
                c = self.decide(u.a[0])
                if c is TRUE or c is FALSE:
                    m[u] = u.a[1] if c is TRUE else u.a[2]
        return subst(v, m) if m else v

    def simp(self, v):
        """resolve top-level ites under the current path condition"""
        n = 0
        while isinstance(v, T) and v.op == 'ite' and n < 50:
            n += 1
            c = self.decide(v.a[0]) if v.sort == 'P' else self._dec_syn(v.a[0])
            if c is TRUE:
                v = v.a[1]
            elif c is FALSE:
                v = v.a[2]
            else:
                break
        return v

    def _dec_syn(self, c):
        fs = self.factset()
        if c in fs:
            return TRUE
        if not_(c) in fs:
            return FALSE
        if c.op == 'and' and all(x in fs for x in c.a):
            return TRUE
        if c.op == 'and' and any(not_(x) in fs for x in c.a):
            return FALSE
        if c.op == 'or' and any(x in fs for x in c.a):
            return TRUE
        if c.op == 'or' and all(not_(x) in fs for x in c.a):
            return FALSE
        return c

    def oblige(self, goal, label, kind='ensures', lhs=None, rhs=None):
        if goal is TRUE and kind != 'ensures':
            self.ub.append(1)
            return
        if kind != 'ensures':
            if not self.safety:
                return
            d = self.decide(goal)
            if d is TRUE:
                self.ub.append(1)
                return
        self.obls.append(Obl(label, kind, [f for f in self.facts] + list(lits(self.guard)), list(self.qfacts), goal,
                             lhs, rhs, '/'.join(self.mod.dem.get(x, x) for x in self.callstack[-3:])))
        self.obls[-1].defs = self.ghosts

    # ------------------------------------------------------------ memory
    def sort_of(self, ty):
        if ty == 'ptr':
            return 'P'
        if ty in ('double', 'float', 'x86_fp80'):
            return 'R'
        if isinstance(ty, tuple) and ty[0] == 'i':
            return 'B' if ty[1] == 1 else 'I'
        raise Unsupported('sort of type %s' % (ty,))

    def zero_of(self, sort):
        return {'P': NULL, 'R': R0, 'I': I0, 'B': FALSE}[sort]

    def content(self, r):
        return self.mem.get(r)

    def undef_cell(self, r, idx, off, sort):
        if r.kind == 'extern':
            self.notes.add('external global read: ' + r.name)
            return uf('extern:' + r.name, tuple(idx) + (off,), sort)
        return uf('undef:%s' % r.name, tuple(idx) + (off,), sort)

    def load(self, p, sort, size=8):
        p = self.simp(p)
        if p.op == 'ite':
            c = p.a[0]
            g = self.guard
            self.guard = and_(g, c)
            a = self.load(p.a[1], sort, size) if self.guard is not FALSE else None
            self.guard = and_(g, not_(c))
            b = self.load(p.a[2], sort, size) if self.guard is not FALSE else None
            self.guard = g
            if a is None:
                return b
            if b is None:
                return a
            return ite(c, a, b)
        if p.op != 'ptr':
            return uf('deref', (p,), sort) if sort != 'P' else uf('derefp', (p,), 'P')
        r, idx, off = p.a
        if r is tm.NULLREG:
            self.oblige(FALSE, 'null pointer dereference', 'safety')
            return self.fresh('nullread', sort)
        if r.kind == 'func':
            raise Unsupported('load from function')
        self.bounds(r, idx, off, size)
        v = self.read(r, self.glob_content(r), idx, off, sort, size)
        return self.simp(v)

    def bounds(self, r, idx, off, size):
        if r.size is None or not self.safety:
            return
        sz = r.size
        if isinstance(sz, T) and sz.op == 'const' and off.op == 'const':
            if off.a[0] >= 0 and off.a[0] + size <= sz.a[0]:
                return
            self.oblige(FALSE, 'access outside of %s' % r.name, 'safety')
            return
        if r.arity:
            # size given in terms of the binders at allocation
            pass
        s = self.region_size(r, idx)
        self.oblige(and_(ge(off, I0), le(add(off, I(size)), s)), 'access inside of %s' % r.name.split('!')[0], 'safety')

    def region_size(self, r, idx):
        s = r.size
        if r.base:
            s = subst(s, dict((b, x) for b, x in zip(r.base, idx) if b.op in ('var', 'uf')))
        return s

    def glob_content(self, r):
        return self.mem.get(r)

    def read(self, r, node, idx, off, sort, size):
        chain = []
        res = None
        fuel = 0
        while node is not None:
            fuel += 1
            if type(node) is D:
                d = node.d
                if node.idx == idx:
                    hit = d.get(off)
                    if hit is not None:
                        res = self.coerce(hit[0], sort, hit[1], size, r, off)
                        if res is None:
                            res = self.fresh('mixed', sort)
                        break
                    if off.op != 'const':
                        stop = False
                        for o2, (v, s2) in reversed(list(d.items())):
                            c = self.decide(eq(off, o2))
                            if c is FALSE:
                                continue
                            v = self.coerce(v, sort, s2, size, r, off)
                            if v is None:
                                continue
                            if c is TRUE:
                                res = v
                                stop = True
                                break
                            chain.append((c, v))
                        if stop:
                            break
                else:
                    ci = and_(*[eq(a, b) for a, b in zip(node.idx, idx)])
                    ci = self.decide(ci)
                    if ci is not FALSE:
                        stop = False
                        for o2, (v, s2) in reversed(list(d.items())):
                            c = and_(ci, eq(off, o2))
                            if c is FALSE:
                                continue
                            c = self.decide(c)
                            if c is FALSE:
                                continue
                            v = self.coerce(v, sort, s2, size, r, off)
                            if v is None:
                                continue
                            if c is TRUE:
                                res = v
                                stop = True
                                break
                            chain.append((c, v))
                        if stop:
                            break
            else:
                m = self.match(node, idx, off, size)
                if m is not None:
                    if m == 'unknown':
                        res = self.deferred(r, node, idx, off, sort, size)
                        if res is not None:
                            break
                        res = self.fresh('unkread', sort)
                        self.notes.add('unresolved array read in %s' % r.name.split('!')[0])
                        if self.trace:
                            print('UNKREAD', r, idx, off, 'upd', node.kind, node.binders, node.idx, node.off)
                        break
                    c, sub = m
                    c = self.decide(c)
                    if c is not FALSE:
                        if node.kind == 'w':
                            v = subst(node.val, sub) if sub else node.val
                            if sub and self.snaps:
                                v = self.resolve(v, c)
                            v = self.coerce(v, sort, node.size, size, r, off)
                            if v is None:
                                v = self.fresh('mixed', sort)
                        elif node.kind == 'zero':
                            v = self.zero_of(sort)
                        elif node.kind == 'copy':
                            v = self.read_copy(node, sub, off, sort, size, c)
                        elif node.kind == 'havoc':
                            v = uf(node.val[0], node.val[1] + tuple(idx) + (off,), sort)
                        elif node.kind == 'acc':
                            v = self.read_acc(r, node, idx, off, sort, size)
                        if c is TRUE:
                            res = v
                            break
                        chain.append((c, v))
            node = node.parent
        if res is None:
            if r.kind == 'global':
                res = self.init_cell(r, idx, off, sort, size)
            else:
                res = self.undef_cell(r, idx, off, sort)
        if len(chain) > 1 or chain and res is not None:
            return self.fold_chain(chain, res)
        for c, v in reversed(chain):
            res = ite(c, v, res)
        return res

    def mentions(self, node, vs):
        """does the description of a region's state contain one of the variables"""
        n = node
        while n is not None:
            if type(n) is D:
                ts = list(n.idx) + [v for v, _ in n.d.values()] + list(n.d)
            else:
                if n.src is not None or n.kind not in ('w', 'zero'):
                    return True
                ts = list(n.idx) + [n.off, n.guard, n.val, n.len] + [b for _, b in n.binders]
            if any(isinstance(t, T) and t.sp & vs for t in ts):
                return True
            n = n.parent
        return False

    def deferred(self, r, node, idx, off, sort, size):
        """a read that cannot be decided where it stands (the address depends on the iteration): named after the
        state of the region, so that it can be read again for the address of a given iteration"""
        if r.kind == 'stack' or not self.active:
            return None
        acts = frozenset(x for x in self.active if isinstance(x, T) and x.op == 'var')
        if self.mentions(node, acts):
            return None
        key = (id(node), sort, size)
        nm = self.snapname.get(key)
        if nm is None:
            nm = self.snapname[key] = 'unkread!at%d' % len(self.snaps)
            self.snaps[nm] = (r, node, len(idx), sort, size)
        return uf(nm, tuple(idx) + (off,), sort)

    def resolve(self, v, c):
        if not isinstance(v, T):
            return v
        us = [u for u in tm.subterms(v) if u.op == 'uf' and u.a[0] in self.snaps]
        if not us:
            return v
        g = self.guard
        self.guard = and_(g, c)
        m = {}
        for u in us:
            r, node, n, sort, size = self.snaps[u.a[0]]
            if self.guard is not FALSE:
                x = self.read(r, node, tuple(u.a[1:1 + n]), u.a[1 + n], sort, size)
                if x is not u:
                    m[u] = x
        self.guard = g
        return subst(v, m) if m else v

    def read_acc(self, r, node, idx, off, sort, size):
        """content of a region that every iteration of a loop adds to: the content before the loop plus the
        sum of what the completed iterations added"""
        apart = size <= 8
        for s, c, e, ivs, G, k in node.val[0]:
            d = sub_(off, I(c))
            if s == 0:
                if d.op != 'const' or abs(d.a[0]) < 8 and d.a[0] != 0:
                    apart = False
                if d is not I0:
                    continue
                q = I0
            else:
                qr = polydivmod(d, I(s))
                if qr is None:
                    apart = False
                    continue
                q, rm = qr
                if rm.op != 'const' or rm.a[0] != 0:
                    if rm.op != 'const' or rm.a[0] % s < 8 or s - rm.a[0] % s < 8:
                        apart = False
                    continue
            if sort != 'R' or size != 8:
                return self.fresh('mixed', sort)
            sub = {e: q}
            sub.update(zip(ivs, idx))
            j = tm.fresh('j', 'I')
            sub[k] = j
            return add(self.read(r, node.parent, idx, off, sort, size), sum_(node.val[1], j, subst(G, sub)))
        if apart:
            # not one of the cells that are added to
            return self.read(r, node.parent, idx, off, sort, size)
        self.notes.add('unresolved array read in %s' % r.name.split('!')[0])
        return self.fresh('unkread', sort)

    def fold_chain(self, chain, res):
        """nested choice between the candidates; later conditions are decided under the negation of the
        earlier ones and alternatives that agree with a more general earlier value are merged with it"""
        g = self.guard
        out = []
        for c, v in chain:
            if out:
                self.guard = and_(self.guard, not_(out[-1][0]))
                if self.guard is FALSE:
                    break
                c2 = self.decide(c)
            else:
                c2 = c
            if c2 is FALSE:
                continue
            if c2 is TRUE:
                res = v
                break
            out.append((c2, v))
        self.guard = g
        i = 1
        while i < len(out):
            c, v = out[i]
            pc, pv = out[i - 1]
            if pv is v or c.op == 'eq' and self.agrees(pv, v, c):
                out[i - 1] = (or_(pc, c), pv)
                del out[i]
                continue
            i += 1
        while out:
            c, v = out[-1]
            if v is res:
                out.pop()
                continue
            if len(out) >= 1 and self.chain_covers(out):
                res = v
                out.pop()
                continue
            self.guard = and_(g, *[not_(c2) for c2, v2 in out])
            same = self.same_where(v, res)
            self.guard = g
            if same:
                res = v
                out.pop()
                continue
            break
        for c, v in reversed(out):
            res = ite(c, v, res)
        return res

    def chain_covers(self, out):
        """the candidates cover everything under the current guard: the rest is unreachable"""
        return self.entails(or_(*[c for c, v in out]))

    def same_where(self, a, b, depth=0):
        """two values differ in index arguments only, which agree under the current guard"""
        if a is b:
            return True
        if a.op != b.op or a.sort != b.sort or depth > 3:
            return False
        if a.op == 'uf' and a.a[0] == b.a[0] and len(a.a) == len(b.a):
            for x, y in zip(a.a[1:], b.a[1:]):
                if x is y:
                    continue
                if x.sort == 'I' and y.sort == 'I':
                    if not self.entails(eq(x, y)):
                        return False
                elif not self.same_where(x, y, depth + 1):
                    return False
            return True
        return False

    def agrees(self, pv, v, c):
        """pv equals v where c (an equation) holds"""
        if pv.sort != v.sort:
            return False
        d = c.a[0]
        cst, items = tm._lin_parts(d)
        for k, u in items:
            if u.op in ('var', 'uf', 'idiv') and abs(k) == 1 and d.sort == 'I':
                val = sub_(u, mul(d, I(k)))      # u - k*d with k=+-1: solves d=0 for u
                if u in tm.subterms(val):
                    continue
                if subst(pv, {u: val}) is v or subst(pv, {u: val}) is subst(v, {u: val}):
                    return True
        return False

    def read_copy(self, node, sub, off, sort, size, c):
        sr, sidx, soff, snode = node.src[:4]
        ren = dict(node.src[4]) if len(node.src) > 4 else {}
        # the source is described in the terms of the iteration that copied (k), the
        # destination in terms of its binder (j): read for k, then rename
        lo = node.off
        if ren:
            back = {b: a for a, b in ren.items() if b.op == 'var'}
            lo = subst(lo, back)
            sub = {back.get(b, b): v for b, v in (sub or {}).items()}
        lo_s = subst(lo, sub) if sub else lo
        delta = sub_(off, lo_s)
        g = self.guard
        self.guard = and_(g, c)
        if not sub:
            v = self.read(sr, snode, sidx, add(soff, delta), sort, size)
        elif not self.mentions(snode, frozenset(sub)):
            # the state copied from is the same one for every iteration: only the address differs
            self.guard = and_(g, c)
            v = self.read(sr, snode, tuple(subst(i, sub) for i in sidx), add(subst(soff, sub), delta), sort, size)
        else:
            dl = tm.fresh('dl', 'I', special=True)
            nf0 = len(self.facts)
            if delta.op == 'const':
                dl = delta
            ln = node.len
            if ren and ln is not None:
                ln = subst(ln, back)
            self.guard = TRUE
            self.facts += [ge(dl, I0), lt(dl, ln)]
            for b, n in node.binders:
                kb = back.get(b, b) if ren else b
                self.facts += [ge(kb, I0), lt(kb, subst(n, back) if ren else n)]
            v = self.read(sr, snode, sidx, add(soff, dl), sort, size)
            del self.facts[nf0:]
            if dl is not delta:
                v = subst(v, {dl: delta})
            v = subst(v, sub)
        self.guard = g
        return v

    def coerce(self, v, sort, s2, size, r, off):
        if v.sort == sort and (s2 == size or s2 is None):
            return v
        if v.sort == sort and sort == 'I':
            # the low bytes of a wider integer
            return self.wrap(v, size * 8) if s2 > size else None
        if sort == 'P' and v is I0:
            return NULL
        if sort == 'I' and v is NULL:
            return I0
        if sort == 'I' and v.sort == 'P':
            return uf('ptrtoint', (v,), 'I')
        return None

    def match(self, u, idx, off, size):
        """condition under which cell (idx,off) is covered by update u, and the binder values"""
        sub = {}
        conds = []
        if u.kind in ('havoc', 'acc') and u.len is None and not u.binders:
            # the whole region, or what is written at the given places
            if u.kind == 'havoc' and u.val[2] is not None and off.op == 'const' and \
                    all(off.a[0] + size <= o or o + s <= off.a[0] for o, s in u.val[2]):
                return None
            return None if u.guard is FALSE else (u.guard, None)
        remaining = [b for b, n in u.binders]
        if len(u.idx) != len(idx):
            return 'unknown'
        if not remaining:
            if u.kind == 'w':
                c = eq(u.off, off)
                if c is FALSE:
                    return None
            c = and_(*[eq(a, b) for a, b in zip(u.idx, idx)])
            if c is FALSE:
                return None
            if u.kind == 'w':
                c = and_(c, self.same_place(u.off, off, u.guard))
            elif u.kind != 'havoc' or u.len is not None:
                c = and_(c, ge(off, u.off), lt(off, add(u.off, u.len)))
            c = and_(c, u.guard)
            return None if c is FALSE else (c, None)
        for ui, xi in zip(u.idx, idx):
            x = subst(ui, sub) if sub else ui
            bs = [b for b in remaining if b in x.sp]
            if not bs:
                c = eq(x, xi)
                if c is FALSE:
                    return None
                conds.append(c)
                continue
            if len(bs) == 1:
                b = bs[0]
                k = sub_(x, b)
                if b in k.sp:
                    return 'unknown'
                sub[b] = sub_(xi, k)
                remaining.remove(b)
            else:
                return 'unknown'
        o = subst(u.off, sub) if sub else u.off
        if u.kind == 'havoc' and u.len is None:
            if remaining:
                return 'unknown'
            for b, n in u.binders:
                nn = subst(n, sub)
                conds += [ge(sub[b], I0), lt(sub[b], nn)]
            return and_(u.guard if not sub else subst(u.guard, sub), *conds), sub
        if u.kind == 'w' and not remaining:
            c = eq(o, off)
            if c is FALSE:
                return None
            conds.append(c)
        elif not remaining:
            ln = subst(u.len, sub)
            conds += [ge(off, o), lt(off, add(o, ln))]
        else:
            # offset = o0 + sum stride_b * b
            st = self.strides(o, remaining)
            if st is None:
                return 'unknown'
            o0, strides = st
            rest = sub_(off, o0)
            if any(b not in strides for b in remaining):
                # binder not in the address (must then not matter): unsupported
                return 'unknown'
            gg = 0
            from math import gcd
            allc = all(s.op == 'const' for s in strides.values())
            if allc:
                for s in strides.values():
                    gg = gcd(gg, s.a[0])
                if rest.op == 'const' and u.kind == 'w' and rest.a[0] % gg:
                    return None
                if u.kind == 'w':
                    c, items = tm._lin_parts(rest)
                    if all(k % gg == 0 for k, _ in items) and c % gg:
                        return None
            order = sorted(remaining, key=lambda b: self._sk(strides[b]), reverse=True)
            for n_, b in enumerate(order):
                s = strides[b]
                last = n_ == len(order) - 1
                if s.op == 'const' and s.a[0] < 0:
                    # descending address: b = (-rest)/(-s)
                    qr = polydivmod(neg(rest), neg(s))
                    if qr is None:
                        return 'unknown'
                    q, rm = qr
                    rest2 = neg(rm)
                else:
                    qr = polydivmod(rest, s)
                    if qr is None:
                        return 'unknown'
                    q, rm = qr
                    rest2 = rm
                if last and u.kind == 'w' and not (rest2.op == 'const' and rest2.a[0] == 0):
                    if len(order) == 1 and s.op == 'const':
                        if rest2.op == 'const':
                            # all other coefficients divisible
                            if rest2.a[0] % s.a[0]:
                                return None
                        dv = idiv(rest, s)
                        sub[b] = dv
                        conds.append(eq(imod(rest, s), I0))
                        rest = I0
                        break
                    # a remainder is left: other candidates could fit
                    if True:
                        r2 = self.decide(and_(gt(rest2, I0), lt(rest2, s)))
                        if r2 is TRUE and len(order) == 1:
                            return None
                        bs = {x for x, n in u.binders}
                        save = self.guard
                        self.guard = and_(save, *[l for l in lits(u.guard) if not any(x in bs for x in tm.subterms(l))])
                        near = u.kind == 'w' and (self.guard is FALSE or self.decide(and_(gt(rest2, neg(s)), lt(rest2, s))) is TRUE)
                        self.guard = save
                        if near:
                            # (b-q)*s = rest with |rest| < s: only b = q with no remainder
                            # (several binders: any other tuple in range is at least s away, see range and injectivity below)
                            conds.append(eq(rest2, I0))
                            sub[b] = q
                            rest = I0
                            break
                    if len(order) > 1:
                        # mixed radix: no solution if the remainder is strictly between 0 and the smallest stride
                        r2 = self.decide(and_(gt(rest2, I0), lt(rest2, s)))
                        if r2 is TRUE:
                            return None
                    return 'unknown'
                if not last:
                    # make sure the remainder lies within the span of the lower binders
                    pass
                sub[b] = q
                rest = rest2
            if u.kind == 'w':
                if not (rest.op == 'const' and rest.a[0] == 0):
                    return 'unknown'
            else:
                ln = subst(u.len, sub)
                if len(order) != 1:
                    return 'unknown'
                s = strides[order[0]]
                # chunk must not exceed the stride
                if not self.entails(le(ln, s)):
                    return 'unknown'
                conds += [ge(rest, I0), lt(rest, ln)]
                # candidate is right if 0<=rest<s, otherwise unknown
                if self.decide(and_(ge(rest, I0), lt(rest, s))) is not TRUE:
                    if s.op == 'const':
                        # exact floor division
                        tot = sub_(off, o0)
                        q = tm.flr(toreal_div(tot, s))
                        return 'unknown'
                    return 'unknown'
            # injectivity
            nmap = dict(u.binders)
            for i in range(len(order) - 1):
                s1, s2 = strides[order[i]], strides[order[i + 1]]
                n2 = subst(nmap[order[i + 1]], sub) if sub else nmap[order[i + 1]]
                if not self.entails(ge(s1, mul(s2, n2))):
                    return 'unknown'
            sl = strides[order[-1]]
            if sl.op != 'const' and not self.entails(gt(sl, I0)):
                return 'unknown'
        rng = []
        for b, n in u.binders:
            nn = subst(n, sub) if sub else n
            rng += [ge(sub[b], I0), lt(sub[b], nn)]
        if len(u.binders) > 1 and any(b in u.off.sp for b, n in u.binders):
            mult = [b for b, n in u.binders if b in u.off.sp]
            if len(mult) > 1:
                rc = self.decide(and_(*rng))
                if rc is not TRUE:
                    # outside of the mixed-radix range another tuple might address the cell
                    # -> only sound to deny when the whole span is missed
                    lo = o0_span = None
                    full = self.decide(self.span_miss(u, off, sub, idx))
                    if full is TRUE:
                        return None
                    return 'unknown'
        c = and_(*(conds + rng))
        g = subst(u.guard, sub) if sub else u.guard
        c = and_(c, g)
        return None if c is FALSE else (c, sub)

    def same_place(self, a, b, guard):
        """a == b; offsets of the form d*q + r with |r| < d are equal only if both q and r are"""
        d = sub_(a, b)
        p = ipoly(d)
        cand = []
        for m in p:
            if len(m) == 2 and all(q == 1 for t, q in m):
                cand.append({t for t, q in m})
        if len(cand) > 1:
            for t in sorted(set.intersection(*cand), key=lambda t: t.id):
                q, r = {}, {}
                for m, c in p.items():
                    if any(x is t for x, _ in m):
                        m2 = tuple((x, n) for x, n in m if x is not t)
                        q[m2] = q.get(m2, 0) + c
                    else:
                        r[m] = c
                from math import gcd
                g = 0
                for c in q.values():
                    g = gcd(g, int(c))
                qt, rt = ipoly_term({m: c // g for m, c in q.items()}), ipoly_term(r)
                s = mul(I(g), t)
                save = self.guard
                self.guard = and_(save, guard)
                ok = self.guard is FALSE or self.entails(and_(lt(rt, s), gt(rt, neg(s))))
                self.guard = save
                if ok:
                    return and_(eq(qt, I0), eq(rt, I0))
        return eq(a, b)

    def span_miss(self, u, off, sub, idx):
        """cell lies below the first or beyond the last address of a mixed-radix map"""
        o = u.off
        inside = [b for b, n in u.binders if b in o.sp]
        nm = dict(u.binders)
        s0 = {b: sub[b] for b in sub if b not in inside}
        lo = subst(o, {**{b: I0 for b in inside}, **s0})
        hi = subst(o, {**{b: sub_(nm[b], I1) for b in inside}, **s0})
        return or_(lt(off, lo), gt(off, hi))

    def _sk(self, s):
        if s.op == 'const':
            return (0, abs(s.a[0]))
        p = ipoly(s)
        return (max(sum(q for _, q in m) for m in p), max(abs(c) for c in p.values()))

    def strides(self, o, bs):
        p = ipoly(o)
        o0 = {}
        st = {b: {} for b in bs}
        for m, c in p.items():
            hit = None
            rest = []
            for t, q in m:
                if t in st:
                    if hit is not None or q != 1:
                        return None
                    hit = t
                else:
                    if any(b in t.sp for b in bs):
                        return None
                    rest.append((t, q))
            if hit is None:
                o0[m] = c
            else:
                st[hit][tuple(rest)] = st[hit].get(tuple(rest), 0) + c
        return ipoly_term(o0), {b: ipoly_term(d) for b, d in st.items() if d}

    def store(self, p, v, size=8):
        p = self.simp(p)
        if p.op == 'ite':
            c = p.a[0]
            g = self.guard
            self.guard = and_(g, c)
            if self.guard is not FALSE:
                self.store(p.a[1], v, size)
            self.guard = and_(g, not_(c))
            if self.guard is not FALSE:
                self.store(p.a[2], v, size)
            self.guard = g
            return
        if p.op != 'ptr':
            raise Unsupported('store through unknown pointer %s' % p)
        r, idx, off = p.a
        if r is tm.NULLREG:
            self.oblige(FALSE, 'null pointer write', 'safety')
            return
        if r.kind in ('func', 'str'):
            raise Unsupported('store to constant')
        self.bounds(r, idx, off, size)
        self.write(r, idx, off, v, size)

    def write(self, r, idx, off, v, size):
        if self.guard is not TRUE:
            g = self.guard
            self.guard = not_(g)          # the old value only matters where the write does not happen
            notes = set(self.notes)
            old = self.read(r, self.mem.get(r), idx, off, v.sort, size)
            self.guard = g
            if off.op != 'const' and contains_unknown(old):
                # nothing is known about the cell where the write does not happen: a conditional update
                self.notes = notes
                self.mem[r] = U('w', (), g, idx, off, v, size, self.mem.get(r))
                return
            v = ite(g, v, self.simp_not(old))
        node = self.mem.get(r)
        if off.op == 'const':
            if type(node) is D and node.epoch == self.epoch and node.idx == idx:
                d = dict(node.d)
                d[off] = (v, size)
                self.mem[r] = D(d, self.epoch, node.parent, idx)
            else:
                self.mem[r] = D({off: (v, size)}, self.epoch, node, idx)
        else:
            self.mem[r] = U('w', (), TRUE, idx, off, v, size, node)

    def simp_not(self, old):
        """old value is only relevant where the guard is false"""
        if old.op == 'ite':
            ng = not_(self.guard)
            fs = set(lits(ng))
            c = old.a[0]
            if c in fs:
                return old.a[1]
            if not_(c) in fs:
                return old.a[2]
        return old

    def fill(self, r, idx, off, length, kind, src=None, val=None):
        if length.op == 'const' and length.a[0] <= 0:
            return
        self.mem[r] = U(kind, (), self.guard, idx, off, val, None, self.mem.get(r), len=length, src=src)

    def copy_typed(self, dst, src, ty):
        vals = []
        for o, t in self.mod.leaves(ty):
            s = self.sort_of(t)
            sz = self.mod.size(t)
            vals.append((o, self.load(self.padd(src, I(o)), 'I' if s == 'B' else s, sz), sz))
        for o, v, sz in vals:
            self.store(self.padd(dst, I(o)), v, sz)

    def padd(self, p, o):
        if o is I0:
            return p
        if p.op == 'ite':
            return ite(p.a[0], self.padd(p.a[1], o), self.padd(p.a[2], o))
        if p.op == 'ptr':
            return ptr(p.a[0], p.a[1], add(p.a[2], o))
        return uf('padd', (p, o), 'P')

    def known_cells(self, r, idx, base, n):
        """sizes and sorts of cells at constant distance from base, in [0,n)"""
        out = {}
        node = self.mem.get(r)
        while node is not None:
            if type(node) is D:
                for o2, (v, s) in node.d.items():
                    d = sub_(o2, base)
                    if d.op == 'const' and 0 <= d.a[0] < n and d.a[0] not in out:
                        out[d.a[0]] = (v.sort, s)
            elif node.kind == 'w':
                d = sub_(node.off, base)
                if d.op == 'const' and 0 <= d.a[0] < n and d.a[0] not in out:
                    out[d.a[0]] = (node.val.sort, node.size)
                elif d.op != 'const':
                    # array-of-struct: residue
                    st = self.strides(node.off, [b for b, _ in node.binders]) if node.binders else None
                    out.setdefault(('s',), []).append((node, st))
            node = node.parent
        return out

    def memcpy(self, dst, src, n):
        dst, src = self.simp(dst), self.simp(src)
        if dst.op == 'ite' or src.op == 'ite':
            p = dst if dst.op == 'ite' else src
            c = p.a[0]
            g = self.guard
            for cc, k in ((c, 1), (not_(c), 2)):
                self.guard = and_(g, cc)
                if self.guard is not FALSE:
                    self.memcpy(dst.a[k] if p is dst else dst, src.a[k] if p is src else src, n)
            self.guard = g
            return
        if dst.op != 'ptr' or src.op != 'ptr':
            raise Unsupported('memcpy on unknown pointers')
        r1, i1, o1 = dst.a
        r2, i2, o2 = src.a
        if r1 is tm.NULLREG or r2 is tm.NULLREG:
            if n.op == 'const' and n.a[0] == 0:
                return
            self.oblige(FALSE, 'null pointer in memcpy', 'safety')
            return
        if r1.size is not None:
            self.oblige(and_(ge(o1, I0), le(add(o1, n), self.region_size(r1, i1))), 'copy inside of destination', 'safety')
        if r2.size is not None:
            self.oblige(and_(ge(o2, I0), le(add(o2, n), self.region_size(r2, i2))), 'copy inside of source', 'safety')
        if n.op == 'const' and n.a[0] <= 64 and r2.ety is not None and r2.ety[1][0] == 'bytes' and r2.kind == 'global' and r2 not in self.mem and o2.op == 'const':
            for i, b in enumerate(bytes(r2.ety[1][1])[o2.a[0]:o2.a[0] + n.a[0]]):
                self.write(r1, i1, add(o1, I(i)), I(b), 1)
            return
        if n.op == 'const' and n.a[0] <= 512:
            n = n.a[0]
            kn = self.known_cells(r2, i2, o2, n)
            node = self.mem.get(r2)
            o = 0
            vals = []
            while o < n:
                k = kn.get(o)
                if k is None:
                    step = 8 if (o % 8 == 0 and n - o >= 8 and not any(isinstance(x, int) and o < x < o + 8 for x in kn)) else \
                        (4 if n - o >= 4 and o % 4 == 0 else 1)
                    srt = None
                    # array of structs: infer the sort from a symbolic update
                    if step == 8:
                        srt = self.array_sort(r2, i2, add(o2, I(o)))
                        if srt is None and r2.kind == 'global':
                            srt = 'R'
                        if srt is None and node is not None and self.covered(node):
                            srt = 'R'
                    if srt is not None:
                        vals.append((o, self.read(r2, node, i2, add(o2, I(o)), srt, step), step))
                    o += step
                    continue
                srt, sz = k
                vals.append((o, self.read(r2, node, i2, add(o2, I(o)), srt, sz), sz))
                o += sz
            for o, v, sz in vals:
                self.write(r1, i1, add(o1, I(o)), v, sz)
            return
        self.fill(r1, i1, o1, n, 'copy', src=(r2, i2, o2, self.mem.get(r2)))

    def covered(self, node):
        while node is not None:
            if type(node) is U and node.kind in ('zero', 'copy', 'havoc'):
                return True
            node = node.parent
        return False

    def array_sort(self, r, idx, off):
        node = self.mem.get(r)
        while node is not None:
            if type(node) is D:
                for o2, (v, s) in node.d.items():
                    c = eq(o2, off)
                    if c is not FALSE and s == 8:
                        return v.sort
            elif node.kind == 'w' and node.size == 8:
                try:
                    m = self.match(node, idx, off, 8)
                except Unsupported:
                    m = None
                if m is not None:
                    return node.val.sort
            elif node.kind == 'copy':
                s = None
                sr, sidx, soff, snode = node.src[:4]
                save = self.mem.get(sr)
                self.mem[sr] = snode
                d = sub_(off, node.off)
                if not node.binders:
                    s = self.array_sort(sr, sidx, add(soff, d))
                else:
                    m = self.match(node, idx, off, 8)
                    if m is not None and m != 'unknown':
                        sb = m[1] or {}
                        s = self.array_sort(sr, tuple(subst(x, sb) for x in sidx), add(subst(soff, sb), sub_(off, subst(node.off, sb))))
                if save is None:
                    self.mem.pop(sr, None)
                else:
                    self.mem[sr] = save
                if s:
                    return s
            node = node.parent
        return None

    # ------------------------------------------------------------ globals
    def gptr(self, name):
        m = self.mod
        while name in m.aliases and name not in m.funcs:
            name = m.aliases[name]
        if name in m.funcs or name in m.decls:
            r = self.funreg.get(name)
            if r is None:
                r = Region(-len(self.funreg) - 1, 'fn:' + name, 'func')
                self.funreg[name] = r
            return ptr(r, (), I0)
        r = self.globreg.get(name)
        if r is None:
            g = m.glob(name)
            if g is None:
                raise Unsupported('unknown global ' + name)
            ty, val, cst = g
            if val is None:
                r = Region(-10 ** 6 - len(self.globreg), name, 'extern')
            else:
                r = Region(-10 ** 6 - len(self.globreg), name, 'global', size=I(m.size(ty)))
                r.base = None
            r.ety = (ty, val)
            self.globreg[name] = r
        return ptr(r, (), I0)

    def init_cell(self, r, idx, off, sort, size):
        ty, val = r.ety
        if off.op != 'const':
            # constant array indexed by a variable
            leaves = self.mod.leaves(ty)
            if len(leaves) > 64:
                raise Unsupported('symbolic read of a large global')
            res = self.undef_cell(r, idx, off, sort)
            for o, t in reversed(leaves):
                res = ite(eq(off, I(o)), self.init_cell(r, idx, I(o), sort, size), res)
            return res
        o = off.a[0]
        return self._init(ty, val, o, sort)

    def _init(self, ty, val, o, sort):
        if val[0] == 'zero':
            return self.zero_of(sort)
        if val[0] == 'undef':
            return uf('undefglobal', (I(o),), sort)
        if isinstance(ty, tuple) and ty[0] == 'a':
            es = self.mod.size(ty[2])
            if val[0] == 'bytes':
                return I(val[1][o] if o < len(val[1]) else 0)
            k = o // es
            if k >= len(val[1]):
                return uf('undefglobal', (I(o),), sort)
            return self._init(val[1][k][0], val[1][k][1], o - k * es, sort)
        if isinstance(ty, tuple) and ty[0] in ('s', 'l', 'lp'):
            fl = self.mod.fields(ty)
            for i in range(len(fl) - 1, -1, -1):
                if fl[i][0] <= o:
                    return self._init(val[1][i][0], val[1][i][1], o - fl[i][0], sort)
        v = self.const_val(val, ty)
        if v.sort == 'B' and sort == 'I':
            v = ite(v, I1, I0)
        return v

    def const_val(self, v, ty):
        k = v[0]
        if k == 'c':
            if ty == ('i', 1):
                return TRUE if v[1] else FALSE
            return I(v[1])
        if k == 'f':
            return Rf(v[1])
        if k == 'null':
            return NULL
        if k == 'zero':
            return self.zero_of(self.sort_of(ty))
        if k == 'undef':
            return self.fresh('undef', self.sort_of(ty))
        if k == 'g':
            return self.gptr(v[1])
        if k == 'gep':
            base = self.const_val(v[2][0][1], 'ptr')
            off = self.gep_off(v[1], [(t, self.const_val(x, t)) for t, x in v[2][1:]])
            return self.padd(base, off)
        if k == 'cast':
            if v[1] == 'ptrtoint':
                return uf('ptrtoint', (self.const_val(v[3], v[2]),), 'I')
            if v[1] == 'bitcast':
                return self.const_val(v[3], v[2])
        raise Unsupported('constant %s' % (v,))

    def gep_off(self, bt, args):
        m = self.mod
        off = mul(args[0][1], I(m.size(bt)))
        t = bt
        for ty, a in args[1:]:
            if isinstance(t, tuple) and t[0] in ('s', 'l', 'lp'):
                fl = m.fields(t)
                if a.op != 'const':
                    raise Unsupported('gep struct index')
                o, t2 = fl[a.a[0]]
                off = add(off, I(o))
                t = t2
            elif isinstance(t, tuple) and t[0] == 'a':
                t = t[2]
                off = add(off, mul(a, I(m.size(t))))
            else:
                raise Unsupported('gep type')
        return off

    def val(self, act, v, ty):
        if v[0] == 'reg':
            try:
                return act.env[v[1]]
            except KeyError:
                raise Unsupported('undefined register %s in %s' % (v[1], act.fn.name))
        return self.const_val(v, ty)

    # ------------------------------------------------------------ functions
    def call(self, name, args, argattrs=None):
        """execute function `name` under self.guard.  Returns value; self.guard is the guard of normal return;
        throw guards are returned in self.thrown"""
        f = self.mod.func(name)
        if f is None:
            raise Unsupported('no body for ' + self.mod.dem.get(name, name))
        analyse_loops(f)
        if self.callstack.count(name) > 3:
            raise Unsupported('recursion in ' + name)
        self.called[name] = self.called.get(name, 0) + 1
        self.callstack.append(name)
        act = Act(f)
        g0 = self.guard
        for (t, n, a), v in zip(f.params, args):
            if 'byval' in a:
                r, idx = self.new_region('byval', 'stack', I(self.mod.size(a['byval'])), 'alloca', family=False)
                self.mem.pop(r, None)
                np_ = ptr(r, idx, I0)
                gs = self.guard
                self.copy_typed(np_, v, a['byval'])
                self.guard = gs
                v = np_
            act.env[n] = v
        ex = self.run_region(act, None, f.entry, [(None, g0)], None)
        self.callstack.pop()
        rets = act.returns
        if rets:
            gn = or_(*[g for g, v in rets])
            val = None
            if rets[0][1] is not None:
                val = self.merge([(g, v) for g, v in rets], gn)
        else:
            gn, val = FALSE, None
        self.guard = gn
        return val, act.throws

    def merge(self, gvs, joined):
        """ite chain over guarded values"""
        if len(gvs) == 1:
            return gvs[0][1]
        jl = set(lits(joined))
        res = gvs[-1][1]
        for g, v in reversed(gvs[:-1]):
            c = and_(*[x for x in lits(g) if x not in jl])
            res = self.ite_any(c, v, res)
        return res

    def ite_any(self, c, a, b):
        if isinstance(a, tuple):
            return tuple(self.ite_any(c, x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a if b is None else b
        return ite(c, a, b)

    # ------------------------------------------------------------ regions of blocks
    def run_region(self, act, loop, entry, entry_edges, phis):
        """execute blocks of loop (or whole function if loop is None).
        phis: preset phi values for the header.  returns (continues, exits)"""
        f = act.fn
        inside = loop.blocks if loop else None
        pend = {entry: list(entry_edges)}
        conts, exits = [], []
        saved_guard = self.guard

        def add_edge(frm, to, g):
            if g is FALSE:
                return
            if loop and to == loop.header:
                conts.append((frm, g))
            elif inside is not None and to not in inside:
                exits.append((frm, to, g))
            else:
                pend.setdefault(to, []).append((frm, g))
        for b in f.rpo:
            if b not in pend:
                continue
            inc = pend.pop(b)
            lp = f.blk_loop.get(b)
            if lp is not None and lp is not loop and lp.header == b:
                # inner loop
                for frm, to, g in self.exec_loop(act, lp, inc):
                    add_edge(frm, to, g)
                continue
            guard = or_(*[g for _, g in inc])
            if guard is FALSE:
                continue
            self.guard = guard
            blk = f.blocks[b]
            i = 0
            # phis
            news = {}
            while i < len(blk) and blk[i].op == 'phi':
                ins = blk[i]
                if phis is not None and b == entry:
                    news[ins.dst] = phis[ins.dst]
                else:
                    src = {bb: v for v, bb in ins.ops}
                    news[ins.dst] = self.merge([(g, self.val(act, src[frm], ins.ty)) for frm, g in inc], guard)
                i += 1
            act.env.update(news)
            dead = False
            for ins in blk[i:]:
                if self.guard is FALSE:
                    dead = True
                    break
                self.step(act, ins, b, add_edge)
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported('step budget exceeded')
        self.guard = saved_guard
        return conts, exits

    def branch(self, c):
        """decide a branch condition under the current path"""
        if c.op == 'const':
            return c
        d = self.decide(c)
        return d

    def step(self, act, ins, blk, add_edge):
        op = ins.op
        env = act.env
        V = self.val
        if op == 'load':
            ty = ins.ty
            p = V(act, ins.ops[0][1], 'ptr')
            s = self.sort_of(ty)
            sz = self.mod.size(ty)
            if s == 'B':
                v = self.load(p, 'I', 1)
                env[ins.dst] = ne(v, I0)
            else:
                env[ins.dst] = self.load(p, s, sz)
        elif op == 'store':
            (ty, v), (_, a) = ins.ops
            x = V(act, v, ty)
            if isinstance(x, tuple):
                raise Unsupported('aggregate store')
            if x.sort == 'B':
                x = ite(x, I1, I0)
            self.store(V(act, a, 'ptr'), x, self.mod.size(ty))
        elif op == 'getelementptr':
            base = V(act, ins.ops[0][1], 'ptr')
            off = self.gep_off(ins.ty, [(t, V(act, v, t)) for t, v in ins.ops[1:]])
            env[ins.dst] = self.padd(base, off)
        elif op in ('call', 'invoke'):
            self.do_call(act, ins, blk, add_edge)
        elif op == 'br':
            if len(ins.ops) == 1:
                add_edge(blk, ins.ops[0], self.guard)
            else:
                c = V(act, ins.ops[0][1], ('i', 1))
                d = self.branch(c)
                lc = self.loop_ctx
                if lc is not None and self.guard is TRUE and lc[0] is act and blk in lc[1].blocks and d.op in ('eq', 'not'):
                    i1, i2 = ins.ops[1] in lc[1].blocks, ins.ops[2] in lc[1].blocks
                    if i1 != i2:
                        d = self.first_exit(d, i1, *lc[1:])
                if d is TRUE:
                    add_edge(blk, ins.ops[1], self.guard)
                elif d is FALSE:
                    add_edge(blk, ins.ops[2], self.guard)
                else:
                    add_edge(blk, ins.ops[1], and_(self.guard, d))
                    add_edge(blk, ins.ops[2], and_(self.guard, not_(d)))
        elif op == 'switch':
            x = V(act, ins.ops[0][1], ins.ops[0][0])
            rest = self.guard
            for cvv, to in ins.ops[2]:
                c = self.branch(eq(x, self.const_val(cvv, ins.ops[0][0])))
                add_edge(blk, to, and_(rest, c))
                rest = and_(rest, not_(c))
            add_edge(blk, ins.ops[1], rest)
        elif op == 'ret':
            v = None
            if ins.ops:
                v = V(act, ins.ops[0][1], ins.ops[0][0])
            act.returns.append((self.guard, v))
        elif op == 'alloca':
            n = 1
            sz = I(self.mod.size(ins.ty))
            if ins.ops[0] is not None:
                sz = mul(sz, V(act, ins.ops[0][1], ins.ops[0][0]))
            r, idx = self.new_region('loc', 'stack', sz, 'alloca', family=False)
            self.mem.pop(r, None)
            env[ins.dst] = ptr(r, idx, I0)
        elif op == 'select':
            c = V(act, ins.ops[0][1], ('i', 1))
            a = V(act, ins.ops[1][1], ins.ty)
            b = V(act, ins.ops[2][1], ins.ty)
            env[ins.dst] = ite(c, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = V(act, ins.ops[0], ins.ty), V(act, ins.ops[1], ins.ty)
            r = None
            if op == 'fdiv' and self.values and b.op != 'const' and a.op != 'const':
                import intrin as _in
                r = _in.known_quotient(self, a, b)
            env[ins.dst] = r if r is not None else {'fadd': add, 'fsub': sub_, 'fmul': mul, 'fdiv': div}[op](a, b)
        elif op == 'fneg':
            env[ins.dst] = neg(V(act, ins.ops[0], ins.ty))
        elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = V(act, ins.ops[0], ins.ty), V(act, ins.ops[1], ins.ty)
            env[ins.dst] = self.ibin(op, a, b, ins)
        elif op == 'icmp':
            a, b = V(act, ins.ops[0], ins.ty), V(act, ins.ops[1], ins.ty)
            env[ins.dst] = self.icmp(ins.x, a, b, ins.ty)
        elif op == 'fcmp':
            a, b = V(act, ins.ops[0], ins.ty), V(act, ins.ops[1], ins.ty)
            env[ins.dst] = self.fcmp(ins.x, a, b)
        elif op == 'phi':
            raise Unsupported('phi')
        elif op == 'sext':
            t, x = ins.ops[0]
            v = V(act, x, t)
            if v.sort == 'B':
                v = ite(v, I(-1), I0)
            env[ins.dst] = v
        elif op == 'zext':
            t, x = ins.ops[0]
            v = V(act, x, t)
            if v.sort == 'B':
                v = ite(v, I1, I0)
            else:
                v = self.unsigned(v, t[1])
            env[ins.dst] = v
        elif op == 'trunc':
            t, x = ins.ops[0]
            v = V(act, x, t)
            w = ins.ty[1]
            if w == 1:
                env[ins.dst] = self.tobool(v)
            else:
                env[ins.dst] = self.wrap(v, w)
        elif op == 'sitofp':
            t, x = ins.ops[0]
            v = V(act, x, t)
            if v.sort == 'B':
                v = ite(v, I(-1), I0)
            env[ins.dst] = toreal(v)
        elif op == 'uitofp':
            t, x = ins.ops[0]
            v = V(act, x, t)
            if v.sort == 'B':
                v = ite(v, I1, I0)
            else:
                v = self.unsigned(v, t[1])
            env[ins.dst] = toreal(v)
        elif op == 'fptosi':
            t, x = ins.ops[0]
            v = trunc(V(act, x, t))
            w = ins.ty[1]
            self.oblige(and_(ge(v, I(-2 ** (w - 1))), le(v, I(2 ** (w - 1) - 1))), 'double to int%d in range' % w, 'range')
            env[ins.dst] = v
        elif op == 'fptoui':
            t, x = ins.ops[0]
            v = trunc(V(act, x, t))
            w = ins.ty[1]
            self.oblige(and_(ge(v, I0), le(v, I(2 ** w - 1))), 'double to uint%d in range' % w, 'range')
            env[ins.dst] = v
        elif op in ('fpext', 'fptrunc', 'bitcast', 'freeze'):
            env[ins.dst] = V(act, ins.ops[0][1], ins.ops[0][0])
        elif op == 'ptrtoint':
            env[ins.dst] = self.p2i(V(act, ins.ops[0][1], 'ptr'))
        elif op == 'inttoptr':
            raise Unsupported('inttoptr')
        elif op == 'extractvalue':
            a = V(act, ins.ops[0][1], ins.ops[0][0])
            for k in ins.x:
                a = a[k]
            env[ins.dst] = a
        elif op == 'insertvalue':
            if ins.ops[0][1][0] == 'undef':
                n = len(ins.ty[1]) if ins.ty[0] == 'l' else len(self.mod.struct(ins.ty[1])[1])
                a = [None] * n
            else:
                a = list(V(act, ins.ops[0][1], ins.ops[0][0]))
            if len(ins.x) != 1:
                raise Unsupported('insertvalue')
            a[ins.x[0]] = V(act, ins.ops[1][1], ins.ops[1][0])
            env[ins.dst] = tuple(a)
        elif op == 'landingpad':
            import intrin
            env[ins.dst] = (NULL, self.read(intrin.ghost_region(self), self.mem.get(intrin.ghost_region(self)), (), I0, 'I', 8))
        elif op == 'resume':
            act.throws.append(self.guard)
            self.guard = FALSE
        elif op == 'unreachable':
            self.guard = FALSE
        else:
            raise Unsupported('instruction ' + op)

    def p2i(self, p):
        if p.op == 'ptr':
            if p.a[0] is tm.NULLREG:
                return I0
            base = uf('addr:' + p.a[0].name, p.a[1], 'I')
            return add(base, p.a[2])
        if p.op == 'ite':
            return ite(p.a[0], self.p2i(p.a[1]), self.p2i(p.a[2]))
        return uf('addrof', (p,), 'I')

    def tobool(self, v):
        if v.op == 'ite' and v.a[1].op == 'const' and v.a[2].op == 'const':
            return ite(v.a[0], TRUE if v.a[1].a[0] & 1 else FALSE, TRUE if v.a[2].a[0] & 1 else FALSE)
        if v.op == 'const':
            return TRUE if v.a[0] & 1 else FALSE
        return ne(imod(v, I(2)), I0)

    def unsigned(self, v, w):
        if v.op == 'const':
            return I(v.a[0] % (1 << w))
        c = self.decide(ge(v, I0))
        if c is TRUE:
            return v
        return ite(c, v, add(v, I(1 << w)))

    def wrap(self, v, w):
        """signed representative modulo 2^w"""
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if v.op == 'const':
            return I((v.a[0] - lo) % (1 << w) + lo)
        if self.entails(and_(ge(v, I(lo)), le(v, I(hi)))):
            return v
        m = imod(v, I(1 << w))
        return ite(gt(m, I(hi)), sub_(m, I(1 << w)), ite(lt(m, I(lo)), add(m, I(1 << w)), m))

    def ibin(self, op, a, b, ins):
        ty = ins.ty
        if a.sort == 'B':
            if op == 'and':
                return and_(a, b)
            if op == 'or':
                return or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return not_(eq(a, b)) if b is not TRUE else not_(a)
            raise Unsupported('i1 ' + op)
        w = ty[1]
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub_, 'mul': mul}[op](a, b)
            if r.op == 'const':
                return self.wrap(r, w)
            if 'nsw' in ins.x:
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if w == 32:
                    self.oblige(and_(ge(r, I(lo)), le(r, I(hi))), 'no signed overflow (int%d)' % w, 'overflow')
                return r
            return self.wrap_u(r, w)
        if op == 'shl' and b.op == 'const':
            r = mul(a, I(1 << b.a[0]))
            if 'nsw' in ins.x:
                return r
            return self.wrap_u(r, w)
        if op == 'sdiv':
            self.oblige(ne(b, I0), 'division by zero', 'safety')
            return idiv(a, b)
        if op == 'srem':
            self.oblige(ne(b, I0), 'remainder by zero', 'safety')
            return imod(a, b)
        if op == 'udiv':
            self.oblige(ne(b, I0), 'division by zero', 'safety')
            return idiv(self.unsigned(a, w), self.unsigned(b, w))
        if op == 'urem':
            self.oblige(ne(b, I0), 'remainder by zero', 'safety')
            return imod(self.unsigned(a, w), self.unsigned(b, w))
        if op == 'lshr' and b.op == 'const':
            return idiv(self.unsigned(a, w), I(1 << b.a[0]))
        if op == 'ashr' and b.op == 'const':
            if self.entails(ge(a, I0)):
                return idiv(a, I(1 << b.a[0]))
            x = toreal_div(a, I(1 << b.a[0]))
            return flr(x)
        if op == 'and' and b.op == 'const' and b.a[0] > 0 and (b.a[0] & (b.a[0] + 1)) == 0:
            if self.entails(ge(a, I0)):
                return imod(a, I(b.a[0] + 1))
        if a.op == 'const' and b.op == 'const':
            x, y = a.a[0], b.a[0]
            return self.wrap(I({'and': x & y, 'or': x | y, 'xor': x ^ y}.get(op, 0)), w) if op in ('and', 'or', 'xor') else self.fresh('bit', 'I')
        if op == 'xor' and b.op == 'const' and b.a[0] == -1:
            return sub_(I(-1), a)
        self.notes.add('bit operation %s havocked' % op)
        return self.fresh('bits', 'I')

    def wrap_u(self, r, w):
        """result of a wrapping operation; kept as the signed representative"""
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if r.op == 'const':
            return self.wrap(r, w)
        if w == 64:
            # 64-bit sizes: assume no wrap when provably in range, otherwise modular
            if self.entails(and_(ge(r, I(lo)), le(r, I(hi)))):
                return r
            if not contains_unknown(r):
                self.notes.add('64-bit arithmetic assumed not to wrap')
            return r
        return self.wrap(r, w)

    def icmp(self, pred, a, b, ty):
        if a.sort == 'P' or b.sort == 'P':
            if pred in ('eq', 'ne'):
                a, b = self.simp(a), self.simp(b)
                c = peq(a, b)
                return c if pred == 'eq' else not_(c)
            # ordering of pointers into the same object
            if a.op == 'ptr' and b.op == 'ptr' and a.a[0] is b.a[0]:
                a, b = a.a[2], b.a[2]
                pred = pred.replace('u', 's') if pred[0] == 'u' else pred
            else:
                raise Unsupported('pointer ordering')
        if a.sort == 'B':
            if pred == 'eq':
                return eq(a, b)
            if pred == 'ne':
                return not_(eq(a, b))
            a, b = ite(a, I1, I0), ite(b, I1, I0)
        if pred == 'eq':
            return eq(a, b)
        if pred == 'ne':
            return ne(a, b)
        if pred[0] == 'u':
            if b is I0 and pred in ('ugt', 'ule'):
                return ne(a, b) if pred == 'ugt' else eq(a, b)
            if a is I0 and pred in ('ult', 'uge'):
                return ne(a, b) if pred == 'ult' else eq(a, b)
            if b is I1 and pred in ('uge', 'ult') and not self.entails(ge(a, I0)):
                return ne(a, I0) if pred == 'uge' else eq(a, I0)
            w = ty[1] if isinstance(ty, tuple) else 64
            a, b = self.unsigned(a, w), self.unsigned(b, w)
            pred = 's' + pred[1:]
        return {'slt': lt, 'sle': le, 'sgt': gt, 'sge': ge}[pred](a, b)

    def fcmp(self, pred, a, b):
        if pred == 'uno':
            return FALSE
        if pred == 'ord':
            return TRUE
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        # infinities
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x.op == 'uf' and x.a[0] in ('special_inf', 'special_-inf'):
                self.notes.add('comparison with infinity')
                p = pred[1:]
                pos = x.a[0] == 'special_inf'
                if p in ('eq',):
                    return FALSE
                if p == 'ne':
                    return TRUE
                lessy = p in ('lt', 'le')
                res = (not pos) if not flip else pos
                return TRUE if (res == lessy) else FALSE
        return {'eq': eq, 'ne': ne, 'lt': lt, 'le': le, 'gt': gt, 'ge': ge}[pred[1:]](a, b)

    # ------------------------------------------------------------ calls
    def do_call(self, act, ins, blk, add_edge):
        callee, args = ins.ops
        vals = []
        for t, v, a in args:
            vals.append(self.val(act, v, t))
        throws = []
        if callee[0] == 'g':
            name = callee[1]
            res = self.invoke_name(act, name, vals, ins, throws)
        else:
            fp = self.simp(self.val(act, callee, 'ptr'))
            res = self.invoke_ptr(act, fp, vals, ins, throws)
        if ins.dst is not None:
            act.env[ins.dst] = res
        thr = or_(*throws) if throws else FALSE
        if ins.op == 'invoke':
            if thr is not FALSE:
                add_edge(blk, ins.x[1], thr)
            if self.guard is not FALSE:
                add_edge(blk, ins.x[0], self.guard)
        else:
            if thr is not FALSE:
                act.throws.append(thr)

    def invoke_ptr(self, act, fp, vals, ins, throws):
        if fp.op == 'ite':
            c = fp.a[0]
            g = self.guard
            self.guard = and_(g, c)
            r1 = r2 = None
            g1 = g2 = FALSE
            if self.guard is not FALSE:
                r1 = self.invoke_ptr(act, fp.a[1], vals, ins, throws)
                g1 = self.guard
            self.guard = and_(g, not_(c))
            if self.guard is not FALSE:
                r2 = self.invoke_ptr(act, fp.a[2], vals, ins, throws)
                g2 = self.guard
            self.guard = or_(g1, g2)
            return self.ite_any(c, r1, r2)
        if fp.op != 'ptr' or fp.a[0].kind != 'func':
            raise Unsupported('indirect call through %s in %s' % (fp, self.mod.dem.get(act.fn.name)))
        return self.invoke_name(act, fp.a[0].name[3:], vals, ins, throws)

    def invoke_name(self, act, name, vals, ins, throws):
        import intrin
        dem = self.mod.dem.get(name, name)
        h = intrin.lookup(self, name, dem)
        if h is not None:
            return h(self, name, dem, vals, ins, throws)
        for rx, fn in self.opaque:
            if rx == dem or (hasattr(rx, 'match') and rx.match(dem)):
                return intrin.opaque_call(self, name, dem, vals, ins, throws)
        if self.mod.func(name) is None:
            return intrin.external(self, name, dem, vals, ins, throws)
        v, th = self.call(name, vals)
        throws.extend(th)
        return v


from terms import sub as sub_  # noqa


def toreal_div(a, b):
    return mul(toreal(a), inv(toreal(b)))


def contains_unknown(t):
    return isinstance(t, T) and any(u.op in ('uf', 'var') and str(u.a[0]).startswith('unkread!') for u in tm.subterms(t))


import loops  # noqa  (adds exec_loop to Exec)
