"""Loop summaries: inferred and inductively re-checked invariants for any number of iterations."""
from symex import *
import symex
from terms import *
from terms import sub as sub_
import terms as tm
import smt
import prove


class Carr:
    def __init__(self, kind, key, sort, size, init, sym, marker, binders=()):
        self.kind, self.key, self.sort, self.size, self.init, self.sym, self.marker = kind, key, sort, size, init, sym, marker
        self.binders = binders
        self.form = None       # (kind, data)
        self.nosolve = set()
        self.pin = None
        self.next = None
        self.ever = False


def real_k(k, sort):
    return toreal(k) if sort == 'R' else k


def val_at(c, k, kt):
    """closed form of carried value c at iteration kt"""
    kind, d = c.form
    if kind == 'affine':
        if c.sort == 'P':
            p = c.init
            return ptr(p.a[0], p.a[1], add(p.a[2], mul(kt, d)))
        return add(c.init, mul(real_k(kt, c.sort), d))
    if kind == 'sum':
        j = tm.fresh('j', 'I')
        if c.sort == 'P':
            p = c.init
            return ptr(p.a[0], p.a[1], add(p.a[2], sum_(kt, j, subst(d, {k: j}))))
        return add(c.init, sum_(kt, j, subst(d, {k: j})))
    if kind == 'last':
        if kt.op == 'const' and kt.a[0] == 0:
            return c.init
        return ite(eq(kt, I0), c.init, subst(d, {k: sub_(kt, I1)}))
    if kind == 'const':
        return c.init
    if kind == 'latch':
        # last value stored under a condition that stays true/false : ite(exists..)
        raise Unsupported('latch')
    if kind == 'fun':
        # value is F(other carried) : d = (function of z, z var, other carr)
        F, z, other = d
        return subst(F, {z: cur_val(other, k, kt)})
    raise Unsupported(kind)


def cur_val(c, k, kt):
    if c.form is not None:
        return val_at(c, k, kt)
    return c.sym if kt is k else c.at(kt)


class LoopRun:
    pass


def gather(ex, heads, base_depth, resets=()):
    """memory writes performed since `heads`"""
    writes = []
    reset = []
    for r, node in ex.mem.items():
        h = heads.get(r)
        if node is h:
            continue
        if r in resets:
            reset.append(r)
            continue
        born = r.depth > base_depth
        if born and r.kind == 'stack':
            continue
        lst = []
        n = node
        while n is not None and n is not h:
            lst.append(n)
            n = n.parent
        if h is not None and n is None:
            reset.append(r)
            continue
        for n in reversed(lst):
            if type(n) is D:
                for off, (v, sz) in n.d.items():
                    writes.append((r, U('w', (), TRUE, n.idx, off, v, sz, None)))
            else:
                writes.append((r, n))
    return writes, reset


def places(writes):
    """set of (constant offset, size) that the writes touch, None if they go elsewhere"""
    out = set()
    for u in writes:
        if u.kind == 'w' and u.off.op == 'const' and u.size:
            out.add((int(u.off.a[0]), u.size))
        elif u.kind == 'havoc' and u.val[2] is not None:
            out |= u.val[2]
        elif u.kind == 'acc' and all(s == 0 for s, c, e, iv, G, k in u.val[0]):
            out |= {(c, 8) for s, c, e, iv, G, k in u.val[0]}
        else:
            return None
    return frozenset(out) if out else None


def exec_loop(self, act, L, incoming):
    f = act.fn
    hdr = f.blocks[L.header]
    self.nloops += 1
    g0 = or_(*[g for _, g in incoming])
    if g0 is FALSE:
        return []
    phis = [ins for ins in hdr if ins.op == 'phi']
    defs = {i.dst: i for b in L.blocks for i in f.blocks[b] if i.op in ('add', 'sub')}
    init = {}
    for ins in phis:
        src = {bb: v for v, bb in ins.ops}
        init[ins.dst] = self.merge([(g, self.val(act, src[frm], ins.ty)) for frm, g in incoming], g0)
    save_guard = self.guard
    nf0, nq0, no0 = len(self.facts), len(self.qfacts), len(self.obls)
    self.guard = g0
    # simplify initial pointers under the entry condition
    for d in init:
        init[d] = self.simp(init[d])
    self.facts.extend(lits(g0))
    self.guard = TRUE
    nf1 = len(self.facts)
    base_mem = dict(self.mem)
    self.seq += 1
    tag = str(self.seq)
    outer = tuple(self.active)
    base_depth = len(outer)
    k = var('k@' + tag, 'I', special=True)
    jb = var('j@' + tag, 'I', special=True)
    seq1 = self.seq
    carr = {}
    symset = {}

    def new_carr(kind, key, sort, size, ini, nm, binders=(), hint=None):
        m = var('%s@%s' % (nm, tag), 'I' if sort == 'P' else sort, special=True)
        if binders:
            s = var('%s@%s' % (nm, tag), 'I', special=True)
            m = s
            sym = uf('A' + s.a[0], (s,) + tuple(b for b, n in binders), sort)
        elif sort == 'P':
            if ini.op == 'ptr' and ini.a[0] is not tm.NULLREG and (hint is None or (hint.op == 'ptr' and hint.a[0] is ini.a[0])):
                sym = ptr(ini.a[0], ini.a[1], m)
            else:
                mp = var('%s@%s' % (nm, tag), 'P', special=True)
                m = mp
                sym = mp
        else:
            sym = m
        c = Carr(kind, key, sort, size, ini, sym, m, binders)
        c.nm = nm

        def at(kt, c=c, nm=nm):
            base = '%s@%s' % (nm, tag)
            if c.pin is not None and kt is c.pin[0]:
                return c.pin[1]
            if c.binders:
                return uf('h' + base, outer + (kt,) + tuple(b for b, n in c.binders), sort)
            if c.sort == 'P' and c.sym.op == 'ptr':
                return ptr(c.sym.a[0], c.sym.a[1], uf('h' + base, outer + (kt,), 'I'))
            return uf('h' + base, outer + (kt,), sort)
        c.at = at
        carr[key] = c
        symset[m] = c
        return c

    for ins in phis:
        c = new_carr('phi', ('phi', ins.dst), self.sort_of(ins.ty), None, init[ins.dst], 'p' + ins.dst)
        # syntactic candidate: phi + constant step (verified like every other closed form)
        if c.sort == 'I':
            for v, bb in ins.ops:
                if bb in L.blocks and v[0] == 'reg' and len(L.latches) == 1:
                    df = defs.get(v[1])
                    if df is not None and df.op in ('add', 'sub') and df.ops[0] == ('reg', ins.dst) and df.ops[1][0] == 'c':
                        st = df.ops[1][1]
                        c.form = ('affine', I(st if df.op == 'add' else -st))
    layers = {}          # region -> list of U (binder jb to be given range)
    havocked = set()
    havplaces = {}       # region -> constant offsets (and sizes) that are written, None: anywhere
    accs = {}
    nclosed = None       # closed/generic trip count (index of the exiting iteration)
    info = None
    NOSOLVE = set()
    invs = {}

    def unsolved_syms():
        return frozenset(m for m, c in symset.items() if c.form is None)

    def at_subst(kt):
        d = {}
        for m, c in symset.items():
            if c.form is None and not c.binders:
                v = c.at(kt)
                d[m] = v.a[2] if (c.sort == 'P' and c.sym.op == 'ptr') else v
        return d

    def setup(kt, use_at):
        self.mem = dict(base_mem)
        self.epoch += 1
        for r, us in layers.items():
            for u in us:
                node = self.mem.get(r)
                self.mem[r] = U(u.kind, tuple(u.binders) + ((jb, kt),), u.guard, u.idx, u.off, u.val, u.size, node, u.len, u.src)
        for r in havocked:
            if r in self.mem:
                if use_at and r in accs:
                    self.mem[r] = U('acc', (), TRUE, (), I0, (accs[r], kt), None, self.mem.get(r))
                else:
                    self.mem[r] = U('havoc', (), TRUE, (), I0, ('hv:%s@%s' % (r.name, tag), outer + (kt,), havplaces.get(r)), None, self.mem.get(r))
        for c in carr.values():
            if c.kind == 'phi':
                continue
            if c.form is not None:
                v = val_at(c, k, kt)
            else:
                v = c.at(kt) if use_at else c.sym
            if not use_at and kt is not k:
                v = subst(v, {k: kt})
            r, idx, off = c.key[1:]
            node = self.mem.get(r)
            if c.binders:
                self.mem[r] = U('w', c.binders, TRUE, idx, off, v, c.size, node)
            elif off.op == 'const':
                if type(node) is D and node.epoch == self.epoch and node.idx == idx:
                    dd = dict(node.d)
                    dd[off] = (v, c.size)
                    self.mem[r] = D(dd, self.epoch, node.parent, idx)
                else:
                    self.mem[r] = D({off: (v, c.size)}, self.epoch, node, idx)
            else:
                self.mem[r] = U('w', (), TRUE, idx, off, v, c.size, node)
        self.epoch += 1

    def run(kt, use_at, extra):
        self.seq = seq1
        if use_at:
            self.seq = seq_final[0]
        setup(kt, use_at)
        heads = dict(self.mem)
        rs0 = dict(self.resets)
        del self.facts[nf1:]
        self.facts.extend(extra)
        pv = {}
        for ins in phis:
            c = carr[('phi', ins.dst)]
            if c.form is not None:
                v = val_at(c, k, kt)
                if v.op == 'ite' and v.a[0].op != 'const':
                    v = self.simp2(v)
            else:
                v = c.at(kt) if use_at else c.sym
            pv[ins.dst] = v
        self.active.append(kt)
        act_ret, act_thr = len(act.returns), len(act.throws)
        self.guard = TRUE
        saved_lc, self.loop_ctx = self.loop_ctx, (act, L, k, unsolved_syms()) if kt is k and not use_at else None
        conts, exits = self.run_region(act, L, L.header, [(None, TRUE)], pv)
        self.loop_ctx = saved_lc
        self.active.pop()
        rets = act.returns[act_ret:]
        thrs = act.throws[act_thr:]
        del act.returns[act_ret:]
        del act.throws[act_thr:]
        res = LoopRun()
        res.conts, res.exits, res.rets, res.thrs = conts, exits, rets, thrs
        res.heads = heads
        res.resets = {r for r, n in self.resets.items() if rs0.get(r) != n}
        res.mem = self.mem
        res.newfacts = self.facts[nf1 + len(extra):]
        res.maxseq = self.seq
        cg = or_(*[g for _, g in conts])
        res.cont = cg
        # phi nexts
        res.next = {}
        if cg is not FALSE:
            for ins in phis:
                src = {bb: v for v, bb in ins.ops}
                res.next[('phi', ins.dst)] = self.merge([(g, self.val(act, src[frm], ins.ty)) for frm, g in conts], cg)
        res.env = dict(act.env)
        return res

    seq_final = [seq1]
    guessed = False
    self.trip_facts = getattr(self, 'trip_facts', [])
    maxseq = seq1
    stable = False
    nfun = 0
    if self.values:
        # is the loop left in its first iteration?
        no1, nq1 = len(self.obls), len(self.qfacts)
        saved = [(c, c.form) for c in carr.values()]
        for c, _ in saved:
            c.form = ('const', None)
        res = run(k, False, [ge(k, I0)])
        maxseq = max(maxseq, res.maxseq)
        del self.obls[no1:]
        del self.qfacts[nq1:]
        if res.cont is not FALSE:
            for c, fm in saved:
                c.form = fm if fm is not None else stepped(c, res.next.get(c.key), set(lits(res.cont)))
    for it in range(24):
        no1, nq1 = len(self.obls), len(self.qfacts)
        extra = [ge(k, I0)]
        if nclosed is not None:
            extra.append(le(k, nclosed) if info == 'le' else lt(k, add(nclosed, I1)))
        extra += [iv for iv in invs.values()]
        res = run(k, False, extra)
        maxseq = max(maxseq, res.maxseq)
        changed = False
        if self.trace > 1: print('ITERX', it, [(key[0], key[1] if key[0] == 'phi' else (key[1].name, key[3]), c.form and c.form[0], show(c.init,5)) for key, c in carr.items()], 'exits', [show(g, 8) for _, _, g in res.exits], len(res.rets), len(res.thrs))
        # ---- trip count
        X = or_(*([g for _, _, g in res.exits] + [g for g, _ in res.rets] + res.thrs))
        if X is FALSE and nf1 > 0 and smt.check(self.facts[:nf1 - 1], self.qfacts, not_(self.facts[nf1 - 1]), timeout=5000, nonlin=False, rel=False)[0] == 'valid':
            # the loop is never entered
            del self.facts[nf0:]
            del self.obls[no1:]
            del self.qfacts[nq1:]
            self.mem = base_mem
            self.guard = save_guard
            return []
        if X is FALSE and invs and houdini(self, L, carr, invs, res, k, g0, init, unsolved_syms()):
            # some of the assumed invariants do not hold
            del self.obls[no1:]
            del self.qfacts[nq1:]
            continue
        # ---- under the continuation condition, what is written
        writes, reset = gather(self, res.heads, base_depth, res.resets)
        S = unsolved_syms()
        # facts available on the continuing path help to simplify
        cl = set(lits(res.cont))
        newlayers = {}
        cellnext = {}
        badregions = set()
        for r, u in writes:
            sp = frozenset().union(*[x.sp for x in u.idx], u.off.sp, u.len.sp if u.len is not None else EMPTY,
                                   *[n.sp for b, n in u.binders])
            if r in havocked:
                continue
            if sp & S:
                badregions.add(r)
                continue
            if k in sp:
                if opaque_in(u.off, k) or u.binders and not any(k in x.sp for x in u.idx) and k not in u.off.sp:
                    # unpredictable place, or the same range rewritten in each iteration
                    badregions.add(r)
                    continue
                newlayers.setdefault(r, []).append(u)
                continue
            if u.kind != 'w':
                # same range rewritten in each iteration
                if k in (u.val.sp if u.val is not None and isinstance(u.val, T) else EMPTY) or u.src is not None:
                    badregions.add(r)
                else:
                    badregions.add(r)
                continue
            if u.guard is not TRUE:
                badregions.add(r)
                continue
            key = ('cell', r, u.idx, u.off)
            cellnext[key] = u
        # conditionally continuing writes: value under the continue guard
        for key, u in cellnext.items():
            v = u.val
            if key not in carr:
                ini = None
                r = key[1]
                self.mem = base_mem
                ini = self.read(r, base_mem.get(r), u.idx, u.off, v.sort, u.size)
                if not u.binders and ini.op == 'ite':
                    fs, self.facts = self.facts, self.facts[:nf1]
                    ini = self.simp(ini)
                    self.facts = fs
                self.mem = res.mem
                c = new_carr('cell', key, v.sort, u.size, ini, 'c%d' % len(carr), u.binders, hint=v)
                c.form = stepped(c, v, cl)
                if self.trace > 1: print('CELL', (key[1].name, key[2], key[3]), 'value', show(v, 9), 'init', show(ini, 9), c.form)
                changed = True
            else:
                res.next[key] = v
        if changed and nclosed is None:
            # still try for the trip count in the next run
            pass
        # ---- solve recurrences
        if not changed:
            for key, c in list(carr.items()):
                if c.kind == 'cell' and (key not in res.next or key[1] in havocked):
                    # no longer written at a fixed place (or its region is not tracked)
                    del carr[key]
                    del symset[c.marker]
                    changed = True
                    continue
                e = res.next.get(key)
                if e is None:
                    continue
                c.cur_next = assume_simple(e, cl)
            for key, c in list(carr.items()):
                e = res.next.get(key)
                if e is None:
                    continue
                e = c.cur_next
                if c.form is None:
                    if try_solve(self, c, e, k, S, carr):
                        changed = True
                else:
                    if not verify(self, c, e, k, S):
                        if self.trace > 1: print('UNVERIFIED', key, c.form, show(e, 9), cl)
                        c.nosolve.add(c.form[0])
                        c.form = None
                        changed = True
            if not changed and not guessed:
                # the step of the first iteration as a candidate
                guessed = True
                zero = {k: I0}
                for m, c in symset.items():
                    if c.form is None and not c.binders:
                        zero[m] = c.init.a[2] if c.sort == 'P' and c.sym.op == 'ptr' and c.init.op == 'ptr' else c.init
                for key, c in list(carr.items()):
                    e = res.next.get(key)
                    if e is None or c.form is not None or c.binders or c.sort not in ('P', 'I') or 'affine' in c.nosolve:
                        continue
                    if c.sort == 'P' and (c.sym.op != 'ptr' or c.init.op != 'ptr'):
                        continue
                    e = subst(c.cur_next, zero)
                    d = self.deep(sub_(e.a[2], c.init.a[2]) if c.sort == 'P' and e.op == 'ptr' else sub_(e, c.init) if c.sort == 'I' else I0)
                    if self.trace > 1: print('GUESS', key, show(d, 8))
                    if d is not I0 and not d.sp & S and not any(u.op in ('ite', 'uf') for u in subterms(d)):
                        c.form = ('affine', d)
                        changed = True
        # ---- map layers
        nl = {}
        for r, us in newlayers.items():
            if r in havocked:
                continue
            out = []
            for u in us:
                ren = {k: jb}
                val = u.val
                if isinstance(val, T):
                    val = assume_simple(val, cl)
                S2 = unsolved_syms()
                if isinstance(val, T) and val.sp & S2:
                    val = subst(val, at_subst(k))
                gd = assume(u.guard, cl) if u.guard is not TRUE and cl else u.guard
                if gd.sp & S2:
                    gd = subst(gd, at_subst(k))
                src = u.src
                if src is not None:
                    pr = dict(src[4]) if len(src) > 4 else {}
                    pr2 = {a: subst(b, ren) for a, b in pr.items()}
                    pr2.setdefault(k, jb)
                    src = (src[0], src[1], src[2], src[3], tuple(pr2.items()))
                out.append(U(u.kind, tuple((b, subst(n, ren)) for b, n in u.binders), subst(gd, ren),
                             tuple(subst(x, ren) for x in u.idx), subst(u.off, ren),
                             subst(val, ren) if isinstance(val, T) else val, u.size, None,
                             subst(u.len, ren) if u.len is not None else None, src))
            nl[r] = out
        same = set(nl) == set(layers) and all(len(nl[r]) == len(layers[r]) and all(same_u(a, b) for a, b in zip(nl[r], layers[r])) for r in nl)
        if not same:
            if it >= 9:
                for r in set(nl) | set(layers):
                    if r not in nl or r not in layers or len(nl[r]) != len(layers[r]) or not all(same_u(a, b) for a, b in zip(nl[r], layers[r])):
                        havocked.add(r)
                        nl.pop(r, None)
                        self.notes.add('loop in %s: region %s havocked (unstable)' % (self.mod.dem.get(f.name, f.name), r.name.split('!')[0]))
            layers = nl
            changed = True
        # ---- writes of one iteration must not be overtaken by earlier-listed writes of later ones
        if not changed:
            for r, us in list(layers.items()):
                if not ordered(self, us, [c for c in carr.values() if c.kind == 'cell' and c.key[1] is r], jb, k):
                    badregions.add(r)
        if X is FALSE and not changed:
            raise Unsupported('loop without exit in ' + self.mod.dem.get(f.name, f.name))
        # ---- trip count (needs solved induction variables)
        if nclosed is None and not changed:
            t = trip(self, X, k, unsolved_syms())
            if t is not None:
                nclosed = t
                info = 'le'
                changed = True
            else:
                nclosed = uf('n@' + tag, outer, 'I') if outer else var('n@' + tag, 'I')
                info = 'generic'
                changed = True
        elif nclosed is None and it >= 1:
            t = trip(self, X, k, unsolved_syms())
            if t is not None:
                nclosed = t
                info = 'le'
        for r in havocked:
            # the places written in the region; what lies elsewhere is kept
            if r not in havplaces or havplaces[r] is not None:
                pl = places([u for rr, u in writes if rr is r])
                if pl is not None and havplaces.get(r):
                    pl |= havplaces[r]
                if r not in havplaces or pl != havplaces[r]:
                    havplaces[r] = pl
                    changed = True
        if not changed and badregions:
            for r in badregions:
                havocked.add(r)
                havplaces[r] = places([u for rr, u in writes if rr is r])
                self.notes.add('loop in %s: region %s havocked' % (self.mod.dem.get(f.name, f.name), r.name.split('!')[0]))
                layers.pop(r, None)
                for key, c in list(carr.items()):
                    if c.kind == 'cell' and key[1] is r:
                        del carr[key]
                        del symset[c.marker]
                changed = True
        # ---- invariants for what has no closed form
        if not changed and unsolved_syms() and not getattr(self, 'no_houdini', False):
            ch2 = houdini(self, L, carr, invs, res, k, g0, init, S)
            if ch2:
                changed = True
                nfun += 1
                if nfun < 8:
                    for c in carr.values():
                        c.nosolve.discard('fun')
        if self.trace > 1:
            print('ITER', it, 'changed', changed, {r.name: [(u.binders, show(u.off, 5), show(u.guard, 6), show(u.val, 7) if isinstance(u.val, T) else u.val) for u in us] for r, us in layers.items()}, 'bad', badregions, 'hav', havocked,
                  [(key[0], key[1] if key[0] == 'phi' else (key[1].name, key[3]), c.form and c.form[0]) for key, c in carr.items()], nclosed)
        if not changed:
            stable = True
            break
        del self.obls[no1:]
        del self.qfacts[nq1:]
    if not stable:
        raise Unsupported('loop summary does not stabilise in ' + self.mod.dem.get(f.name, f.name))
    if self.trace:
        print('LOOP', self.mod.dem.get(f.name, f.name), L.header, 'n=', nclosed, info, 'layers', {r.name: [(u.kind, u.binders, u.idx, u.off, show(u.val) if isinstance(u.val, T) else u.val) for u in us] for r, us in layers.items()})
        for key, c in carr.items():
            print('   carr', key[0], key[1] if key[0] == 'phi' else (key[1].name, key[3]), 'init', show(c.init, 5), 'form', c.form and (c.form[0], show(c.form[1], 6) if isinstance(c.form[1], T) else c.form[1]))
        if invs:
            print('   invariants', [show(x) for x in invs.values()])
    # ---- a few iterations whose effect has no closed form: one after the other
    chosen = any(c.form and c.form[0] == 'sum' and isinstance(c.form[1], T) and any(u.op == 'ite' and k in u.a[0].sp for u in subterms(c.form[1]))
                 for c in carr.values())
    if nclosed.op == 'const' and nclosed.a[0] <= 4 and info == 'le' and (havocked or unsolved_syms() or chosen):
        no2 = self.obls[no1:]
        q2 = self.qfacts[nq1:]
        f2, m2, e2 = self.facts[nf1:], self.mem, dict(act.env)
        del self.obls[no1:]
        del self.qfacts[nq1:]
        r = unrolled(self, act, L, phis, init, int(nclosed.a[0]), g0, nf0, nf1, base_mem, base_depth, seq1, save_guard)
        if r is not None:
            return r
        del self.obls[no1:]
        del self.qfacts[nq1:]
        del self.facts[nf1:]
        self.obls += no2
        self.qfacts += q2
        self.facts += f2
        self.mem = m2
        act.env.clear()
        act.env.update(e2)
    # ---- regions without a closed form: does every iteration add to what was there?
    for r in havocked:
        if r in res.heads:
            t = accumulate(self, r, res, 'hv:%s@%s' % (r.name, tag), k, [u for rr, u in writes if rr is r])
            if t is not None:
                asub0 = at_subst(k)
                accs[r] = [(s_, c_, e_, iv_, subst(G_, asub0) if asub0 else G_, k) for s_, c_, e_, iv_, G_ in t]
                self.notes.discard('loop in %s: region %s havocked' % (self.mod.dem.get(f.name, f.name), r.name.split('!')[0]))
    if self.trace and accs:
        print('ACC', [(r.name, [(s_, c_, show(G_, 8)) for s_, c_, e_, iv_, G_, k_ in t]) for r, t in accs.items()])
    # ---- accepted: quantify facts learnt in the body
    X = or_(*([g for _, _, g in res.exits] + [g for g, _ in res.rets] + res.thrs))
    asub = at_subst(k)
    newfacts = [subst(x, asub) if asub else x for x in res.newfacts]
    newq = self.qfacts[nq0:]
    del self.qfacts[nq0:]
    # obligations recorded in the body: stay as they are (k is arbitrary)
    del self.facts[nf1:]
    kx = nclosed                       # index of the exiting iteration
    # quantified facts hold for all completed iterations and the exiting one as far as executed
    for q in newq:
        self.qfacts.append(smt.QFact(list(q.binders) + [(k, kx)], subst(q.body, asub) if asub else q.body) if True else q)
    for x in newfacts:
        self.qfacts.append(smt.QFact([(k, kx)], x))
    post = []
    if info == 'generic':
        Xa = subst(X, asub) if asub else X
        post.append(ge(kx, I0))
        post.append(subst(Xa, {k: kx}))
        self.qfacts.append(smt.QFact([(k, kx)], not_(Xa)))
        # individual closed-form exits bound the count
        for g in [g for _, _, g in res.exits]:
            t = trip(self, g, k, unsolved_syms())
            if t is not None:
                post.append(le(kx, t))
    for m, iv in invs.items():
        post.append(subst(subst(iv, asub) if asub else iv, {k: kx}))
        self.qfacts.append(smt.QFact([(k, add(kx, I1))], subst(iv, asub) if asub else iv))
    # the final value of an index without closed form may be one of the registered ones (vc_index)
    if self.pins and info == 'generic':
        for c in carr.values():
            if c.form is None and c.sort == 'I' and not c.binders:
                h = c.at(kx)
                for j in self.pins:
                    if self.trace > 2: print('PIN', show(eq(h, j)), [show(f,9) for f in self.facts+[g0]+post], [(q.binders and [(str(show(a)),show(b)) for a,b in q.binders],show(q.body,9)) for q in self.qfacts])
                    r, _ = smt.check(self.facts + [g0] + list(post), self.qfacts, eq(h, j), timeout=3000, nonlin=False)
                    if r == 'valid':
                        self.facts.append(implies(g0, eq(h, j)))
                        c.pin = (kx, j)
                        break
    seq_final[0] = maxseq + 1
    # ---- is the only exit the latch (do-while)?  then all iterations are complete ones
    dowhile = (len(L.latches) == 1 and not res.rets and not res.thrs and len(res.exits) >= 1 and
               all(frm == L.latches[0] for frm, _, _ in res.exits))
    res2 = run(kx, True, post)
    extra_facts = self.facts[nf1:]
    del self.facts[nf0:]
    for x in extra_facts:
        self.facts.append(implies(g0, x))
    fin_mem = self.mem
    self.seq = max(self.seq, maxseq + 1, res2.maxseq)
    if dowhile:
        setup(add(kx, I1), True)
        for r in res2.resets:
            self.mem.pop(r, None)
        fin_mem = self.mem
    # exits
    out_edges = []
    rel = []
    tot = or_(*([g for _, _, g in res2.exits] + [g for g, _ in res2.rets] + res2.thrs))
    single = len(res2.exits) + len(res2.rets) + len(res2.thrs) == 1
    for frm, to, g in res2.exits:
        out_edges.append((frm, to, g0 if single else and_(g0, g)))
    for g, v in res2.rets:
        act.returns.append((g0 if single else and_(g0, g), v))
    for g in res2.thrs:
        act.throws.append(g0 if single else and_(g0, g))
    # memory: under g0 the final memory, otherwise the old one
    self.mem = merge_mem(self, base_mem, fin_mem, g0, base_depth)
    self.epoch += 1
    self.guard = save_guard
    return out_edges


def unrolled(self, act, L, phis, init, n, g0, nf0, nf1, base_mem, base_depth, seq1, save_guard):
    """execute n complete iterations and the one that leaves the loop; None if the loop is left in another way"""
    del self.facts[nf1:]
    self.mem = dict(base_mem)
    pv = dict(init)
    out, maxseq = [], seq1
    nr, nt = len(act.returns), len(act.throws)
    for it in range(n + 1):
        self.epoch += 1
        self.seq = seq1
        self.guard = TRUE
        self.active.append(I(it))
        saved_lc, self.loop_ctx = self.loop_ctx, None
        conts, exits = self.run_region(act, L, L.header, [(None, TRUE)], pv)
        self.loop_ctx = saved_lc
        self.active.pop()
        maxseq = max(maxseq, self.seq)
        cg = or_(*[g for _, g in conts])
        left = bool(exits) or len(act.returns) > nr or len(act.throws) > nt
        if it < n and (left or cg is not TRUE) or it == n and cg is not FALSE:
            del act.returns[nr:]
            del act.throws[nt:]
            self.guard = save_guard
            return None
        if it < n:
            nx = {}
            for ins in phis:
                src = {bb: v for v, bb in ins.ops}
                nx[ins.dst] = self.merge([(g, self.val(act, src[frm], ins.ty)) for frm, g in conts], cg)
            pv = nx
        else:
            out = [(frm, to, and_(g0, g)) for frm, to, g in exits]
    act.returns[nr:] = [(and_(g0, g), v) for g, v in act.returns[nr:]]
    act.throws[nt:] = [and_(g0, g) for g in act.throws[nt:]]
    extra = self.facts[nf1:]
    del self.facts[nf0:]
    for x in extra:
        self.facts.append(implies(g0, x))
    self.seq = maxseq + 1
    self.mem = merge_mem(self, base_mem, self.mem, g0, base_depth)
    self.epoch += 1
    self.guard = save_guard
    return out


def opaque_in(off, k):
    """the address depends on the iteration other than by multiples of its number"""
    if k not in off.sp:
        return False
    return any(t is not k and k in t.sp for m in tm.ipoly(off) for t, _ in m)


def solved_for(l, e):
    """p if the literal says e == p"""
    if l.op != 'eq':
        return None
    c, items = tm._lin_parts(l.a[0])
    for q, u in items:
        if u is e and q in (1, -1):
            p = sub_(e, mul(I(int(q)), l.a[0]))
            return p if e not in p.sp and not any(x is e for x in subterms(p)) else None
    return None


def accumulate(self, r, res, hv, k, writes):
    """[(stride, residue, e, idx variables, G)]: an iteration adds G to the cell at offset stride*e+residue
    whatever the region contained before; None if that is not what the iteration does"""
    from math import gcd
    classes = []
    g = 0
    if not writes or res.cont is FALSE:
        return None
    for u in writes:
        if u.kind == 'w' and u.size == 8 and isinstance(u.val, T) and u.val.sort == 'R':
            c, items = tm._lin_parts(u.off)
            for q, _ in items:
                if q != int(q):
                    return None
                g = gcd(g, int(q))
            classes.append(int(c))
        elif u.kind == 'acc':
            for s, c, e, iv, G, k2 in u.val[0]:
                g = gcd(g, s)
                classes.append(c)
        else:
            return None
    if g and g < 8:
        return None
    out = []
    save = self.guard, self.mem, len(self.facts), len(self.active), set(self.notes)
    self.mem = res.mem
    self.active.append(k)
    try:
        self.guard = res.cont
        for c in sorted({c % g if g else c for c in classes}):
            e = tm.fresh('e', 'I')
            ivs = tuple(tm.fresh('x', 'I') for _ in range(r.arity))
            off = add(mul(I(g), e), I(c)) if g else I(c)
            t = self.read(r, res.mem.get(r), ivs, off, 'R', 8)
            h = self.read(r, res.heads.get(r), ivs, off, 'R', 8)

            def prev(u):
                return [y for y in subterms(u) if y.op == 'uf' and y.a[0] == hv]

            def strip(u, h, path):
                if u.op == 'ite':
                    h2 = h
                    for l in lits(u.a[0]):
                        p = solved_for(l, e)
                        if p is not None:
                            # in this branch e is p
                            h2 = subst(h, {e: p})
                            break
                    return ite(u.a[0], strip(u.a[1], h2, path + [u.a[0]]), strip(u.a[2], h, path + [not_(u.a[0])]))
                for q, x in tm._lin_parts(u)[1]:
                    # choices that involve the previous content come first
                    if x.op == 'ite' and prev(x):
                        rest = sub_(u, mul(R(q), x))
                        return ite(x.a[0], strip(add(rest, mul(R(q), x.a[1])), h, path + [x.a[0]]),
                                   strip(add(rest, mul(R(q), x.a[2])), h, path + [not_(x.a[0])]))
                d = sub_(u, h)
                left = prev(d)
                if left:
                    self.guard = and_(res.cont, *path)
                    if self.guard is FALSE:
                        self.guard = res.cont
                        return R(0)
                    hs = prev(h)
                    for y in left:
                        for z in hs:
                            if y is not z and len(y.a) == len(z.a) and all(self.decide(eq(p, q)) is TRUE for p, q in zip(y.a[1:], z.a[1:])):
                                d = subst(d, {y: z})
                    self.guard = res.cont
                return d
            G = assume_simple(strip(t, h, []), set(lits(res.cont)))
            for u in subterms(G):
                if u.op == 'uf' and (u.a[0] == hv or u.a[0].startswith(('unkread!', 'mixed!'))):
                    if self.trace:
                        print('ACC fails', r.name, show(G, 12))
                    return None
            out.append((g, c, e, ivs, G))
    finally:
        self.guard, self.mem = save[0], save[1]
        del self.active[save[3]:]
        self.notes = save[4]
    return out


def ordered(self, us, cells, jb, k):
    """maps written by one loop can be applied one after the other: a later map at iteration j and an
    earlier map at iteration j'>j never touch the same cell; fixed cells are never touched by a map"""
    def fresh_b(u, tagn):
        sub = {b: tm.fresh('ov' + tagn, 'I', special=True) for b, n in u.binders}
        j2 = tm.fresh('ovj' + tagn, 'I', special=True)
        sub[jb] = j2
        off = subst(u.off, sub)
        idx = tuple(subst(x, sub) for x in u.idx)
        ln = subst(u.len, sub) if u.len is not None else (I(u.size) if u.size else None)
        fs = [ge(j2, I0)]
        for b, n in u.binders:
            fs += [ge(sub[b], I0), lt(sub[b], subst(n, sub))]
        return off, idx, ln, fs, j2, list(sub.values())

    def disjoint(a, b, order):
        oa, ia, la, fa, ja, ba = a
        ob, ib, lb, fb, jb_, bb = b
        if la is None or lb is None:
            return False
        if la.op == 'const' and lb.op == 'const':
            d = sub_(oa, ob)
            c, items = tm._lin_parts(d)
            from math import gcd
            g = 0
            for kk, _ in items:
                g = gcd(g, int(kk))
            if g and c == int(c):
                m = int(c) % g
                if m >= lb.a[0] and g - m >= la.a[0]:
                    return True
        nf = len(self.facts)
        self.facts += fa + fb + ([lt(jb_, ja)] if order else [])
        gl = or_(*([not_(eq(x, y)) for x, y in zip(ia, ib)] + [le(add(oa, la), ob), le(add(ob, lb), oa)]))
        ok = self.entails(gl)
        del self.facts[nf:]
        return ok
    for x in range(len(us)):
        for y in range(x + 1, len(us)):
            # us[y] shadows us[x]
            if not disjoint(fresh_b(us[x], 'a'), fresh_b(us[y], 'b'), True):
                return False
        for c in cells:
            if c.binders:
                u2 = U('w', c.binders, TRUE, c.key[2], c.key[3], None, c.size, None)
                o = fresh_b(u2, 'c')
            else:
                o = (c.key[3], c.key[2], I(c.size), [], I0, [])
            if not disjoint(fresh_b(us[x], 'a'), o, False):
                return False
    return True


def same_u(a, b):
    return a.kind == b.kind and a.binders == b.binders and a.guard is b.guard and a.idx == b.idx and a.off is b.off and \
        (a.val is b.val or type(a.val) is tuple and a.val == b.val) and a.size == b.size and a.len is b.len and \
        ((a.src is None) == (b.src is None)) and (a.src is None or (a.src[0] is b.src[0] and a.src[1] == b.src[1] and a.src[2] is b.src[2] and same_content(a.src[3], b.src[3])))


def same_content(a, b):
    n = 0
    while a is not b:
        n += 1
        if a is None or b is None or type(a) is not type(b) or n > 200:
            return False
        if type(a) is D:
            if a.idx != b.idx or a.d != b.d:
                return False
        elif not same_u(a, b):
            return False
        a, b = a.parent, b.parent
    return True


def merge_mem(self, base, fin, g0, base_depth):
    out = {}
    for r, node in fin.items():
        if r.kind == 'stack' and r.depth > base_depth:
            continue
        h = base.get(r)
        if node is h or g0 is TRUE or (h is None and r.depth > base_depth):
            out[r] = node
            continue
        lst = []
        n = node
        while n is not None and n is not h:
            lst.append(n)
            n = n.parent
        if h is not None and n is None:
            out[r] = node        # reset content (lifetime): undefined otherwise
            continue
        cur = h
        for n in reversed(lst):
            if type(n) is D:
                d = {}
                for off, (v, sz) in n.d.items():
                    sv = self.mem
                    old = self.read(r, cur, n.idx, off, v.sort, sz)
                    d[off] = (ite(g0, v, old), sz)
                cur = D(d, n.epoch, cur, n.idx)
            else:
                cur = U(n.kind, n.binders, and_(g0, n.guard), n.idx, n.off, n.val, n.size, cur, n.len, n.src)
        out[r] = cur
    return out


def assume_simple(e, facts):
    """simplify e under literal facts (only when it contains ites on them)"""
    if not facts:
        return e
    if e.op in ('ite',) or (e.op == 'lin' and any(u.op == 'ite' for _, u in e.a[1])) or e.sort == 'B':
        return assume(e, facts)
    if e.op == 'ptr':
        off = assume_simple(e.a[2], facts)
        return e if off is e.a[2] else ptr(e.a[0], e.a[1], off)
    return e


def cond_assume(self, e, facts):
    return e


Exec.cond_assume = cond_assume


def stepped(c, v, cl):
    """candidate closed form of a pointer: the step of the first iteration (verified like every other closed form)"""
    if c.sort != 'P' or v is None or c.binders or c.sym.op != 'ptr' or v.op != 'ptr':
        return None
    p = c.init
    if v.a[0] is not p.a[0] or v.a[1] != p.a[1]:
        return None
    d = assume_simple(sub_(v.a[2], p.a[2]), cl)
    return ('affine', d) if d.op == 'const' and d.a[0] != 0 else None


def lin_d(c, e):
    """e - c for carried c"""
    if c.sort == 'P':
        if e.op != 'ptr' or c.sym.op != 'ptr' or e.a[0] is not c.sym.a[0] or e.a[1] != c.sym.a[1]:
            return None
        return sub_(e.a[2], c.sym.a[2])
    if c.sort == 'B':
        return None
    return sub_(e, c.sym)


def try_solve(self, c, e, k, S, carr):
    own = c.marker
    d = lin_d(c, e) if c.sym is not None else None
    if d is not None and not (d.sp & S):
        if k not in d.sp:
            if 'affine' not in c.nosolve:
                c.form = ('affine', d)
                return True
        elif 'sum' not in c.nosolve:
            c.form = ('sum', d)
            return True
    if d is not None and own in d.sp and c.sort in ('R', 'I'):
        # normalise the difference (polynomial identity) and retry
        d2 = prove.cancel(d, own)
        if d2 is not None and not (d2.sp & S):
            if k not in d2.sp and 'affine' not in c.nosolve:
                c.form = ('affine', d2)
                return True
            if 'sum' not in c.nosolve:
                c.form = ('sum', d2)
                return True
    if not (e.sp & S) and 'last' not in c.nosolve:
        if k not in e.sp and e is c.init:
            c.form = ('const', None)
        else:
            c.form = ('last', e)
        return True
    if e is c.sym:
        c.form = ('const', None)
        return True
    # functionally dependent on another carried variable: c = F(other)
    if 'fun' not in c.nosolve and c.sort in ('R', 'I') and e.op == 'ite':
        for o in carr.values():
            if o is c or o.form is not None or o.sort != 'I' or o.binders or o.nosolve and 'funbase' in o.nosolve:
                continue
            oe = getattr(o, 'cur_next', None)
            if oe is None or oe.op != 'ite' or oe.a[0] is not e.a[0]:
                continue
            for pos in (1, 2):
                if e.a[3 - pos] is c.sym and oe.a[3 - pos] is o.sym:
                    X, M = e.a[pos], oe.a[pos]
                    z = var('z!F', 'I', special=True)
                    F = replace_node(X, M, z)
                    if F.sp & S or k in F.sp:
                        continue
                    # initial value must match F(init)
                    fi = subst(F, {z: o.init})
                    if fi is c.init or prove.quick_eq(fi, c.init):
                        c.form = ('fun', (F, z, o))
                        return True
    return False


def replace_node(t, node, by):
    memo = {}

    def go(u):
        if u is node:
            return by
        r = memo.get(u)
        if r is None:
            # linear terms: allow node inside an affine index
            r = tm.rebuild(u, go)
            memo[u] = r
        return r
    # also match scaled occurrences in linear combinations: node = idiv atom usually
    return go(t)


def verify(self, c, e, k, S):
    kind, d = c.form
    cur = val_at(c, k, k)
    if kind in ('affine', 'sum'):
        if c.sort == 'P':
            if e.op != 'ptr' or e.a[0] is not cur.a[0] or e.a[1] != cur.a[1]:
                return False
            dd = sub_(e.a[2], cur.a[2])
        else:
            dd = sub_(e, cur)
        if dd is d:
            return True
        return prove.quick_eq(dd, d, self.ctx_facts())
    if kind == 'last':
        if e is d:
            return True
        if e.sp & S:
            return False
        if e.sort in ('R', 'I') and prove.quick_eq(e, d, self.ctx_facts()):
            return True
        # refresh the closed form (its dependencies may just have been solved)
        c.tries = getattr(c, 'tries', 0) + 1
        if c.tries < 4:
            c.form = None
            c.form = ('last', e)
            return False if False else self._retry(c, e)
        return False
    if kind == 'const':
        return e is c.init or prove.quick_eq(e, c.init) if e.sort in ('R', 'I') else e is c.init
    if kind == 'fun':
        F, z, o = d
        oe = o.cur_next
        if oe is None:
            return False
        # e must equal F(o_next)
        tgt = subst(F, {z: oe})
        if tgt is e:
            return True
        # push F through the ite
        if oe.op == 'ite':
            tgt = ite(oe.a[0], subst(F, {z: oe.a[1]}), subst(F, {z: oe.a[2]}))
            return tgt is e or prove.quick_eq(tgt, e)
        return prove.quick_eq(tgt, e)
    return False


def _retry(self, c, e):
    # signals 'changed' by returning False with a new form installed
    c.form = ('last', e)
    c.pending = True
    return False


Exec._retry = _retry


def simp2(self, v):
    c = self.decide(v.a[0])
    if c is TRUE:
        return v.a[1]
    if c is FALSE:
        return v.a[2]
    return v


Exec.simp2 = simp2


def trip(self, X, k, S):
    """index of the first iteration in which exit condition X(k) holds, in closed form"""
    if X.sp & S:
        return None
    if k not in X.sp:
        if X is TRUE:
            return I0
        return None
    if X.op == 'or':
        # all alternatives but one infeasible?
        return None
    if X.op not in ('le', 'eq', 'lt'):
        return None
    d = X.a[0]
    if d.sort == 'R':
        return None
    st = self.strides(d, [k])
    if st is None:
        return None
    d0, s = st
    s = s.get(k)
    if s is None:
        return None
    if X.op == 'le':
        # d0 + s k <= 0
        if s.op == 'const' and s.a[0] < 0:
            m = -s.a[0]
            # k >= d0/m
            q = d0 if m == 1 else tm.idiv(add(d0, I(m - 1)), I(m))
            if self.entails(ge(d0, I0)):
                return q
            return ite(ge(d0, I0), q, I0)
        if s.op != 'const' and self.entails(lt(s, I0)):
            q = polydiv(d0, neg(s))
            if q is not None:
                if self.entails(ge(q, I0)):
                    return q
                return ite(ge(q, I0), q, I0)
        return None
    if X.op == 'eq':
        q = polydiv(neg(d0), s)
        if q is None:
            return None
        if self.entails(ge(q, I0)):
            return q
        return None
    return None


def first_exit(self, d, stay, L, k, S):
    """a loop that is left when k reaches q >= 0, tested in each iteration before anything is conditional:
    no earlier iteration has left it, so k <= q, and to stay is k < q"""
    x = not_(d) if stay else d
    if x.op == 'not' and x.a[0].op == 'eq':
        # to stay is k == 0
        if trip(self, x.a[0], k, S) is I0:
            return lt(k, I1) if stay else le(I1, k)
        return d
    if x.op != 'eq':
        return d
    q = trip(self, x, k, S)
    if q is None or k in q.sp:
        return d
    if q is I0:
        return FALSE if stay else TRUE
    return lt(k, q) if stay else le(q, k)


Exec.first_exit = first_exit


def atoms_of(t, out):
    if t.op in ('and', 'or'):
        for x in t.a:
            atoms_of(x, out)
    elif t.op == 'not':
        atoms_of(t.a[0], out)
    elif t.op in ('le', 'lt', 'eq'):
        out.add(t)
    elif t.op == 'ite':
        atoms_of(t.a[0], out)


def houdini(self, L, carr, invs, res, k, g0, init, S):
    """infer inductive facts about carried values without closed form; returns True if the set changed"""
    st = getattr(self, '_houd', None)
    if st is None:
        st = self._houd = {}
    hk = (id(L), k)
    uns = [c for c in carr.values() if c.form is None and not c.binders and c.sort in ('I', 'R')]
    nexts = {}
    for c in uns:
        e = res.next.get(c.key)
        if e is not None:
            nexts[c] = e
    initmap = {c.marker: c.init for c in uns}
    for c in carr.values():
        if c.form is None and c.sort == 'P' and c.sym.op == 'ptr':
            initmap[c.marker] = c.init.a[2]
            e = res.next.get(c.key)
    again = hk in st and st.get((hk, 'n'), 0) < 2 and st.get((hk, 'stable'))
    if hk not in st or again:
        cands = []
        st[(hk, 'stable')] = False
        st[(hk, 'n')] = st.get((hk, 'n'), 0) + 1
        first = hk not in st
        seen = st.setdefault((hk, 'seen'), set())
        ints = [c for c in uns if c.sort == 'I']
        reals = [c for c in uns if c.sort == 'R']
        for c in ints if first else ():
            for b in (c.init, sub_(c.init, I1), I0):
                if b.sp & S:
                    continue
                cands += [ge(c.sym, b), le(c.sym, b)]
            for o in ints:
                if o is not c:
                    cands += [lt(c.sym, o.sym), le(c.sym, o.sym)]
                    if not (o.init.sp & S):
                        cands += [le(c.sym, o.init), lt(c.sym, o.init), ge(c.sym, o.init)]
        for c in reals if first else ():
            if not (c.init.sp & S):
                cands += [ge(c.sym, c.init), le(c.sym, c.init)]
            for o in reals:
                if o is not c:
                    cands += [le(c.sym, o.sym), lt(c.sym, o.sym)]
                    if not (o.init.sp & S):
                        cands += [le(c.sym, o.init), ge(c.sym, o.init)]
        # comparison atoms of the body, transported from the new value to the carried variable
        atoms = set()
        for e in list(nexts.values()):
            for u in subterms(e):
                if u.op == 'ite':
                    atoms_of(u.a[0], atoms)
        for _, _, g in res.exits:
            atoms_of(g, atoms)
        atoms_of(res.cont, atoms)
        for f in self.facts:
            pass
        news = set()
        for c, e in nexts.items():
            vals = [u for u in subterms(e) if u.op == 'ite']
            br = set()
            for u in vals:
                br.add(u.a[1])
                br.add(u.a[2])
                if u is not e and u.sort == e.sort:
                    br.add(replace_node(e, u, u.a[1]))
                    br.add(replace_node(e, u, u.a[2]))
            br.add(e)
            for b in br:
                if b is c.sym or b.op == 'const' or b.sort != c.sort:
                    continue
                for a in list(atoms):
                    r = replace_node(a, b, c.sym)
                    if r is not a:
                        news.add(r)
        for a in list(atoms) + list(news):
            for x in (a, not_(a)):
                cands.append(x)
                if x.op == 'lt':
                    cands.append(tm._cmp('le', x.a[0]))
        # drop what does not talk about carried values
        cands = [c for c in dict.fromkeys(cands) if c.op != 'const' and c not in seen and c.sp & frozenset(initmap) and k not in c.sp]
        seen.update(cands)
        # must hold initially
        keep = []
        isub = dict(initmap)
        for c in cands:
            ci = subst(c, isub)
            if ci.sp & S:
                continue
            if self._ent_base(ci):
                keep.append(c)
        st[hk] = keep
        if self.trace > 2: print('CANDS', [show(c, 7) for c in cands], 'KEEP', [show(c, 7) for c in keep])
        n0 = max(invs, default=-1) + 1
        for n, c in enumerate(keep):
            invs[n0 + n] = c
        if keep or first:
            return bool(keep)
    # prune non-inductive ones: assume all, check each for the next state under the continue guard
    keepd = dict(invs)
    removed = False
    nsub = {}
    for c in uns:
        e = nexts.get(c)
        nsub[c.marker] = e if e is not None else c.sym
    for c in carr.values():
        if c.form is None and c.sort == 'P' and c.sym.op == 'ptr':
            e = res.next.get(c.key)
            if e is None or e.op != 'ptr':
                nsub[c.marker] = tm.fresh('unk', 'I')
            else:
                nsub[c.marker] = e.a[2]
    for n, c in list(invs.items()):
        goal = subst(c, nsub)
        fs = self.facts + list(lits(res.cont))
        if goal in set(invs.values()):
            continue
        r, _ = smt.check(fs, self.qfacts, goal, timeout=1500, nonlin=False)
        if r != 'valid':
            if self.trace > 2: print('DROPINV', show(c, 8), r)
            del invs[n]
            removed = True
    if not removed and not st.get((hk, 'stable')) and st.get((hk, 'n'), 0) < 2:
        st[(hk, 'stable')] = True
        return True
    return removed


def _ent_base(self, c):
    """entailment from the facts valid at loop entry"""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    r, _ = smt.check(self.facts, self.qfacts, c, timeout=700, nonlin=False)
    return r == 'valid'


Exec._ent_base = _ent_base
Exec.exec_loop = exec_loop
