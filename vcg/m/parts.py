"""Part iterators of unique slices (C03).

The number of parts is 2^k; k ranges over all of 0..63, so nothing is bounded.  Part i is the one reached
by k halvings, the bits of i from the top choosing left (0) or right (1): its first item lo_k and length
ln_k are ghost sequences defined by the halving rule itself.  lemmas.py proves, for every k, that these
parts tile the slice: B(0) = 0, B(i+1) = B(i) + length of part i, B(2^k) = n, with B(i) the start of part i."""
import re, time, z3
from core import *
from cut import Cutter

KS = list(range(64))


class Walk:
    """The walk down to part idx.  Level e: the block of 2^e parts that contains the part; level k is the whole
    slice, level 0 the part itself; bit e of the index chooses the half of level e+1 that is level e."""
    def __init__(self, p, tag, k, bits, base, n):
        self.p, self.tag, self.k, self.bits, self.base, self.n = p, tag, k, bits, base, n
        self.conc = isinstance(n, int) and isinstance(base, int)

    def at(self, e):
        """(absolute start, length) at level e."""
        if self.conc:
            lo, ln = self.base, self.n
            for i in range(self.k - 1, e - 1, -1):
                if self.bits(i):
                    lo, ln = lo + ln // 2, ln - ln // 2
                else:
                    ln = ln // 2
            return lo, ln
        if e == self.k:
            return self.base, self.n
        return z3.Int('%s.lo.%d' % (self.tag, e)), z3.Int('%s.ln.%d' % (self.tag, e))

    def facts(self, e):
        if self.conc:
            return []
        lo, ln = self.at(e)
        return [ule(self.base, lo), ule(0, ln), ule(add(lo, ln), add(self.base, self.n)), ule(ln, self.n)]

    def step(self, e):
        """Definition of level e from level e+1."""
        if self.conc or not 0 <= e < self.k:
            return []
        lo, ln = self.at(e + 1)
        lo1, ln1 = self.at(e)
        b = self.bits(e)
        h = lshr(ln, 1)
        return [eqv(lo1, add(lo, ite(b, h, 0))), eqv(ln1, ite(b, sub(ln, h), h))] + self.facts(e)


class Ghosts:
    def __init__(self, p, walks, drop=()):
        self.p, self.walks, self.drop = p, walks, drop
        self.kinds = [(w.tag, x) for w in walks for x in ('ln', 'lo', 'hi', 'dlo', 'dhi')]
        self.k = self.k0 = walks[0].k

    def split(self):
        """One case per exponent that joined: those from this one up (they are explored in ascending order)."""
        p = self.p
        n = len(p.pc)
        ks = [k for k in KS if k >= self.k]
        for k in ks:
            c = eqv(p.known[0], 1 << k)
            if k == ks[-1]:
                p.assume(c)
            elif not p.choose(c, 'parts'):
                continue
            p.known = (p.known[0], 1 << k)
            self.drop = p.pc[n:]
            self.k = k
            for w in self.walks:
                w.k = k
            return

    def level(self, visit):
        """Level at the given visit of a loop head (one level per iteration)."""
        self.e = self.k - (visit - 1)

    def reach(self):
        return [c for w in self.walks for c in w.step(self.e) if c is not True]

    def term(self, kind):
        tag, what = kind
        e = self.e
        for w in self.walks:
            if w.tag == tag and 0 <= e <= w.k:
                lo, ln = w.at(e)
                if what in ('dlo', 'dhi') and isinstance(w.base, int):
                    return None
                return {'lo': lambda: lo, 'ln': lambda: ln, 'hi': lambda: add(lo, ln), 'dlo': lambda: sub(lo, w.base),
                        'dhi': lambda: sub(add(lo, ln), w.base)}[what]()
        return None

    def candidates(self, fr):
        return []

    def facts(self):
        """What is known at the current level: the facts of the walks, and the definition of the next one."""
        out = []
        for w in self.walks:
            out += [c for c in w.facts(self.e) + w.step(self.e - 1) if c is not True]
        return out

    def dig(self, val, num):
        return ''


# ------------------------------------------------------------------ the iterator over parts of raw items
def sip_name(c):
    return 'rc_slice::internal::slice_model::slice_items::SliceItemsParts<%s>' % ('ZItem' if c.zst else 'SItem')


class Q:
    """An arbitrary state of a part iterator: storage b, items [lo, lo+n), P parts, f taken from the front, g from the back."""
    def __init__(self, c, k=None, conc=None):
        p = c.p
        self.c, self.k = c, k
        self.b = c.h.new_block()
        z = c.zst
        if conc:
            self.lo, self.n, self.f, self.g = conc
            if z:
                self.lo = 0
            self.b.len = add(self.lo, self.n) + 2
        else:
            self.lo = 0 if z else p.fresh('q.lo')
            self.n = p.fresh('q.n')
            p.assume(ult(self.n, 1 << 60))
            if not z:
                p.assume(And(ult(self.lo, 1 << 60), ule(add(self.lo, self.n), self.b.len)))
            self.f, self.g = p.fresh('q.f'), p.fresh('q.g')
        self.P = p.fresh('q.P') if not conc else 1 << k
        p.assume(ule(1, self.P))
        p.assume(ule(self.P, 1 << 63))
        self.kfact = None
        if not conc:
            p.assume(ule(add(self.f, self.g), self.P))
            if k is not None:
                self.kfact = eqv(self.P, 1 << k)
                p.known = (self.P, 1 << k)
                p.assume(self.kfact)
        self.left = sub(sub(self.P, self.f), self.g)

    def value(self):
        c = self.c
        ty = c.p.prog.by_s.get(sip_name(c))
        if ty is None:
            raise Unsupported('no type ' + sip_name(c))
        return c.h.struct_raw(ty, {'orig_ptr': IPtr(self.b, self.lo), 'orig_len': self.n, 'num_parts': self.P,
                                   'num_yielded_front': self.f, 'num_yielded_back': self.g}, 'args')

    def walks(self):
        k, f, g = self.k, self.f, self.g
        p = self.c.p

        def bit(x, e):
            return eqv(simp(iv(idiv(x, 1 << e)) % 2), 1) if not isinstance(x, int) else bool((x >> e) & 1)
        F = Walk(p, 'F', k, lambda e: bit(f, e), self.lo, self.n)
        R = Walk(p, 'R', k, lambda e: Not(bit(g, e)), self.lo, self.n)
        s, (e, n) = F.at(0)[0], R.at(0)
        p.assume(Implies(Not(eqv(self.left, 0)), ule(s, add(e, n))))     # B is monotone (lemmas.py)
        return F, R

    def B(self, i):
        """Boundary before part i (i = P: the end), relative to the start; facts: lemmas.py."""
        p = self.c.p
        if not hasattr(self, 'bf'):
            Q.n = getattr(Q, 'n', 0) + 1
            self.bf, self.at = z3.Function('B', z3.IntSort(), z3.IntSort()), []
            p.assume(self.bf(z3.IntVal(0)) == 0)
            p.assume(self.bf(iv(self.P)) == iv(self.n))
            self.at = [z3.IntVal(0), iv(self.P)]
        i = iv(i)
        t = self.bf(i)
        if not any(i.eq(j) for j in self.at):
            for j in self.at:
                p.assume(z3.Implies(i <= j, t <= self.bf(j)))
                p.assume(z3.Implies(j <= i, self.bf(j) <= t))
            self.at.append(i)
        return t

    def region(self, f=None, g=None):
        """(absolute start, length) of the parts f..P-g."""
        s = self.B(self.f if f is None else f)
        e = self.B(sub(self.P, self.g if g is None else g))
        return (0 if self.c.zst else add(self.lo, s)), simp(e - s)


def fields(post, v):
    """(ptr, orig_len, P, f, g) of a part iterator value."""
    g = [post.fld(v, x) for x in ('orig_ptr', 'orig_len', 'num_parts', 'num_yielded_front', 'num_yielded_back')]
    return g


def same_state(c, q, v, f, g, what='the iterator'):
    ptr, n, P, vf, vg = fields(c.post, v)
    ptr = c.post.ip(ptr)
    pr = c.post.prove
    pr('range', And(eqv(n, q.n), eqv(P, q.P)), '%s covers another slice' % what)
    if not c.zst:
        if not isinstance(ptr, IPtr) or ptr.block is not q.b:
            c.post.bad('range', '%s refers to other memory' % what)
        else:
            pr('range', Or(eqv(q.n, 0), eqv(ptr.idx, q.lo)), '%s covers another slice' % what)
    pr('range', eqv(vf, f), '%s has the wrong number of parts taken from the front' % what)
    pr('range', eqv(vg, g), '%s has the wrong number of parts taken from the back' % what)


def check_items(c, q, it, lo, ln, what='the part yielded'):
    """it: SliceItems value; must be exactly the items [lo, lo+ln) of q's block."""
    post = c.post
    ptr, n = post.fld(it, 'ptr'), post.fld(it, 'len')
    post.prove('range', eqv(n, ln), '%s has the wrong length' % what)
    if not c.zst:
        if not isinstance(ptr, IPtr):
            raise Unsupported('part at %r' % (ptr,))
        if ptr.block is not q.b:
            post.prove('range', eqv(ln, 0), '%s refers to other memory' % what)
        else:
            post.prove('range', Or(eqv(ln, 0), eqv(ptr.idx, lo)), '%s starts at the wrong item' % what)


# ---- inner functions, for one exponent k
def inner_next(back):
    def spec(k, shared, conc=None):
        def run(c):
            q = Q(c, k, conc)
            F, R = q.walks()
            if not conc:
                Cutter(c.p, shared, Ghosts(c.p, [F, R], [q.kfact]))
            o, r = c.ref(q.value())
            x = c.run(r)
            c.must_not_panic()
            if x.var == 0:
                c.post.prove('range', eqv(q.left, 0), 'no part yielded although parts remain')
                same_state(c, q, o.val, q.f, q.g)
                return
            c.post.prove('range', Not(eqv(q.left, 0)), 'a part yielded although none remains')
            W = R if back else F
            for cc in W.step(0):
                c.p.assume(cc)
            lo, ln = W.at(0)
            it = c.p.getfield(x, 0)
            check_items(c, q, it, lo, ln)
            same_state(c, q, o.val, q.f if back else add(q.f, 1), add(q.g, 1) if back else q.g)
        return run
    return spec


def inner_view(k, shared, conc=None):
    """The remaining items as a slice."""
    def run(c):
        q = Q(c, k, conc)
        F, R = q.walks()
        if not conc:
            Cutter(c.p, shared, Ghosts(c.p, [F, R], [q.kfact]))
        o, r = c.ref(q.value())
        x = c.run(r)
        c.must_not_panic()
        for W in (F, R):
            for cc in W.step(0):
                c.p.assume(cc)
        if c.p.choose(eqv(q.left, 0), 'exhausted'):
            c.post.prove('range', eqv(x.meta, 0), 'the remaining-items view is not empty although no part remains')
        else:
            s = F.at(0)[0]
            e = add(*R.at(0))
            c.post.check_view(x, (q.b, s, sub(e, s)))
        same_state(c, q, o.val, q.f, q.g)
    return run


INNER = {'next': inner_next(False), 'next_back': inner_next(True), 'view': inner_view}


def explore_inner(prog, m, fl, zst, T, fid, kind, tmax=300):
    """All exponents; loop states reached with one exponent are not explored again for another."""
    import drive
    from cut import Restart
    t0 = time.time()
    tmpl, ban, keep = {}, {}, set()
    while True:
        sh = dict(tmpl=tmpl, ban=ban, keep=keep)
        tot = {'paths': 0, 'viol': {}, 'unsup': [], 'nobl': {}, 'fns': set(), 'contracts': set(), 'cut': 0}
        again = False
        for k in KS:
            def stop():
                raise Restart()
            try:
                r = drive.explore(prog, m, fl, zst, T, fid, INNER[kind](k, sh), tmax=tmax, name=kind, restart=stop, after=15)
            except Restart:
                again = True
                break
            for a in ('paths', 'cut'):
                tot[a] += r[a]
            for cl, d in r['viol'].items():
                tot['viol'].setdefault(cl, {}).update({(msg, k): s for msg, s in d.items()})
            tot['unsup'] += r['unsup']
            for cl, n in r['nobl'].items():
                tot['nobl'][cl] = tot['nobl'].get(cl, 0) + n
            tot['fns'] |= r['fns']
            if r['viol'] or r['unsup'] or time.time() - t0 > tmax:
                if time.time() - t0 > tmax:
                    tot['unsup'].append('budget')
                break
        if not again:
            break
    if tot['viol']:
        confirm(prog, m, fl, zst, T, fid, kind, tot)
    tot['time'] = time.time() - t0
    return tot


def confirm(prog, m, fl, zst, T, fid, kind, tot, tmax=60):
    """A condition failed for joined states: look for actual states in which it fails."""
    import drive
    import random
    rnd = random.Random(1)
    found = {}
    last = sorted({k for d in tot['viol'].values() for _, k in d})
    ks = [0, 1, 2, 3] + sorted({k for k in last + [max(last) + 1, 4, 5, 6, 8, 11, 17, 33, 62, 63] if 3 < k < 64})
    todo = []
    for k in ks:
        P = 1 << k
        small = P <= 8
        near = range(P + 1) if small else sorted({0, 1, 2, 3, P // 2 - 1, P // 2, P // 2 + 1, P // 4, P - 3, P - 2, P - 1, P} | {(1 << j) for j in range(0, k, 7)})
        lens = [0, 1, 2, 3, 5, 7, 8, 9, 13] if small else [0, 1, 5, min(P, 1 << 59), min(P + 3, 1 << 59), 3 * min(P // 2, 1 << 57)]
        cs = [(k, n, f, g) for n in lens for f in near for g in near if f + g <= P]
        for _ in range(300):
            f = rnd.randrange(P + 1)
            cs.append((k, rnd.randrange(min(4 * P + 9, 1 << 59)), f, rnd.randrange(P - f + 1)))
        rnd.shuffle(cs)
        todo.append(cs)
    t0 = time.time()
    while any(todo) and not found and time.time() - t0 < tmax:
        for cs in todo:
            if not cs or found:
                continue
            k, n, f, g = cs.pop()
            r = drive.explore(prog, m, fl, zst, T, fid, INNER[kind](k, {}, (3, n, f, g)), tmax=tmax, name=kind)
            for cl, d in r['viol'].items():
                for msg, s in d.items():
                    found.setdefault(cl, {})['%s [%d items in %d parts, %d taken from the front, %d from the back]' % (msg, n, 1 << k, f, g)] = s
    if not found:
        tot['unsup'] += ['not confirmed on concrete states: ' + msg for d in tot['viol'].values() for msg, _ in d][:3]
    tot['viol'] = found


def inner_fns(prog, zst):
    """The functions of the inner iterator that get a contract: kind -> [function id]."""
    t = 'SliceItemsParts<h::%s>' % ('ZItem' if zst else 'SItem')
    t2 = t.replace('Parts<', 'Parts::<')
    out = {}
    for f in prog.fns.values():
        n = f['name']
        for kind, suf in (('next', '%s as std::iter::Iterator>::next' % t), ('next_back', '%s as std::iter::DoubleEndedIterator>::next_back' % t),
                          ('view', t2 + '::as_slice'), ('view', t2 + '::as_mut_slice')):
            if n.endswith(suf) and f.get('blocks'):
                out.setdefault(kind, []).append(f['id'])
    return out


# ------------------------------------------------------------------ RcSliceMutParts / ArcSliceMutParts
def use_contracts(c, qs):
    """Calls of the inner iterator's functions go by contract."""
    p = c.p
    for kind, ids in inner_fns(c.prog, c.zst).items():
        for fid in ids:
            p.intercept[fid] = lambda f, args, dty, kind=kind: by_contract(c, qs, kind, f, args, dty)


def by_contract(c, qs, kind, f, args, dty):
    p, h = c.p, c.h
    a = args[0]
    if not isinstance(a, Ptr):
        raise Unsupported('receiver %r' % (a,))
    h.contract_used.add(('parts:' + kind, f['id']))
    v = p.load(a.obj, a.path)
    ptr, n, P, vf, vg = fields(c.post, v)
    q = None
    for x in qs:
        if (c.zst or isinstance(ptr, IPtr) and ptr.block is x.b) and p.valid(And(eqv(n, x.n), eqv(P, x.P), True if c.zst else eqv(ptr.idx, x.lo))) is True:
            q = x
    if q is None:
        raise Unsupported('part iterator of unknown origin')
    if p.valid(ule(add(vf, vg), P)) is not True:
        c.post.bad('contract', 'a part iterator yields more parts than it has')
        raise Violation('contract', 'a part iterator yields more parts than it has')
    left = sub(sub(P, vf), vg)
    d = c.prog.types[v.ty]
    ix = {nm: i for i, (nm, _) in enumerate(d['variants'][0]['fields'])}
    if kind == 'view':
        if p.choose(eqv(left, 0), 'exhausted'):
            b = Block('dangling', 0, c.zst)
            b.fresh_storage = True
            return Fat(IPtr(b, 0), 0)
        s, ln = q.region(vf, vg)
        c.m.storage_alive(p, q.b, ln, 'slice formed')
        return Fat(IPtr(q.b, s), ln)
    if p.choose(eqv(left, 0), 'exhausted'):
        return h.none(dty)
    if kind == 'next':
        s, e, f2, g2 = q.B(vf), q.B(add(vf, 1)), add(vf, 1), vg
    else:
        s, e, f2, g2 = q.B(sub(sub(P, vg), 1)), q.B(sub(P, vg)), vf, add(vg, 1)
    v.f[ix['num_yielded_front']], v.f[ix['num_yielded_back']] = f2, g2
    return h.some(dty, h.slice_items(q.b, 0 if c.zst else add(q.lo, s), simp(e - s)))


def outer(c):
    """An arbitrary RcSliceMutParts / ArcSliceMutParts."""
    T = c.h.T
    if T.get('MP') is None:
        raise Unsupported('type of the part iterator not found')
    q = Q(c)
    s, ln = q.region()
    use_contracts(c, [q])
    v = c.h.struct_raw(T['MP'], {'iter': q.value(), 'alloc': c.h.alloc_field(q.b, ln, c.h.fty(T['MP'], 'alloc'))}, 'args')
    c.h.owned_pre.append((q.b, s, ln))
    return q, v


def check_outer(c, q, v, f, g, what='the iterator'):
    post = c.post
    same_state(c, q, post.fld_raw(v, 'iter'), f, g, what)
    s, ln = q.region(f, g)
    post.check_alloc(post.opt(post.fld_raw(v, 'alloc')), q.b, ln, what)
    post.post_M.append((q.b, s, ln))


def q_next(c):
    back = 'back' in c.p.prog.fns[c.fid]['name']
    q, v = outer(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    if x.var == 0:
        c.post.prove('range', eqv(q.left, 0), 'no part yielded although parts remain')
        check_outer(c, q, o.val, q.f, q.g)
    else:
        c.post.prove('range', Not(eqv(q.left, 0)), 'a part yielded although none remains')
        c.result(x)
        if back:
            s, e, f, g = q.B(sub(sub(q.P, q.g), 1)), q.B(sub(q.P, q.g)), q.f, add(q.g, 1)
        else:
            s, e, f, g = q.B(q.f), q.B(add(q.f, 1)), add(q.f, 1), q.g
        c.post.check_unique(c.p.getfield(x, 0), (q.b, 0 if c.zst else add(q.lo, s), simp(e - s)), 'range', 'the part yielded')
        check_outer(c, q, o.val, f, g)
    c.close_unique()


def q_len(c):
    q, v = outer(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    xs = [x] if not isinstance(x, Agg) else [x.f[0], x.f[1].f[0] if x.f[1].var == 1 else None]
    for y in xs:
        if y is None:
            c.post.bad('len', 'no upper size hint')
        else:
            c.post.prove('len', eqv(y, q.left), 'wrong number of remaining parts')
    check_outer(c, q, o.val, q.f, q.g)
    c.close_unique()


def q_count(c):
    q, v = outer(c)
    x = c.run(v)
    c.must_not_panic()
    c.post.prove('len', eqv(x, q.left), 'wrong count')
    c.close_unique()


def q_view(c):
    q, v = outer(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    s, ln = q.region()
    c.post.check_view(x, (q.b, s, ln))
    check_outer(c, q, o.val, q.f, q.g)
    c.close_unique()


def q_drop(c):
    q, v = outer(c)
    c.run(v)
    c.must_not_panic()
    c.close_unique()


def any_count(c):
    """An arbitrary number of parts, split by its factors of two: 0, 2^j, or 2^j * (2c + 1) with c > 0."""
    p = c.p
    if p.choose(p.freshb('n.zero'), 'count'):
        return 0, False
    for j in range(64):
        if j == 63 or p.choose(p.freshb('n.%d' % j), 'count'):
            break
    if j == 63 or p.choose(p.freshb('n.pow2'), 'count'):
        return 1 << j, True
    o = p.fresh('n.odd')
    p.assume(And(ule(1, o), ult(o, 1 << (63 - j))))
    return simp((2 << j) * o + (1 << j)), False


def m_parts(c):
    """The conversion: panics exactly if the number of parts is not a power of two."""
    n, pow2 = any_count(c)
    b, lo, ln, v = c.h.unique()
    c.h.owned_pre.append((b, lo, ln))
    x = c.run(v, n)
    if c.panicked is not None:
        c.post.prove('panic', not pow2, 'panics although the number of parts is a power of two')
        c.close_unique()          # the items are dropped while unwinding
        return
    c.post.prove('panic', pow2, 'does not panic although the number of parts is not a power of two')
    q = Q.__new__(Q)
    q.c, q.k, q.b, q.lo, q.n, q.f, q.g, q.P, q.left = c, None, b, lo, ln, 0, 0, n, n
    c.result(x)
    check_outer(c, q, x, 0, 0)
    c.close_unique()


ROOTS = {'q_next': q_next, 'q_next_back': q_next, 'q_len': q_len, 'q_size_hint': q_len, 'q_count': q_count, 'q_as_slice': q_view,
         'q_as_mut_slice': q_view, 'q_drop': q_drop, 'm_parts': m_parts}
