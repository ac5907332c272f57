"""Part iterators of shared slices (C02): RcSliceParts, ArcSliceParts and the BinaryPartsIter inside.

The number of parts P is an arbitrary power of two.  A handle held by the iterator is known by the node it
covers: parts x .. x+m of the P parts.  What splitting, cloning, dereferencing and dropping such a handle
do is taken by contract (those operations have their own obligations, see specs.py).  The invariant of the
iterator: with f parts taken from the front and g from the back, its deque holds exactly the maximal nodes
inside f .. P-g, in order ("canonical" below), one handle each.  Facts used about that sequence (lemmas.py):
it starts with the largest node at f and goes on as the canonical sequence behind that node, it ends
likewise, it has N(x, y) nodes, and N(x, y) <= max(1, 2k-2) for P = 2^k."""
import z3
from core import *
from cut import Cutter
import parts
from parts import Q
from post import Stop


class TokV:
    """A strong handle to the node of parts x .. x+m.  src: (side, x, y) while m is only known to be maximal at that side of x .. y."""
    def __init__(self, own, x, m, src=None):
        self.own, self.x, self.m, self.src = own, x, m, src

    def __repr__(self):
        return 'handle(%s+%s)' % (self.x, self.m)

    def dig(self, val, num):
        return 'T%s(%s,%s)' % (self.own, num(self.x), num(self.m))


class Mid:
    """The canonical sequence for x .. y, one handle (of family own) per node."""
    def __init__(self, x, y, own):
        self.x, self.y, self.own = x, y, own


class DequeV:
    def __init__(self, front, mid, back, cap):
        self.front, self.mid, self.back, self.cap = front, mid, back, cap
        self.room = 0

    def dig(self, val, num):
        m = self.mid
        return 'D[%s;%s;%s;%s]' % (' '.join(val(c.val) for c in self.front), m and '%s..%s:%s' % (num(m.x), num(m.y), m.own),
                                   ' '.join(val(c.val) for c in self.back), num(self.cap))


class SeqV:
    """A std iterator over a deque: plain, cloned or mapped."""
    def __init__(self, dq, kind, fn=None):
        self.dq, self.kind, self.fn = dq, kind, fn

    def dig(self, val, num):
        return 'seq' + self.kind


def cap_of(k):
    return max(1, 2 * k - 2)


class World:
    def __init__(self, c, q):
        self.c, self.p, self.q = c, c.p, q
        c.p.bp = self
        self.N = z3.Function('N', z3.IntSort(), z3.IntSort(), z3.IntSort())
        self.owns, self.live, self.dropped = 0, [], []
        self.lev = []            # (side, x, y, i): 2^i is the size of the maximal node at that side of x .. y
        self.pw = set()
        if isinstance(q.P, int):
            self.capP = cap_of(q.P.bit_length() - 1)
        else:
            self.capP = c.p.fresh('capP', 8)
            c.p.assume(ule(1, self.capP))
        fns = c.prog.fns.values()
        S = 'rc_slice::%s::<h::%s>' % ('RcSlice' if c.fl == 'rc' else 'ArcSlice', 'ZItem' if c.zst else 'SItem')
        S2 = '<' + S.replace('::<', '<')
        t = {S + '::split_off_left': self.split_left, S + '::split_off_right': self.split_right,
             S + '::clone_left': self.clone_left, S + '::clone_right': self.clone_right,
             S2 + ' as std::clone::Clone>::clone': self.clone, S2 + ' as std::ops::Deref>::deref': self.deref}
        for f in fns:
            h = t.get(f['name'])
            if h is not None:
                c.p.intercept[f['id']] = h

    # ---- facts
    def pow2(self, i):
        """P is a power of two: below 2^i, or a multiple of it."""
        P = self.q.P
        if i not in self.pw and not isinstance(P, int) and 0 < i <= 63:
            self.pw.add(i)
            return [Or(ult(P, 1 << i), eqv(imod(P, 1 << i), 0))]
        return []

    def own(self):
        self.owns += 1
        self.live.append(self.owns)
        return self.owns

    def count(self, x, y):
        if not isinstance(x, int) or not isinstance(y, int):
            n = self.N(iv(x), iv(y))
            self.p.assume(And(n >= 0, (n == 0) == (iv(x) == iv(y)), n <= iv(self.capP)))
            return n
        return len(canonical(x, y))

    def len(self, dq):
        n = len(dq.front) + len(dq.back)
        if dq.mid is not None:
            n = add(n, self.count(dq.mid.x, dq.mid.y))
        return n

    def maximal(self, side, x, y, i):
        """The largest node at that end of x .. y has 2^i parts."""
        for s, bx, by, j in self.lev:
            if s != side:
                continue
            off = sub(x, bx) if side == 'F' else sub(by, y)
            other = eqv(y, by) if side == 'F' else eqv(x, bx)
            if isinstance(off, int) and 0 < off < (1 << j) and other is True:
                # the end lies inside a node of 2^j parts that is itself inside x .. y
                if off % (1 << i) == 0 and off + (1 << i) <= (1 << j) and off % (2 << i) != 0:
                    return True
        e = x if side == 'F' else y
        n = sub(y, x)
        if isinstance(e, int) and isinstance(n, int):
            return e % (1 << i) == 0 and (1 << i) <= n and not (e % (2 << i) == 0 and (2 << i) <= n)
        return And(eqv(imod(e, 1 << i), 0), ule(1 << i, n), Or(Not(eqv(imod(e, 2 << i), 0)), ult(n, 2 << i)))

    def unfold(self, dq, side):
        """Make the node at that end explicit."""
        p, m = self.p, dq.mid
        if m is None:
            return
        if p.valid(Not(eqv(m.x, m.y))) is not True and p.choose(eqv(m.x, m.y), 'deque empty'):
            self.live.remove(m.own)      # a family of no handles
            dq.mid = None
            return
        n = p.fresh('node')
        p.assume(And(ule(1, n), ule(add(m.x, n), m.y)))
        c0 = self.count(m.x, m.y)
        if side == 'F':
            t = TokV(self.own(), m.x, n, ('F', m.x, m.y))
            dq.mid = Mid(add(m.x, n), m.y, m.own)
            dq.front.append(Obj('tok', t))
        else:
            t = TokV(self.own(), sub(m.y, n), n, ('B', m.x, m.y))
            dq.mid = Mid(m.x, sub(m.y, n), m.own)
            dq.back.insert(0, Obj('tok', t))
        p.assume(eqv(c0, add(1, self.count(dq.mid.x, dq.mid.y))))
        t.dq = dq

    def resolve(self, t):
        """The number of parts of the node as a number."""
        if isinstance(t.m, int):
            return t.m
        p = self.p
        side, x, y = t.src
        i = None
        if p.valid(False) is False:
            mv = lambda e: p.model.eval(iv(e), model_completion=True).as_long()
            a, b = mv(x), mv(y)
            n, e = b - a, a if side == 'F' else b
            i = min((e & -e).bit_length() - 1 if e else 64, n.bit_length() - 1)
            for j in (i, i + 1):
                for c in self.pow2(j):
                    p.assume(c)
            if p.valid(self.maximal(side, x, y, i)) is not True:
                i = None
        if i is None:
            for i in range(64):
                if p.choose(self.maximal(side, x, y, i), 'level'):
                    break
            else:
                raise Prune()
        n = t.m
        p.assume(eqv(n, 1 << i))
        s = lambda e: simp(z3.substitute(e, (n, z3.IntVal(1 << i)))) if z3.is_expr(e) else e
        t.x, t.m, t.src = s(t.x), 1 << i, None
        d = t.dq
        if d.mid is not None:
            d.mid.x, d.mid.y = s(d.mid.x), s(d.mid.y)
        for c in d.front + d.back:
            u = c.val
            if isinstance(u, TokV) and not isinstance(u.m, int):
                u.x, u.src = s(u.x), (u.src[0], s(u.src[1]), s(u.src[2]))
        self.lev.append((side, x, y, i))
        # the canonical sequence behind the first part of this node: nodes of 1, 2, 4, .. parts, then the rest
        if i:
            if side == 'F':
                a, b = self.count(add(x, 1), y), self.count(add(x, 1 << i), y)
            else:
                a, b = self.count(x, sub(y, 1)), self.count(x, sub(y, 1 << i))
            p.assume(eqv(a, add(b, i)))
        return t.m

    # ---- handles by contract
    def tok(self, a):
        v = self.p.strip(a) if isinstance(a, Agg) else a
        if isinstance(v, Ptr):
            v = self.p.load(v.obj, v.path)
        if not isinstance(v, TokV):
            raise Unsupported('handle %r' % (v,))
        return v

    def halves(self, t):
        n = self.resolve(t)
        if n == 1:
            self.c.post.bad('range', 'a part is split further')
            raise Stop()
        return n // 2

    def split_left(self, f, args, dty):
        t = self.tok(args[0])
        h = self.halves(t)
        r = TokV(self.own(), t.x, h)
        t.x, t.m = add(t.x, h), h
        return r

    def split_right(self, f, args, dty):
        t = self.tok(args[0])
        h = self.halves(t)
        r = TokV(self.own(), add(t.x, h), h)
        t.m = h
        return r

    def clone_left(self, f, args, dty):
        t = self.tok(args[0])
        return TokV(self.own(), t.x, self.halves(t))

    def clone_right(self, f, args, dty):
        t = self.tok(args[0])
        h = self.halves(t)
        return TokV(self.own(), add(t.x, h), h)

    def clone(self, f, args, dty):
        t = self.tok(args[0])
        r = TokV(self.own(), t.x, t.m, t.src)
        if t.src is not None:
            r.dq = t.dq
        return r

    def deref(self, f, args, dty):
        t = self.tok(args[0])
        q = self.q
        s, e = q.B(t.x), q.B(add(t.x, t.m))
        return Fat(IPtr(q.b, 0 if self.c.zst else add(q.lo, s)), simp(e - s))

    def drop_tok(self, t):
        if t.own not in self.live:
            raise Violation('handles', 'a handle is dropped twice')
        self.live.remove(t.own)
        self.dropped.append(t.own)
        self.p.may_unwind('destructor of a handle')

    def drop_deque(self, dq):
        for c in dq.front + dq.back:
            if isinstance(c.val, TokV):
                t = c.val
                if t.own not in self.live:
                    raise Violation('handles', 'a handle is dropped twice')
                self.live.remove(t.own)
                self.dropped.append(t.own)
        if dq.mid is not None:
            if dq.mid.own not in self.live:
                raise Violation('handles', 'the remaining handles are dropped twice')
            self.live.remove(dq.mid.own)
            self.dropped.append(dq.mid.own)
        self.p.may_unwind('destructors of the handles kept')

    # ---- the deque
    def push(self, dq, v, side):
        p = self.p
        if not isinstance(v, TokV):
            raise Unsupported('pushed %r' % (v,))
        n = self.len(dq)
        if dq.room > 0:
            dq.room -= 1
        elif p.valid(ult(n, dq.cap)) is True:
            r = 0
            for b in (32, 16, 8, 4, 2, 1):
                if p.valid(ult(add(n, r + b), dq.cap)) is True:
                    r += b
            dq.room = r
        elif p.choose(eqv(n, dq.cap), 'deque full'):
            old = dq.cap
            dq.cap = p.fresh('cap')
            p.assume(ult(old, dq.cap))
        o = Obj('tok', v)
        if side == 'F':
            dq.front.insert(0, o)
        else:
            dq.back.append(o)

    def end(self, dq, side):
        """Cell at that end, or None."""
        near, far = (dq.front, dq.back) if side == 'F' else (dq.back, dq.front)
        if not near:
            self.unfold(dq, side)
        if near:
            return near[0 if side == 'F' else -1]
        if dq.mid is None and far:
            return far[0 if side == 'F' else -1]
        return None

    def pop(self, dq, side):
        c = self.end(dq, side)
        if c is not None:
            for l in (dq.front, dq.back):
                if any(c is x for x in l):
                    l[:] = [x for x in l if x is not c]
            dq.room += 1
            return c.val
        return None

    # ---- states
    def initial(self, capinv=True):
        q, p = self.q, self.p
        x, y = q.f, sub(q.P, q.g)
        cap = p.fresh('cap', 62)
        if isinstance(x, int) and isinstance(y, int):
            dq = DequeV([Obj('tok', TokV(self.own(), a, n)) for a, n in canonical(x, y)], None, [], cap)
            p.assume(ule(len(dq.front), cap))
        else:
            dq = DequeV([], Mid(x, y, self.own()), [], cap)
            p.assume(ule(self.count(x, y), cap))
        if capinv:
            p.assume(ule(self.capP, cap))
        return dq

    def value(self, capinv=True):
        c, q = self.c, self.q
        T = c.h.T
        if T.get('P') is None:
            raise Unsupported('type of the part iterator not found')
        it = c.prog.by_s.get('rc_slice::internal::bin_parts_iter::BinaryPartsIter<%s>' % c.prog.types[T['S']]['s'])
        if it is None:
            raise Unsupported('no type BinaryPartsIter')
        d = c.prog.types[it]
        self.dq = self.initial(capinv)
        f = {'num_parts': q.P, 'num_yielded_front': q.f, 'num_yielded_back': q.g, 'deque': self.dq}
        out = []
        for nm, ft in d['variants'][0]['fields']:
            if nm not in f:
                raise Unsupported('unknown field %s of BinaryPartsIter' % nm)
            out.append(f.pop(nm))
        if f:
            raise Unsupported('BinaryPartsIter has no field %s' % sorted(f))
        v = Agg(it, 0, out)
        d = c.prog.types[T['P']]
        if [nm for nm, _ in d['variants'][0]['fields']] != ['iter']:
            raise Unsupported('unknown fields of the part iterator')
        return Agg(T['P'], 0, [v])

    def check(self, v, f, g, what='the iterator'):
        """v is an iterator with f parts taken from the front and g from the back; returns the handles in it."""
        c, q, post = self.c, self.q, self.c.post
        it = post.fld_raw(v, 'iter')
        post.prove('range', eqv(post.fld(it, 'num_parts'), q.P), '%s has another number of parts' % what)
        post.prove('range', eqv(post.fld(it, 'num_yielded_front'), f), '%s has the wrong number of parts taken from the front' % what)
        post.prove('range', eqv(post.fld(it, 'num_yielded_back'), g), '%s has the wrong number of parts taken from the back' % what)
        dq = post.fld_raw(it, 'deque')
        if not isinstance(dq, DequeV):
            raise Unsupported('deque %r' % (dq,))
        x, y = f, sub(q.P, g)
        own = []
        ok = True
        for cells, side in ((dq.front, 'F'), (list(reversed(dq.back)), 'B')):
            for cell in cells:
                t = cell.val
                if not isinstance(t, TokV):
                    raise Unsupported('deque entry %r' % (t,))
                own.append(t.own)
                if not ok:
                    continue
                at = eqv(t.x, x) if side == 'F' else eqv(add(t.x, t.m), y)
                if not isinstance(t.m, int) and not (t.src[0] == side and self.p.valid(And(at, eqv(t.src[1], x), eqv(t.src[2], y))) is True):
                    self.resolve(t)
                    at = eqv(t.x, x) if side == 'F' else eqv(add(t.x, t.m), y)
                good = And(at, self.maximal(side, x, y, t.m.bit_length() - 1)) if isinstance(t.m, int) else at
                ok = post.prove('range', good, '%s does not hold the right parts' % what) and ok
                if side == 'F':
                    x = add(x, t.m)
                else:
                    y = sub(y, t.m)
        if dq.mid is not None:
            own.append(dq.mid.own)
            if ok:
                post.prove('range', And(eqv(dq.mid.x, x), eqv(dq.mid.y, y)), '%s does not hold the right parts' % what)
        elif ok:
            post.prove('range', eqv(x, y), '%s lacks parts' % what)
        if self.capinv:
            post.prove('capacity', ule(self.capP, dq.cap), '%s has not reserved enough room' % what)
        return own

    def close(self, own):
        """Every live handle is in exactly one place."""
        post = self.c.post
        post.nobl['handles'] = post.nobl.get('handles', 0) + 1
        if len(set(own)) != len(own):
            post.bad('handles', 'a handle is in two places')
        if any(o not in self.live for o in own):
            post.bad('handles', 'a handle that is held was dropped')
        if any(o not in own for o in self.live):
            post.bad('handles', 'a handle is lost')


def canonical(x, y):
    out = []
    while x < y:
        m = (x & -x) if x else 1 << 63
        while x + m > y:
            m >>= 1
        out.append((x, m))
        x += m
    return out


def levels(fr):
    """Numbers of parts a loop may be working on: integer locals, and 2^n for a counter with n steps to go."""
    for l in fr.locals:
        yield l.val
    for l in fr.locals:
        for v in [l.val] + (l.val.f if isinstance(l.val, Agg) else []):
            if isinstance(v, Agg) and len(v.f) >= 2 and all(type(x) is int for x in v.f[:2]) and 0 <= v.f[1] - v.f[0] < 64:
                yield 1 << (v.f[1] - v.f[0])


class Facts:
    """Facts kept at loop heads (see cut.py)."""
    fresh = True

    def __init__(self, w, base):
        self.w, self.q, self.base, self.drop, self.k0 = w, w.q, base, [], 0
        self.e, self.kinds = 0, []

    def level(self, visit):
        self.visit = visit

    def reach(self):
        return self.w.pow2(self.visit) + self.w.pow2(self.visit + 1)

    def term(self, kind):
        return None

    def facts(self):
        pw, self.w.pw = self.w.pw, set()
        return [c for i in sorted(pw) for c in self.w.pow2(i)]

    def joined(self):
        self.w.lev, self.w.dq.room = [], 0

    def candidates(self, fr):
        q = self.q
        out = [('some', Not(eqv(q.left, 0)))]
        seen = set()
        for v in levels(fr):
            if isinstance(v, int) and not isinstance(v, bool) and v > 0 and v & (v - 1) == 0 and v not in seen:
                seen.add(v)
                i = v.bit_length() - 1
                for c in self.w.pow2(i) + self.w.pow2(i + 1):
                    self.w.p.assume(c)
                for nm, e in (('f', q.f), ('b', sub(q.P, q.g))):
                    out.append(('D%s%d' % (nm, i), eqv(imod(e, v), 0)))
                    out.append(('M%s%d' % (nm, i), Or(Not(eqv(imod(e, 2 * v), 0)), ult(q.left, 2 * v))))
                out.append(('L%d' % i, ule(v, q.left)))
                out.append(('E%d' % i, ule(v, sub(q.P, q.f))))
        return out

    def dig(self, val, num):
        return ''


# ------------------------------------------------------------------ specifications
def world(c, shared=None, conc=None, capinv=True):
    q = Q(c, conc[0] if conc else None, conc[1:] if conc else None)
    q.b.fresh_storage = True
    w = World(c, q)
    w.capinv = capinv
    v = w.value(capinv)
    if conc is None and shared is not None:
        Cutter(c.p, shared, Facts(w, list(c.p.pc)))
    return w, q, v


def p_next(shared=None, conc=None, capinv=True):
    def run(c):
        back = 'back' in c.p.prog.fns[c.fid]['name']
        w, q, v = world(c, shared, conc, capinv)
        o, r = c.ref(v)
        x = c.run(r)
        c.must_not_panic()
        if x.var == 0:
            c.post.prove('range', eqv(q.left, 0), 'no part yielded although parts remain')
            w.close(w.check(o.val, q.f, q.g))
            return
        c.post.prove('range', Not(eqv(q.left, 0)), 'a part yielded although none remains')
        t = c.p.getfield(x, 0)
        if not isinstance(t, TokV):
            raise Unsupported('yielded %r' % (t,))
        w.resolve(t)
        c.post.prove('range', And(eqv(t.x, sub(sub(q.P, q.g), 1) if back else q.f), eqv(t.m, 1)), 'the part yielded is not the next one')
        own = w.check(o.val, q.f if back else add(q.f, 1), add(q.g, 1) if back else q.g)
        w.close(own + [t.own])
    return run


def p_len(shared=None, conc=None, capinv=True):
    def run(c):
        w, q, v = world(c, None, conc, capinv)
        o, r = c.ref(v)
        x = c.run(r)
        c.must_not_panic()
        xs = [x] if not isinstance(x, Agg) else [x.f[0], x.f[1].f[0] if x.f[1].var == 1 else None]
        for y in xs:
            if y is None:
                c.post.bad('len', 'no upper size hint')
            else:
                c.post.prove('len', eqv(y, q.left), 'wrong number of remaining parts')
        w.close(w.check(o.val, q.f, q.g))
    return run


def p_count(shared=None, conc=None, capinv=True):
    def run(c):
        w, q, v = world(c, None, conc, capinv)
        x = c.run(v)
        c.must_not_panic()
        c.post.prove('len', eqv(x, q.left), 'wrong count')
        w.close([])
    return run


def p_drop(shared=None, conc=None, capinv=True):
    def run(c):
        w, q, v = world(c, None, conc, capinv)
        c.run(v)
        c.must_not_panic()
        w.close([])
    return run


def p_as_slice(shared=None, conc=None, capinv=True):
    def run(c):
        w, q, v = world(c, None, conc, capinv)
        o, r = c.ref(v)
        x = c.run(r)
        c.must_not_panic()
        s, ln = q.region()
        c.post.check_view(x, (q.b, s, ln))
        w.close(w.check(o.val, q.f, q.g))
    return run


def p_clone(shared=None, conc=None, capinv=True):
    def run(c):
        w, q, v = world(c, shared, conc, capinv)
        o, r = c.ref(v)
        x = c.run(r)
        c.must_not_panic()
        w.close(w.check(o.val, q.f, q.g) + w.check(x, q.f, q.g, 'the clone'))
    return run


def p_new(shared=None, conc=None, capinv=True):
    def run(c):
        n, pow2 = parts.any_count(c)
        q = Q.__new__(Q)
        q.c, q.k, q.f, q.g, q.P, q.left = c, None, 0, 0, n, n
        q.b = c.h.new_block()
        q.b.fresh_storage = True
        q.lo, q.n = (0 if c.zst else c.p.fresh('q.lo')), c.p.fresh('q.n', 60)
        if not c.zst:
            c.p.assume(ule(add(q.lo, q.n), q.b.len))
        w = World(c, q) if isinstance(n, int) and n else None
        if w is None:
            q.P = 1
            w = World(c, q)
            q.P = n
        w.capinv = capinv
        t = TokV(w.own(), 0, n)
        x = c.run(t, n)
        if c.panicked is not None:
            c.post.prove('panic', not pow2, 'panics although the number of parts is a power of two')
            w.close([])               # the handle is dropped while unwinding
            return
        c.post.prove('panic', pow2, 'does not panic although the number of parts is not a power of two')
        if pow2:
            w.close(w.check(x, 0, 0))
    return run


SPEC = {'p_new': p_new, 'p_next': p_next, 'p_next_back': p_next, 'p_len': p_len, 'p_size_hint': p_len, 'p_count': p_count,
        'p_drop': p_drop, 'p_as_slice': p_as_slice, 'p_clone': p_clone}


# ------------------------------------------------------------------ discharging
def explore_root(prog, m, fl, zst, T, name, root, tmax=300):
    import drive
    sh = {}

    def restart():
        for x in ('canon', 'own'):
            sh.pop(x, None)

    def go(nm, fid, capinv):
        sh.clear()
        return drive.explore(prog, m, fl, zst, T, fid, SPEC[nm](sh, None, capinv), tmax=tmax, name=nm, restart=restart, after=15)
    r = go(name, root(name), True)
    if r['viol'].get('capacity'):
        # room for all handles is not kept: fine if nothing depends on it
        if name in ('p_next', 'p_next_back'):
            r2 = go(name, root(name), False)
            if set(r['viol']) == {'capacity'} and (r2['viol'] or r2['unsup']):
                r['viol'] = {}
                r['unsup'].append('room for the handles')
            else:
                r = r2
        else:
            need, sure = False, False
            for nm in ('p_next', 'p_next_back'):
                r2 = go(nm, root(nm), False)
                r['paths'] += r2['paths']
                if r2['viol'] or r2['unsup']:
                    need = True
                    confirm(prog, m, fl, zst, T, root(nm), nm, r2, False)
                    sure = sure or bool(r2['viol'].get('panic'))
            if not sure:
                del r['viol']['capacity']
            if need and not sure:
                r['unsup'].append('room for the handles')
    if r['viol'] and name not in ('p_new',) and set(r['viol']) != {'capacity'}:
        confirm(prog, m, fl, zst, T, root(name), name, r, True)
    return r


def confirm(prog, m, fl, zst, T, fid, name, tot, capinv, tmax=45):
    """A condition failed for joined states: look for actual states in which it fails."""
    import drive
    import random
    import time
    rnd = random.Random(1)
    found = {}
    todo = []
    for k in (0, 1, 2, 3, 4, 5, 6, 8, 11, 17, 32, 33, 62, 63):
        P = 1 << k
        near = range(P + 1) if P <= 8 else sorted({0, 1, 2, 3, P // 2 - 1, P // 2, P // 2 + 1, P // 4, P - 3, P - 2, P - 1, P} | {(1 << j) for j in range(0, k, 5)})
        cs = [(k, 3, 5, f, g) for f in near for g in near if f + g <= P]
        for _ in range(100):
            f = rnd.randrange(P + 1)
            cs.append((k, 3, rnd.randrange(min(4 * P + 9, 1 << 59)), f, rnd.randrange(P - f + 1)))
        rnd.shuffle(cs)
        todo.append(cs)
    t0 = time.time()
    while any(todo) and not found and time.time() - t0 < tmax:
        for cs in todo:
            if not cs or found:
                continue
            k, lo, n, f, g = cs.pop()
            r = drive.explore(prog, m, fl, zst, T, fid, SPEC[name](None, (k, lo, n, f, g), capinv), tmax=tmax, name=name)
            for cl, d in r['viol'].items():
                for msg, s in d.items():
                    found.setdefault(cl, {})['%s [%d items in %d parts, %d taken from the front, %d from the back]' % (msg, n, 1 << k, f, g)] = s
    if not found:
        tot['unsup'] += ['not confirmed on concrete states: ' + msg for d in tot['viol'].values() for msg in d][:3]
    tot['viol'] = found
