"""Assumed contracts of VecDeque and of the std iterators over it, for the deques of bparts.py."""
import re
import z3
from core import *
from models import model, TABLE, PREFIX, Models
from bparts import DequeV, SeqV, TokV, Mid, World
D = 'std::collections::VecDeque::'


def bp(p):
    w = getattr(p, 'bp', None)
    if w is None:
        raise Unsupported('a deque outside a part iterator')
    return w


def dq(p, a):
    v = a
    if isinstance(v, Ptr):
        v = p.load(v.obj, v.path)
    if not isinstance(v, DequeV):
        raise Unsupported('deque %r' % (v,))
    return v


def opt(p, dty, v):
    h = p.heap
    return h.none(dty) if v is None else h.some(dty, v)


@model(D + 'with_capacity')
def with_capacity(m, p, f, a, dty):
    bp(p)
    c = p.fresh('cap', 62)
    p.assume(ule(a[0], c))
    return DequeV([], None, [], c)


@model(D + 'new', '<std::collections::VecDeque>::default')
def new(m, p, f, a, dty):
    bp(p)
    return DequeV([], None, [], 0)


@model(D + 'len')
def length(m, p, f, a, dty):
    return bp(p).len(dq(p, a[0]))


@model(D + 'is_empty')
def is_empty(m, p, f, a, dty):
    return eqv(bp(p).len(dq(p, a[0])), 0)


@model(D + 'capacity')
def capacity(m, p, f, a, dty):
    return dq(p, a[0]).cap


@model(D + 'reserve', D + 'reserve_exact')
def reserve(m, p, f, a, dty):
    d = dq(p, a[0])
    n = add(bp(p).len(d), a[1])
    if p.valid(ule(n, d.cap)) is not True and not p.choose(ule(n, d.cap), 'room'):
        d.cap = p.fresh('cap', 62)
        p.assume(ule(n, d.cap))
    return Agg(dty, 0, [])


@model(D + 'push_front', D + 'push_back')
def push(m, p, f, a, dty):
    bp(p).push(dq(p, a[0]), a[1], 'F' if f['n'].endswith('front') else 'B')
    return Agg(dty, 0, [])


@model(D + 'pop_front', D + 'pop_back')
def pop(m, p, f, a, dty):
    return opt(p, dty, bp(p).pop(dq(p, a[0]), 'F' if f['n'].endswith('front') else 'B'))


@model(D + 'front', D + 'back', D + 'front_mut', D + 'back_mut')
def end(m, p, f, a, dty):
    c = bp(p).end(dq(p, a[0]), 'F' if 'front' in f['n'].rsplit('::', 1)[1] else 'B')
    return opt(p, dty, None if c is None else Ptr(c))


@model('<std::collections::VecDeque>::clone')
def clone(m, p, f, a, dty):
    w = bp(p)
    d = dq(p, a[0])
    r = DequeV([], None, [], p.fresh('cap', 62))
    copy(w, d, r)
    p.assume(ule(w.len(r), r.cap))
    return r


def copy(w, d, r):
    """Clones of all handles in d, in order, are appended to the empty deque r."""
    for cells, out in ((d.front, r.front), (d.back, r.back)):
        for c in cells:
            if not isinstance(c.val, TokV):
                raise Unsupported('deque entry %r' % (c.val,))
            out.append(Obj('tok', w.clone(None, [c.val], None)))
    if d.mid is not None:
        r.mid = Mid(d.mid.x, d.mid.y, w.own())
    for c in r.front + r.back:
        c.val.dq = r


@model(D + 'iter')
def it(m, p, f, a, dty):
    return SeqV(dq(p, a[0]), 'iter')


def seq(p, a):
    v = a
    if isinstance(v, Ptr):
        v = p.load(v.obj, v.path)
    return v if isinstance(v, SeqV) else None


@model('<std::collections::VecDeque>::extend')
def extend(m, p, f, a, dty):
    w, d, s = bp(p), dq(p, a[0]), seq(p, a[1])
    if s is None or s.kind != 'cloned':
        raise Unsupported('extend with %r' % (a[1],))
    if p.valid(eqv(w.len(d), 0)) is not True:
        raise Unsupported('extend of a deque with entries')
    d.front, d.back, d.mid = [], [], None
    copy(w, s.dq, d)
    n = w.len(d)
    if p.valid(ule(n, d.cap)) is not True and not p.choose(ule(n, d.cap), 'room'):
        d.cap = p.fresh('cap', 62)
        p.assume(ule(n, d.cap))
    d.room = 0
    return Agg(dty, 0, [])


def adapter(m, p, f, a, dty):
    s = seq(p, a[0]) if a else None
    if s is None:
        return NotImplemented
    name = f['n'].rsplit('::', 1)[1]
    if name == 'into_iter':
        return s
    if name == 'cloned' and s.kind == 'iter':
        return SeqV(s.dq, 'cloned')
    if name == 'map' and s.kind == 'iter':
        return SeqV(s.dq, 'map', (a[1], f))
    if name == 'sum' and s.kind == 'map':
        return total(p, s, dty)
    raise Unsupported('%s of an iterator over a deque' % name)


def closure_of(p, g):
    """The body behind a mapped function, found from the instance of map."""
    prog = p.prog
    for x in g.get('args') or []:
        d = prog.types[x]
        if d['k'] not in ('closure', 'fndef'):
            continue
        if d.get('inst') is not None:
            return prog.fns[d['inst']]
        c = [f for f in prog.fns.values() if '{closure#' in f['name'].rsplit('::', 1)[-1] and f.get('blocks') and f['arg_count'] == 2
             and (lambda t: t == x or prog.types[t]['k'] == 'ref' and prog.types[t]['to'] == x)(f['locals'][1])]
        if len(c) == 1:
            return c[0]
    raise Unsupported('mapped function not found')


def total(p, s, dty):
    """Sum of fn over all handles: fn is run for each explicit handle and for an arbitrary one; if it gives the
    number of items of the node, the sum over the canonical sequence x .. y is B(y) - B(x)."""
    w, q = bp(p), bp(p).q
    fn, g = s.fn
    body = closure_of(p, g)

    def value(t):
        o = Obj('tok', t)
        if p.prog.types[body_ty(p, g)]['k'] == 'closure':
            return p.run_fn(body['id'], [Ptr(Obj('env', fn)) if by_ref(p, body) else fn, Ptr(o)])
        return p.invoke_inst(body, [Ptr(o)], dty)
    r = 0
    for c in s.dq.front + s.dq.back:
        r = add(r, value(c.val))
    if s.dq.mid is not None:
        x, n = p.fresh('any.x'), p.fresh('any.n')
        p.assume(And(ule(1, n), ule(add(x, n), q.P)))
        v = value(TokV(-1, x, n))
        if p.valid(eqv(v, sub(q.B(add(x, n)), q.B(x)))) is not True:
            raise Unsupported('sum of an unknown function over a deque')
        r = add(r, sub(q.B(s.dq.mid.y), q.B(s.dq.mid.x)))
    return r


def body_ty(p, g):
    for x in g.get('args') or []:
        if p.prog.types[x]['k'] in ('closure', 'fndef'):
            return x
    return None


def by_ref(p, body):
    t = p.prog.types[body['locals'][1]]
    return t['k'] == 'ref'


def install():
    orig = Models.call

    def call(self, p, f, args, dty, span):
        if getattr(p, 'bp', None) is not None and args:
            v = args[0]
            if isinstance(v, SeqV) or isinstance(v, Ptr) and v.obj.kind == 'local' and not v.path and isinstance(v.obj.val, SeqV):
                self.used.add(f['n'])
                return adapter(self, p, f, args, dty)
        return orig(self, p, f, args, dty, span)
    Models.call = call
    odrop = Models.drop

    def drop(self, p, pl, ty, d):
        if getattr(p, 'bp', None) is not None and pl[0] == 'obj':
            v = p.load(pl[1], pl[2])
            if isinstance(v, TokV):
                self.moved(p, pl[1], pl[2])
                p.bp.drop_tok(v)
                return True
            if isinstance(v, DequeV):
                self.moved(p, pl[1], pl[2])
                p.bp.drop_deque(v)
                return True
            if isinstance(v, SeqV):
                return True
        return odrop(self, p, pl, ty, d)
    Models.drop = drop


install()
