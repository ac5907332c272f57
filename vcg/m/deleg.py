"""Trait implementations of the slices that pass on to those of the plain slice (C14), and slices made from
iterators and by cloning items (C05).

The traits of the plain slice are opaque: a call is recorded with its arguments and gives any result.  An
implementation has to make exactly the call for its own items, in its own argument order, and give back
the result of that call, unless the result is the same for all items (known about comparing slices: slices of
different lengths are unequal, empty slices are equal, an empty slice is less than any other)."""
import z3
from core import *
from models import model, TABLE, PREFIX, Models
from specs import spec, a_unique, close_tree, fresh_slice
from post import Stop


class OpV:
    """A slice of which only the items are known."""
    def __init__(self, view):
        self.view = view

    def __repr__(self):
        return 'slice'


class ItV:
    """An iterator: any one ('any'), over the items of a view ('iter'), or over their clones ('cloned')."""
    def __init__(self, kind, view=None):
        self.kind, self.view = kind, view


class Fmt:
    def __init__(self, kind):
        self.kind = kind


def slice_arg(p, a):
    """The plain slice behind a reference (to a reference ..)."""
    for _ in range(6):
        a = p.strip(a) if isinstance(a, Agg) else a
        if isinstance(a, DynV):
            a = a.p
        elif isinstance(a, Ptr):
            a = p.load(a.obj, a.path)
        else:
            break
    return a


def view(p, a):
    v = slice_arg(p, a)
    if not isinstance(v, Fat):
        raise Unsupported('slice %r' % (v,))
    return v


def on(p):
    if getattr(p, 'dg', None) is None:
        raise Unsupported('trait of a plain slice')
    return p.dg


def args(p):
    """Two slices; they may overlap."""


# ------------------------------------------------------------------ traits of the plain slice
@model('core::slice::cmp::eq')
def s_eq(m, p, f, a, dty):
    d = on(p)
    x, y = view(p, a[0]), view(p, a[1])
    r = p.choose(p.freshb('eq'), 'eq')
    p.assume(Implies(Not(eqv(x.meta, y.meta)), not r))
    p.assume(Implies(And(eqv(x.meta, 0), eqv(y.meta, 0)), r))
    d.append(('eq', [x, y], r))
    return r


ORD = {'lt': {0}, 'le': {0, 1}, 'gt': {2}, 'ge': {1, 2}}


def ordering(p, d, kind, x, y, total):
    for r in (0, 1, 2) if total else (0, 1, 2, None):
        if r == (2 if total else None) or p.choose(p.freshb('ord'), 'ord'):
            break
    ex, ey = eqv(x.meta, 0), eqv(y.meta, 0)
    p.assume(Implies(And(ex, ey), r == 1))
    p.assume(Implies(And(ex, Not(ey)), r == 0))
    p.assume(Implies(And(Not(ex), ey), r == 2))
    d.append((kind, [x, y], r))
    return r


@model('core::slice::cmp::partial_cmp')
def s_pc(m, p, f, a, dty):
    r = ordering(p, on(p), 'partial_cmp', view(p, a[0]), view(p, a[1]), False)
    return p.heap.none(dty) if r is None else p.heap.some(dty, Agg(p.heap.opt_arg(dty), r, []))


@model('core::slice::cmp::cmp')
def s_cmp(m, p, f, a, dty):
    return Agg(dty, ordering(p, on(p), 'cmp', view(p, a[0]), view(p, a[1]), True), [])


def s_rel(m, p, f, a, dty):
    r = ordering(p, on(p), 'partial_cmp', view(p, a[0]), view(p, a[1]), False)
    return r in ORD[f['n'].rsplit('::', 1)[1]]


for _k in ORD:
    TABLE['core::slice::cmp::' + _k] = s_rel


def is_ord(m, p, f, a, dty):
    v = slice_arg(p, a[0])
    if not isinstance(v, Agg) or p.tk(v.ty)['s'].rsplit('::', 1)[-1] != 'Ordering':
        raise Unsupported('ordering %r' % (v,))
    k = f['n'].rsplit('::', 1)[1]
    if k == 'reverse':
        return Agg(v.ty, 2 - v.var, [])
    return v.var in dict(is_lt={0}, is_le={0, 1}, is_gt={2}, is_ge={1, 2}, is_eq={1}, is_ne={0, 2})[k]


for _k in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne', 'reverse'):
    TABLE['std::cmp::Ordering::' + _k] = is_ord


@model('core::hash::impls::hash')
def s_hash(m, p, f, a, dty):
    if 'for [' not in f['name']:
        return NotImplemented
    d = on(p)
    d.append(('hash', [view(p, a[0]), slice_arg(p, a[1])], None))
    return Agg(dty, 0, [])


def outcome(p, dty):
    """Ok(()) or Err(fmt::Error)."""
    d = p.tk(dty)
    r = 0 if p.choose(p.freshb('fmt'), 'fmt') else 1
    t = d['variants'][r]['fields'][0][1]
    return Agg(dty, r, [p.zeroval(t) if False else Agg(t, 0, [])])


def s_fmt(m, p, f, a, dty):
    if not f['n'].startswith('<['):
        return NotImplemented
    d = on(p)
    r = outcome(p, dty)
    d.append(('fmt', [view(p, a[0]), slice_arg(p, a[1])], r.var))
    return r


@model('std::fmt::Formatter::debug_tuple', 'std::fmt::Formatter::debug_struct', 'std::fmt::Formatter::debug_list',
       'std::fmt::Formatter::debug_set')
def dbg(m, p, f, a, dty):
    on(p).append(('open', [slice_arg(p, a[0])], None))
    return Fmt('builder')


@model('std::fmt::DebugTuple::field', 'std::fmt::DebugStruct::field', 'std::fmt::DebugList::entry', 'std::fmt::DebugSet::entry')
def dfield(m, p, f, a, dty):
    b = slice_arg(p, a[0])
    if not isinstance(b, Fmt) or b.kind != 'builder':
        raise Unsupported('debug builder')
    on(p).append(('field', [slice_arg(p, a[-1])], None))
    return a[0]


@model('std::fmt::DebugTuple::finish', 'std::fmt::DebugStruct::finish', 'std::fmt::DebugList::finish', 'std::fmt::DebugSet::finish',
       'std::fmt::DebugTuple::finish_non_exhaustive', 'std::fmt::DebugStruct::finish_non_exhaustive')
def dfinish(m, p, f, a, dty):
    r = outcome(p, dty)
    on(p).append(('close', [], r.var))
    return r


# ------------------------------------------------------------------ iterators and vectors made from them
@model('core::slice::iter')
def s_iter(m, p, f, a, dty):
    on(p)
    return ItV('iter', view(p, a[0]))


def new_vec(p, n, origin):
    b = p.heap.new_block()
    b.fresh_storage = True
    p.assume(ule(n, b.len))
    p.heap.owned_pre.append((b, 0, n))
    on(p).append(('vec', [b, n], origin))
    return b


def collect(m, p, f, a, dty):
    it = slice_arg(p, a[0])
    if not isinstance(it, ItV):
        raise Unsupported('collecting %r' % (it,))
    p.may_unwind('next of the iterator collected')
    if it.kind == 'any':
        n = p.fresh('n', 60)
    elif it.kind == 'cloned':
        n = it.view.meta
    else:
        raise Unsupported('collecting references')
    b = new_vec(p, n, it)
    return VecV(IPtr(b, 0), n, b.len)


TABLE['<std::vec::Vec>::from_iter'] = collect


def to_vec(m, p, f, a, dty):
    v = view(p, a[0])
    p.may_unwind('clone of an item')
    b = new_vec(p, v.meta, ItV('cloned', v))
    return VecV(IPtr(b, 0), v.meta, b.len)


for _k in ('std::slice::to_vec', 'core::slice::to_vec', 'std::slice::to_owned', '<[T] as std::borrow::ToOwned>::to_owned'):
    TABLE[_k] = to_vec


def step(m, p, f, a, dty):
    """A method of an iterator."""
    it = slice_arg(p, a[0])
    k = f['n'].rsplit('::', 1)[1]
    if k == 'into_iter':
        return it
    if k in ('cloned',) and it.kind == 'iter':
        return ItV('cloned', it.view)
    if k == 'collect' or k == 'from_iter':
        return NotImplemented
    raise Unsupported('%s of an iterator' % k)


def install():
    orig = Models.call

    def call(self, p, f, a, dty, span):
        if getattr(p, 'dg', None) is not None:
            n = f['n']
            if a and isinstance(a[0], ItV) and not n.startswith(('<rc_slice', 'rc_slice', '<std::vec')):
                self.used.add(n)
                r = step(self, p, f, a, dty)
                if r is not NotImplemented:
                    return r
            if n.startswith('<[h::') and n.endswith(' as std::fmt::Debug>::fmt'):
                self.used.add(n)
                return s_fmt(self, p, f, a, dty)
            if n.startswith('<[h::') and n.endswith(' as std::borrow::ToOwned>::to_owned'):
                return to_vec(self, p, f, a, dty)
            if n == '<std::vec::Vec as std::convert::From>::from' and len(a) == 1 and isinstance(a[0], Fat):
                return to_vec(self, p, f, a, dty)
        return orig(self, p, f, a, dty, span)
    Models.call = call
    odrop = Models.drop

    def drop(self, p, pl, ty, d):
        if getattr(p, 'dg', None) is not None and pl[0] == 'obj':
            v = p.load(pl[1], pl[2])
            if isinstance(v, (ItV, Fmt)):
                self.moved(p, pl[1], pl[2])
                return True
        return odrop(self, p, pl, ty, d)
    Models.drop = drop


install()


# ------------------------------------------------------------------ specifications
def start(c):
    c.p.dg = []
    it = 'ZItem' if c.zst else 'SItem'
    F = ('rc_slice::RcSlice', 'rc_slice::RcSliceMut') if c.fl == 'rc' else ('rc_slice::ArcSlice', 'rc_slice::ArcSliceMut')
    names = {'<%s<h::%s> as std::ops::%s>::%s' % (x, it, t, k) for x in F for t, k in (('Deref', 'deref'), ('DerefMut', 'deref_mut'))}

    def deref(f, a, dty):
        v = a[0]
        v = c.p.load(v.obj, v.path) if isinstance(v, Ptr) else v
        if isinstance(v, OpV):
            return Fat(v.view.data, v.view.meta)
        return c.p.run_fn(f['id'], list(a))
    for f in c.prog.fns.values():
        if f['name'] in names:
            c.p.intercept[f['id']] = deref


def opaque(c, b=None):
    p = c.p
    b = b or c.h.new_block()
    lo = 0 if c.zst else p.fresh('v.lo', 60)
    n = p.fresh('v.n', 60)
    if not c.zst:
        p.assume(ule(add(lo, n), b.len))
    return OpV(Fat(IPtr(b, lo), n)), (b, lo, n)


def two(c):
    """Two slices, possibly of the same storage, possibly the same one."""
    x, vx = opaque(c)
    if c.p.choose(c.p.freshb('same'), 'same'):
        o, r = c.ref(x)
        return r, r, vx, vx
    if c.p.choose(c.p.freshb('shared'), 'shared'):
        y, vy = opaque(c, vx[0])
    else:
        y, vy = opaque(c)
    return c.ref(x)[1], c.ref(y)[1], vx, vy


def one_call(c, kinds):
    """The one recorded call."""
    d = c.p.dg
    if len(d) > 1:
        c.post.bad('delegate', 'the items are %s more than once' % ('compared' if d[0][0] in ('eq', 'cmp', 'partial_cmp') else 'visited'))
        raise Stop()
    if d and d[0][0] not in kinds:
        c.post.bad('delegate', '%s is used' % d[0][0])
        raise Stop()
    return d[0] if d else None


def same_view(c, got, want):
    c.post.check_view(got, want, 'delegate', 'what is passed on')


def boolres(c, x):
    return x if isinstance(x, bool) else c.p.choose(tobool(x), 'result')


@spec('d_eq', 'd_ne', 'dm_eq', 'dm_ne')
def d_eq(c):
    ne = c.name.endswith('ne')
    start(c)
    r1, r2, vx, vy = two(c)
    x = c.run(r1, r2)
    c.must_not_panic()
    e = one_call(c, ('eq',))
    x = boolres(c, x)
    got = (not x) if ne else x
    if e is None:
        nx, ny = vx[2], vy[2]
        c.post.prove('delegate', And(eqv(nx, 0), eqv(ny, 0)) if got else Not(eqv(nx, ny)), 'the items are not compared')
        return
    same_view(c, e[1][0], vx)
    same_view(c, e[1][1], vy)
    c.post.prove('delegate', got == e[2], 'the result is not that of the items')


def known_order(vx, vy, r):
    ex, ey = eqv(vx[2], 0), eqv(vy[2], 0)
    return {0: And(ex, Not(ey)), 1: And(ex, ey), 2: And(Not(ex), ey)}.get(r, False)


def order(x, c):
    """0, 1, 2 for less, equal, greater; None for unordered."""
    if not isinstance(x, Agg):
        raise Unsupported('ordering %r' % (x,))
    if c.p.tk(x.ty)['s'].rsplit('::', 1)[-1] == 'Ordering':
        return x.var
    return None if x.var == 0 else c.p.getfield(x, 0).var


@spec('d_pc', 'd_cmp', 'dm_pc', 'dm_cmp', 'd_lt', 'd_le', 'd_gt', 'd_ge', 'dm_lt', 'dm_le', 'dm_gt', 'dm_ge')
def d_ord(c):
    k = c.name.rsplit('_', 1)[1]
    start(c)
    r1, r2, vx, vy = two(c)
    x = c.run(r1, r2)
    c.must_not_panic()
    e = one_call(c, ('cmp',) if k == 'cmp' else ('partial_cmp',))
    if k in ORD:
        x = boolres(c, x)
    else:
        x = order(x, c)
    if e is None:
        rs = [x] if k not in ORD else [r for r in (0, 1, 2) if (r in ORD[k]) == x]
        c.post.prove('delegate', Or(*[known_order(vx, vy, r) for r in rs]), 'the items are not compared')
        return
    same_view(c, e[1][0], vx)
    same_view(c, e[1][1], vy)
    want = e[2] if k not in ORD else e[2] in ORD[k]
    c.post.prove('delegate', x == want, 'the result is not that of the items')


@spec('d_hash', 'dm_hash', 'd_fmt', 'dm_fmt')
def d_visit(c):
    k = c.name.rsplit('_', 1)[1]
    start(c)
    x, vx = opaque(c)
    st = Fmt('state')
    y = c.run(c.ref(x)[1], c.ref(st)[1])
    c.must_not_panic()
    e = one_call(c, (k,))
    c.post.prove('delegate', e is not None, 'the items are not visited')
    if e is None:
        return
    same_view(c, e[1][0], vx)
    c.post.prove('delegate', e[1][1] is st, 'another %s is used' % ('hasher' if k == 'hash' else 'formatter'))
    if k == 'fmt':
        c.post.prove('delegate', isinstance(y, Agg) and y.var == e[2], 'the result is not that of the items')


@spec('d_as_ref', 'd_borrow', 'dm_as_ref', 'dm_borrow', 'dm_as_mut', 'dm_borrow_mut')
def d_view(c):
    start(c)
    x, vx = opaque(c)
    y = c.run(c.ref(x)[1])
    c.must_not_panic()
    c.post.check_view(y, vx, 'delegate')


def fmt_iter(c, r, vx, left=None):
    """Debug output of an iterator: one builder, whose fields include the remaining items, and the remaining count."""
    st = Fmt('state')
    y = c.run(r, c.ref(st)[1])
    c.must_not_panic()
    d = c.p.dg
    q = c.post
    if [e[0] for e in d if e[0] != 'field'] == ['fmt'] and left is None:
        same_view(c, d[0][1][0], vx)
        return
    ks = [e[0] for e in d]
    if not ks or ks[0] != 'open' or ks[-1] != 'close' or ks.count('open') != 1 or ks.count('close') != 1 or set(ks[1:-1]) - {'field'}:
        raise Unsupported('debug output %s' % ks)
    q.prove('delegate', d[0][1][0] is st, 'another formatter is used')
    q.prove('delegate', isinstance(y, Agg) and y.var == d[-1][2], 'the result of printing is lost')
    fs = [e[1][0] for e in d[1:-1]]
    vs = [v for v in fs if isinstance(v, Fat)]
    ns = [v for v in fs if isz(v) or isinstance(v, int)]
    if len(vs) > 1 or len(vs) + len(ns) != len(fs):
        raise Unsupported('debug fields %r' % (fs,))
    q.prove('delegate', len(vs) == 1, 'the remaining items are not printed')
    if vs:
        same_view(c, vs[0], vx)
    if left is not None:
        q.prove('delegate', bool(ns), 'the number of remaining parts is not printed')
        if ns:
            q.prove('delegate', Or(*[eqv(v, left) for v in ns]), 'the wrong number of remaining parts is printed')


@spec('i_fmt')
def i_fmt(c):
    start(c)
    b, lo, ln, v = c.h.iter_value()
    c.h.owned_pre.append((b, lo, ln))
    o, r = c.ref(v)
    fmt_iter(c, r, (b, lo, ln))
    c.post.check_iter(o.val, (b, 0, ln) if c.zst else (b, lo, add(lo, ln)))


@spec('from_iter', 'm_from_iter')
def from_iter(c):
    start(c)
    it = ItV('any')
    x = c.run(it)
    c.must_not_panic()
    made(c, x, it)


def made(c, x, it=None, want=None):
    """x is a slice of exactly the vector collected from the iterator."""
    d = c.p.dg
    if len(d) != 1 or d[0][0] != 'vec':
        raise Unsupported('collected %s' % [e[0] for e in d])
    b, n = d[0][1]
    org = d[0][2]
    if it is not None:
        c.post.prove('convert', org is it, 'not collected from the iterator given')
    else:
        c.post.prove('convert', org.kind == 'cloned', 'the items are not cloned')
        if org.kind == 'cloned':
            c.post.check_view(org.view, want, 'convert', 'what is cloned')
            c.post.prove('convert', eqv(n, want[2]), 'not all items are cloned')
    c.result(x)
    if x.ty == c.h.T['S']:
        fresh_slice(c, x, b, 0, n)
        close_tree(c)
    else:
        c.post.check_unique(x, (b, 0, n), 'convert')
        c.close_unique()


@spec('m_clone')
def m_clone(c):
    start(c)
    b, lo, ln, v = a_unique(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.check_unique(o.val, (b, lo, ln), 'convert', 'the original')
    made(c, x, None, (b, lo, ln))


# ------------------------------------------------------------------ part iterators
import parts
import bparts


def q_fmt(c):
    start(c)
    q, v = parts.outer(c)
    o, r = c.ref(v)
    s, ln = q.region()
    fmt_iter(c, r, (q.b, s, ln), q.left)
    parts.check_outer(c, q, o.val, q.f, q.g)
    c.close_unique()


def p_fmt(shared=None, conc=None, capinv=True):
    def run(c):
        start(c)
        w, q, v = bparts.world(c, None, conc, capinv)
        o, r = c.ref(v)
        s, ln = q.region()
        fmt_iter(c, r, (q.b, s, ln), q.left)
        w.close(w.check(o.val, q.f, q.g))
    return run


spec('q_fmt')(q_fmt)
bparts.SPEC['p_fmt'] = p_fmt
