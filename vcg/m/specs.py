"""What each public operation guarantees, over the tree of parts (see heap.py) or a unique slice."""
import z3
from core import *
from heap import LIM, iff, Tree
from post import Stop

SPECS = {}



def spec(*names):
    def deco(f):
        for n in names:
            SPECS[n] = f
        return f
    return deco


def half(n):
    return lshr(n, 1)


# ------------------------------------------------------------------ construction of unique slices
def fresh_box(c):
    b = c.h.new_block()
    b.fresh_storage = True
    if c.zst:
        c.h.owned_pre.append((b, 0, b.len))
    else:
        c.h.owned_pre.append((b, 0, b.len))
    return b


@spec('m_from_box', 'm_from_box_t')
def m_from_box(c):
    b = fresh_box(c)
    v = c.run(BoxV(Fat(IPtr(b, 0), b.len)))
    c.must_not_panic()
    c.result(v)
    c.post.check_unique(v, (b, 0, b.len), 'convert')
    c.close_unique()


@spec('m_from_vec', 'm_from_vec_t')
def m_from_vec(c):
    b = c.h.new_block()
    b.fresh_storage = True
    n = c.p.fresh('veclen')
    c.p.assume(ule(n, b.len))
    c.h.owned_pre.append((b, 0, n))
    v = c.run(VecV(IPtr(b, 0), n, b.len))
    c.must_not_panic()
    c.result(v)
    c.post.check_unique(v, (b, 0, n), 'convert')
    c.close_unique()


# ------------------------------------------------------------------ unique slices
def a_unique(c):
    b, lo, ln, v = c.h.unique()
    c.h.owned_pre.append((b, lo, ln))
    return b, lo, ln, v


@spec('m_split_off_left', 'm_split_off_right')
def m_split(c):
    b, lo, ln, v = a_unique(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    left = 'left' in c.p.prog.fns[c.fid]['name']
    L = (b, lo, half(ln))
    R = (b, 0 if c.zst else add(lo, half(ln)), sub(ln, half(ln)))
    c.post.check_unique(x, L if left else R, 'range', 'the split-off half')
    c.post.check_unique(o.val, R if left else L, 'range', 'the receiver')
    c.close_unique()


@spec('m_deref', 'm_deref_mut')
def m_deref(c):
    b, lo, ln, v = a_unique(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.check_view(x, (b, lo, ln))
    c.post.check_unique(o.val, (b, lo, ln), 'range', 'the receiver')
    c.close_unique()


@spec('m_drop')
def m_drop(c):
    b, lo, ln, v = a_unique(c)
    c.run(v)
    c.must_not_panic()
    c.close_unique()


@spec('m_into_iter')
def m_into_iter(c):
    b, lo, ln, v = a_unique(c)
    x = c.run(v)
    c.must_not_panic()
    c.result(x)
    c.post.check_iter(x, (b, 0, ln) if c.zst else (b, lo, add(lo, ln)))
    c.close_unique()


# ------------------------------------------------------------------ item iterators
def an_iter(c):
    b, lo, ln, v = c.h.iter_value()
    c.h.owned_pre.append((b, lo, ln))
    return b, lo, ln, v


@spec('i_next', 'i_next_back')
def i_next(c):
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    q = c.post
    back = c.p.prog.fns[c.fid]['name'].endswith('back')
    if x.var == 0:
        q.prove('range', eqv(ln, 0), 'nothing yielded although items remain')
        q.check_iter(o.val, (b, lo, add(lo, ln)))
    else:
        q.prove('range', Not(eqv(ln, 0)), 'an item yielded although none remains')
        it = c.p.getfield(x, 0)
        if not isinstance(it, ItemV):
            raise Unsupported('yielded %r' % (it,))
        c.result(x)
        if not c.zst:
            if it.block is not b:
                q.bad('range', 'an item of other memory yielded')
            else:
                q.prove('range', eqv(it.idx, sub(add(lo, ln), 1) if back else lo), 'the wrong item yielded')
        q.yields.append((b if c.zst else it.block, 0 if c.zst else it.idx))
        s = lo if back else add(lo, 1)
        e = sub(add(lo, ln), 1) if back else add(lo, ln)
        if c.zst:
            s, e = 0, sub(ln, 1)
        q.check_iter(o.val, (b, s, e))
    c.close_unique()


@spec('i_nth', 'i_nth_back')
def i_nth(c):
    """Asked for only where the crate overrides std's provided method."""
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    n = c.p.fresh('n')
    x = c.run(r, n)
    c.must_not_panic()
    q = c.post
    back = c.p.prog.fns[c.fid]['name'].endswith('back')
    end = add(lo, ln)
    if x.var == 0:
        q.prove('range', ule(ln, n), 'nothing yielded although enough items remain')
        q.check_iter(o.val, (b, end, end), 'range', 'the iterator after skipping all items')
    else:
        q.prove('range', ult(n, ln), 'an item yielded although too few remain')
        it = c.p.getfield(x, 0)
        if not isinstance(it, ItemV):
            raise Unsupported('yielded %r' % (it,))
        c.result(x)
        want = sub(sub(end, 1), n) if back else add(lo, n)
        if not c.zst:
            if it.block is not b:
                q.bad('range', 'an item of other memory yielded')
            else:
                q.prove('range', eqv(it.idx, want), 'the wrong item yielded')
        q.yields.append((b if c.zst else it.block, 0 if c.zst else it.idx))
        s, e = (lo, want) if back else (add(want, 1), end)
        if c.zst:
            s, e = 0, sub(sub(ln, 1), n)
        q.check_iter(o.val, (b, s, e))
    c.close_unique()


@spec('i_len')
def i_len(c):
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.prove('len', eqv(x, ln), 'wrong remaining length')
    c.post.check_iter(o.val, (b, lo, add(lo, ln)))
    c.close_unique()


@spec('i_size_hint')
def i_hint(c):
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.prove('len', eqv(x.f[0], ln), 'wrong lower size hint')
    if x.f[1].var != 1:
        c.post.bad('len', 'no upper size hint')
    else:
        c.post.prove('len', eqv(x.f[1].f[0], ln), 'wrong upper size hint')
    c.post.check_iter(o.val, (b, lo, add(lo, ln)))
    c.close_unique()


@spec('i_count')
def i_count(c):
    b, lo, ln, v = an_iter(c)
    x = c.run(v)
    c.must_not_panic()
    c.post.prove('len', eqv(x, ln), 'wrong count')
    c.close_unique()


@spec('i_as_slice', 'i_as_mut_slice')
def i_view(c):
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.check_view(x, (b, lo, ln))
    c.post.check_iter(o.val, (b, lo, add(lo, ln)))
    c.close_unique()


@spec('i_from', 'i_to')
def i_split(c):
    b, lo, ln, v = an_iter(c)
    o, r = c.ref(v)
    at = c.p.fresh('at')
    x = c.run(r, at)
    q = c.post
    if c.panicked is not None:
        q.prove('panic', ult(ln, at), 'panics although the position is within the remaining items')
        q.check_iter(o.val, (b, lo, add(lo, ln)), 'range', 'the receiver after a panic')
        c.close_unique()
        return
    q.prove('panic', ule(at, ln), 'does not panic although the position is beyond the remaining items')
    c.result(x)
    A = (b, lo, add(lo, at))
    B = (b, add(lo, at), add(lo, ln))
    to = c.p.prog.fns[c.fid]['name'].endswith('to')
    q.check_iter(x, A if to else B, 'range', 'the split-off iterator')
    q.check_iter(o.val, B if to else A, 'range', 'the receiver')
    c.close_unique()


@spec('i_drop')
def i_drop(c):
    b, lo, ln, v = an_iter(c)
    c.run(v)
    c.must_not_panic()
    c.close_unique()


# ------------------------------------------------------------------ shared slices
def a_handle(c):
    n, v = c.h.handle()
    c.h.pre_handles.append(('S', n))
    return n, v


def a_weak(c):
    n, v = c.h.weak_handle()
    c.h.pre_handles.append(('W', n))
    return n, v


def live_refs(c):
    """All handles alive afterwards: results and what is behind references."""
    T = c.h.T
    out = []
    for o in c.h.argobjs:
        if o.val is not None and o.val is not UNINIT:
            c.post.find(o.val, (T['S'], T['W'], T['M'], T['MI']), out)
    return [v for v in out if isinstance(v, Agg)]


def close_tree(c):
    q = c.post
    vals = live_refs(c)
    hs = [v for v in vals if v.ty in (c.h.T['S'], c.h.T['W'])]
    q.resolve(hs)
    q.settle()
    q.resolve(hs)
    q.handles(hs)
    for o in q.live_objs(('D', 'I', 'G')):
        q.check_fields(o)
    q.counts()
    q.laws()
    q.items()
    q.storage()


def at_node(c, v, n, clause, what):
    """v is a handle to exactly the part n."""
    q = c.post
    o = q.fld(v, 'data')
    if isinstance(o, RcV) and o.obj.node is n and not o.obj.contents_dead:
        return
    q.bad(clause, '%s is not a handle to the right part' % what)


def kids_of(c, n):
    return c.h.kid(n, 0), c.h.kid(n, 1)


def is_half(c, v, n, s, what, clause='range'):
    """v is a handle to half s of part n - which is n itself if that half has all its items."""
    q = c.post
    o = q.fld(v, 'data')
    if not isinstance(o, RcV):
        raise Unsupported('handle %r' % (o,))
    D = o.obj
    if D.contents_dead:
        q.bad(clause, '%s refers to dropped items' % what)
        raise Stop()
    ptr, ln = q.ip(q.deep(c.h.field(D, 'ptr'))), q.deep(c.h.field(D, 'len'))
    hl = lshr(n.len, 1)
    want = hl if s == 0 else sub(n.len, hl)
    q.prove(clause, eqv(ln, want), '%s has the wrong length' % what)
    if not c.zst:
        if not isinstance(ptr, IPtr) or ptr.block is not n.tree.block:
            q.prove(clause, eqv(ln, 0), '%s is at the wrong address' % what)
        else:
            q.prove(clause, Or(eqv(ln, 0), eqv(ptr.idx, n.lo if s == 0 else add(n.lo, hl))), '%s starts at the wrong item' % what)
    if D.node is not None and D.node is not n:
        if not (D.node.parent is n and D.node.side == s):
            q.bad(clause, '%s is the handle of another part' % what)


def same_range(c, v, n, what, clause='range'):
    q = c.post
    o = q.fld(v, 'data')
    D = o.obj
    if D.contents_dead:
        q.bad(clause, '%s refers to dropped items' % what)
        raise Stop()
    if D.node is not n:
        q.bad(clause, '%s is not a handle to the same part' % what)


@spec('from_box', 'from_box_t', 'from_vec', 'from_vec_t')
def s_from(c):
    vec = 'vec' in c.p.prog.fns[c.fid]['name']
    b = c.h.new_block()
    b.fresh_storage = True
    if vec:
        n = c.p.fresh('veclen')
        c.p.assume(ule(n, b.len))
        a = VecV(IPtr(b, 0), n, b.len)
    else:
        n = b.len
        a = BoxV(Fat(IPtr(b, 0), n))
    c.h.owned_pre.append((b, 0, n))
    v = c.run(a)
    c.must_not_panic()
    c.result(v)
    fresh_slice(c, v, b, 0, n)
    close_tree(c)


def fresh_slice(c, v, b, lo, n, clause='convert'):
    """v is a first handle to exactly these items."""
    q = c.post
    D = q.fld(v, 'data').obj
    ptr, ln = q.ip(q.deep(c.h.field(D, 'ptr'))), q.deep(c.h.field(D, 'len'))
    q.prove(clause, eqv(ln, n), 'the slice has the wrong length')
    if not c.zst:
        if not isinstance(ptr, IPtr) or ptr.block is not b:
            q.prove(clause, eqv(n, 0), 'the slice refers to other memory')
        else:
            q.prove(clause, Or(eqv(n, 0), eqv(ptr.idx, lo)), 'the slice starts at the wrong item')


@spec('clone')
def s_clone(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    same_range(c, x, n, 'the clone')
    same_range(c, o.val, n, 'the receiver')
    close_tree(c)


@spec('clone_left', 'clone_right')
def s_half(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    s = 0 if c.name.endswith('left') else 1
    is_half(c, x, n, s, 'the cloned half')
    same_range(c, o.val, n, 'the receiver')
    close_tree(c)


@spec('split_off_left', 'split_off_right')
def s_split(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    s = 0 if c.name.endswith('left') else 1
    is_half(c, x, n, s, 'the split-off half')
    is_half(c, o.val, n, 1 - s, 'the receiver')
    close_tree(c)


def unchanged(c):
    q, h = c.post, c.h
    for n in h.nodes:
        if n.fresh:
            q.bad('grant', 'a refused request creates bookkeeping')
            continue
        nb = h.nb(n)
        for k in h.K:
            q.prove('grant', iff(nb[k], n.b[k]), 'a refused request changes the bookkeeping')
    for e in c.p.events:
        q.bad('grant', 'a refused request has the effect %r' % (e[0],))


def subtree(c, n, k):
    return Or(n.kb[0][k], n.kb[1][k])


def busy_strong(c, n):
    """Some other strong handle covers an item of n (given one handle to n itself)."""
    k = 'I' if c.fl == 'rc' else 'G'
    return Or(Not(eqv(n.h, 1)), n.pb['D'], subtree(c, n, k))


def busy_weak(c, n):
    """Some weak handle to n or a part of it exists that can still be upgraded."""
    return Or(Not(eqv(n.w, 0)), subtree(c, n, 'G' if c.fl == 'rc' else 'S'))


@spec('get_mut')
def s_get_mut(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    q = c.post
    busy = Or(busy_strong(c, n), busy_weak(c, n))
    if x.var == 1:
        q.prove('grant', Not(busy), 'mutable access granted although another handle can reach the items')
        q.check_view(c.p.getfield(x, 0), (n.tree.block, n.lo, n.len))
    else:
        q.prove('grant', busy, 'mutable access refused although no other handle can reach the items')
    unchanged(c)
    same_range(c, o.val, n, 'the receiver')
    close_tree(c)


@spec('into_mut', 'try_from')
def s_into_mut(c):
    n, v = a_handle(c)
    x = c.run(v)
    c.must_not_panic()
    c.result(x)
    q = c.post
    busy = busy_strong(c, n)
    y = c.p.getfield(x, 0)
    if x.var == 0:
        q.prove('grant', Not(busy), 'conversion granted although another strong handle covers the items')
        q.check_unique(y, (n.tree.block, n.lo, n.len), 'convert', 'the unique slice')
        q.prove('grant', Not(c.h.live(n, 'D')), 'weak handles can still be upgraded after the conversion')
        for e in c.p.events:
            if e[0] == 'drop':
                q.prove('convert', eqv(e[3], 0), 'items dropped by a conversion')
    else:
        q.prove('grant', busy, 'conversion refused although no other strong handle covers the items')
        unchanged(c)
        same_range(c, y, n, 'the returned handle', 'grant')
    close_tree(c)


@spec('downgrade')
def s_downgrade(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    same_range(c, o.val, n, 'the receiver')
    same_weak(c, x, n)
    close_tree(c)


def same_weak(c, x, n):
    q = c.post
    w = q.fld(x, 'data')
    if q.is_dead(w):
        q.prove('upgrade', Not(c.h.live(n, 'D')), 'a weak handle does not refer to its live part')
    elif w.obj.node is not n:
        q.bad('upgrade', 'a weak handle refers to another part')


@spec('deref')
def s_deref(c):
    n, v = a_handle(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.post.check_view(x, (n.tree.block, n.lo, n.len))
    same_range(c, o.val, n, 'the receiver')
    close_tree(c)


@spec('drop')
def s_drop(c):
    n, v = a_handle(c)
    c.run(v)
    c.must_not_panic()
    close_tree(c)


@spec('w_new')
def w_new(c):
    x = c.run()
    c.must_not_panic()
    c.result(x)
    if not c.post.is_dead(c.post.fld(x, 'data')):
        c.post.bad('upgrade', 'an empty weak handle refers to items')
    close_tree(c)


@spec('w_clone')
def w_clone(c):
    n, v = a_weak(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    same_weak(c, x, n)
    same_weak(c, o.val, n)
    close_tree(c)


@spec('w_upgrade')
def w_upgrade(c):
    n, v = a_weak(c)
    o, r = c.ref(v)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    q = c.post
    if x.var == 1:
        q.prove('upgrade', n.b['D'], 'upgraded although the part is not held by any strong handle')
        same_range(c, c.p.getfield(x, 0), n, 'the upgraded handle', 'upgrade')
    else:
        q.prove('upgrade', Not(n.b['D']), 'not upgraded although a strong handle holds the part')
    same_weak(c, o.val, n)
    close_tree(c)


@spec('w_drop')
def w_drop(c):
    n, v = a_weak(c)
    c.run(v)
    c.must_not_panic()
    close_tree(c)


@spec('m_into_immut', 'm_from')
def m_into_immut(c):
    b, lo, ln, v = a_unique(c)
    x = c.run(v)
    c.must_not_panic()
    c.result(x)
    fresh_slice(c, x, b, lo, ln)
    close_tree(c)


# ------------------------------------------------------------------ the inductive contracts themselves
CROOTS = {}


def croot(k):
    def deco(f):
        CROOTS[k] = f
        return f
    return deco


def a_part(c, x=(), x2=(), pre=()):
    n = c.h.node_new(Tree(c.h.new_block()))
    for k in x:
        n.x[k] = 1
    for k in x2:
        n.x2[k] = 1
    c.h.assert_laws(n)
    return n


def releases(k):
    def f(c):
        n = a_part(c, k, ())
        if k == 'D':
            c.p.assume(And(eqv(n.h, 0), Not(n.pb['D'])))
        elif k == 'I' or (k == 'G' and c.fl == 'arc'):
            c.p.assume(And(eqv(n.h, 0), Not(n.kb[0][k]), Not(n.kb[1][k])))
        else:
            c.p.assume(And(eqv(n.w, 0), Not(n.b['I']), Not(n.kb[0]['G']), Not(n.kb[1]['G'])))
        o = c.h.get(n, k)
        v = RcV(o)
        c.h.register('args', v)
        c.guard(lambda: c.m.dec(c.p, o))
        c.must_not_panic()
        if not o.contents_dead:
            c.post.bad('contract', 'the last release does not destroy the object')
        close_tree(c)
    return f


CROOTS['glue_D'] = releases('D')
CROOTS['glue_I'] = releases('I')
CROOTS['glue_G'] = releases('G')


@croot('forget')
def c_forget(c):
    import models
    n = a_part(c, 'D', '')
    k = 'I' if c.fl == 'rc' else 'G'
    c.p.assume(And(eqv(n.h, 0), Not(n.pb['D']), Not(n.kb[0][k]), Not(n.kb[1][k])))
    o = c.h.get(n, 'D')
    c.h.register('args', RcV(o))
    v = models.take_contents(c.m, c.p, o)
    c.post.fld_raw(v, 'alloc')
    a, r = c.ref(v)
    c.run(r)
    c.must_not_panic()
    q = c.post
    v = a.val
    q.prove('contract', eqv(q.deep(q.fld(v, 'len')), 0), 'length afterwards')
    for f in ('left_child', 'right_child'):
        if c.h.link_value(c.p, v.f[c.h.names(v.ty).index(f)]) is not None:
            q.bad('contract', 'a link is kept')
    for s in (0, 1):
        q.prove('contract', Not(c.h.nb_kid(n, s)['D']), 'the data of a half is kept')
    for e in c.p.events:
        if e[0] in ('drop', 'sub'):
            q.bad('contract', 'items are dropped')
    q.skip_items = True
    close_tree(c)


@croot('ensure')
def c_ensure(c):
    n = a_part(c, 'G', 'GI')
    g = RcV(c.h.get(n, 'G'))
    c.h.register('args', g)
    o, r = c.ref(g)
    x = c.run(r)
    c.must_not_panic()
    c.result(x)
    x = c.post.deep(x)
    given_guard(c, x, n, 'I')
    close_tree(c)


def given_guard(c, x, n, k):
    """x is a reference to the live guard k of part n."""
    if not isinstance(x, RcV):
        raise Unsupported('guard %r' % (x,))
    c.post.resolve([])
    if x.obj.node is None:
        c.post.assign(x.obj, n, k, 'the guard')
    if x.obj.node is not n or x.obj.kind != k or x.obj.contents_dead:
        c.post.bad('contract', 'the guard of another part is returned')


def data_ref(c, n):
    """&data or &Rc<data>, whichever the function takes."""
    ty = c.p.prog.fns[c.fid]['locals'][1]
    ty = ty['ty'] if isinstance(ty, dict) else ty
    to = c.p.tk(ty)['to']
    d = c.h.get(n, 'D')
    if to == c.h.T['D']:
        return Ptr(d)
    v = RcV(d)
    c.h.register('args', v)
    n.x['D'] = n.x2['D'] = 1
    return c.ref(v)[1]


@croot('guard')
def c_guard(c):
    n = a_part(c, '', 'G')
    n.x2['D'] = n.x['D'] = 1
    c.h.assert_laws(n)
    x = c.run(data_ref(c, n))
    c.must_not_panic()
    c.result(x)
    given_guard(c, c.post.deep(x), n, 'G')
    close_tree(c)


@croot('has_weak')
def c_has_weak(c):
    n = a_part(c)
    n.x2['D'] = n.x['D'] = 1
    c.p.assume(n.b['D'])
    x = c.run(data_ref(c, n))
    c.must_not_panic()
    c.post.prove('contract', iff(x, n.b['S']), 'wrong answer')
    close_tree(c)


import parts
SPECS.update(parts.ROOTS)
