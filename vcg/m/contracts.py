"""Inductive contracts of the recursive functions, used at recursive calls; each is itself discharged
by running the function's body from an arbitrary state (see roots.py: contract roots)."""
import z3
from core import *
from heap import LIM, iff, tokens, lazies


def node_of(o):
    if o.node is None:
        raise Unsupported('recursion on an object of unknown place (%r)' % o)
    return o.node


def no_deeper(h, c):
    for k in c.kids:
        if k is not None:
            for o in k.obj.values():
                if o.kind == 'D':
                    raise Unsupported('recursive call above materialised data')
            no_deeper(h, k)


def take_sa(m, p, c, summary):
    """Release the storage tokens of every data object in the subtree of c."""
    h = p.heap
    b = c.tree.block
    least = b2n(Not(eqv(c.len, 0))) if summary is not None else add(*[
        b2n(And(c.kb[s]['D'], Not(eqv(k, 0)))) for s, k in ((0, lshr(c.len, 1)), (1, sub(c.len, lshr(c.len, 1))))])
    if not b.zst:
        if b.sa is None:
            if p.choose(eqv(least, 0), 'empty subtree'):
                return
            h.sa(b)
        sa = b.sa
    else:
        if b.sa is None:
            return
        sa = b.sa
    m.storage_alive(p, b, least, 'items of a part reached')
    if sa.contents_dead:
        return
    r = p.fresh('rel')
    ins, tot = h.pre_tokens(sa, c)
    if summary is None:
        ins = 0
    if b.zst:
        p.assume(ule(ins, r))
    else:
        p.assume(ule(ins, r))
        p.assume(ule(least, r))
        p.assume(Implies(eqv(least, 0), eqv(r, 0)))
    sa.taken = add(sa.taken, sub(r, ins))
    p.assume(ule(add(tot, sa.taken), sa.strong0))
    sa.strong = sub(sa.strong, r)
    sa.cdelta['strong'] = sub(sa.cdelta['strong'], r)
    if p.choose(eqv(sa.strong, 0), 'last storage reference'):
        m.kill(p, sa)


def weak_off(m, p, o, holder):
    """Release of a weak reference held by a summarised object."""
    if not o.fresh and not any(h is holder and t is o and k == 'weak' for h, t, k in p.heap.tok):
        o.tokd['weak'] += 1
        p.assume(ule(o.tokd['weak'], o.weak0))
    m.decw(p, o)
    o.cdelta['weak'] = sub(o.cdelta['weak'], 1)


def kill_D(m, p, o, gid):
    c = node_of(o)
    h = p.heap
    h.contract_used.add(('glue_D', gid))
    no_deeper(h, c)
    if o.fresh:
        raise Unsupported('recursive drop of a fresh object')
    o.summary = True
    p.ev('sub', c)
    drop_D_refs(m, p, h, c)
    take_sa(m, p, c, o)
    p.may_unwind('item destructor below')      # every reference has been released then, too


def drop_D_refs(m, p, h, c):
    if h.fl == 'arc':
        q = c.parent
        if q is not None and 'D' in q.obj and not getattr(c, 'pdead', False):
            weak_off(m, p, q.obj['D'], c.obj.get('D'))
        g = c.obj.get('G')
        if g is not None and not g.fresh and p.valid(c.b['G']) is True:
            weak_off(m, p, g, c.obj.get('D'))
        for x in h.objs:
            if x.kind == 'GN' and x.node is c:
                x.summary = True


def kill_I(m, p, o, gid):
    c = node_of(o)
    h = p.heap
    h.contract_used.add(('glue_I', gid))
    if o.fresh:
        raise Unsupported('recursive drop of a fresh object')
    o.summary = True
    c.up = True
    for k in c.kids:
        if k is not None and 'I' in k.obj:
            if k.obj['I'].fresh:
                raise Unsupported('fresh guard under a dying one')
            weak_off(m, p, k.obj['I'], o)
    g = h.get(c, 'G')
    if g.contents_dead:
        raise Unsupported('guard order')
    m.dec_by_contract(p, g)


def kill_G(m, p, o, gid):
    c = node_of(o)
    h = p.heap
    h.contract_used.add(('glue_G', gid))
    if o.fresh:
        raise Unsupported('recursive drop of a fresh object')
    o.summary = True
    c.up = True
    if h.fl == 'rc':
        for k in c.kids:
            if k is not None and 'G' in k.obj:
                if k.obj['G'].fresh:
                    raise Unsupported('fresh guard under a dying one')
                weak_off(m, p, k.obj['G'], o)
        i = c.obj.get('I')
        if i is not None:
            weak_off(m, p, i, o)


def forget(m, p, f, a, v):
    """forget_items(&mut data): every link of the subtree is released, no item is dropped, len becomes 0."""
    h = p.heap
    o = getattr(v, 'o', None)
    if o is None:
        raise Unsupported('forget_items on a value of unknown origin')
    c = node_of(o)
    h.contract_used.add(('forget', f['id']))
    no_deeper(h, c)
    kk = 'I' if h.fl == 'rc' else 'G'
    for s in (0, 1):
        kb = h.nb_kid(c, s)
        r = p.valid(Not(kb[kk]))
        if r is not True:
            raise Violation('contract', 'items of a part forgotten while a handle to one of its halves may exist')
    names = [nm for nm, _ in p.prog.types[v.ty]['variants'][0]['fields']]
    for s, fn in ((0, 'left_child'), (1, 'right_child')):
        i = names.index(fn)
        fs, j = h.leaf(v.f, i)
        if not isinstance(fs[j], Lazy):
            if h.link_value(p, v.f[i]) is None:
                continue
            raise Unsupported('forget_items with a link already followed')
        k = c.kids[s]
        if k is not None and 'D' in k.obj:
            raise Unsupported('forget_items above materialised data')
        h.untrack(fs[j])
        fs[j] = h.nolink()
        if k is not None and h.fl == 'arc' and 'G' in k.obj:
            raise Unsupported('forget_items above a materialised guard')
    if c.kids_gone:
        raise Unsupported('forget_items twice')
    c.kids_gone = True
    p.ev('forget', c)
    if h.fl == 'arc':
        n = add(b2n(c.kb[0]['D']), b2n(c.kb[1]['D']))
        o.weak = sub(o.weak, n)
        o.cdelta['weak'] = sub(o.cdelta['weak'], n)
    take_sa(m, p, c, None)
    v.f[names.index('len')] = 0
    return Agg(None, 0, [])


def ensure(m, p, f, g):
    """ensure_into_mut_guard(&G) -> the live into-mut guard of the same part (created on demand)."""
    h = p.heap
    c = node_of(g)
    h.contract_used.add(('ensure', f['id']))
    if 'I' in c.obj and c.obj['I'].contents_dead:
        raise Unsupported('guard recreated')
    if 'I' in c.obj or p.choose(c.b['I'], 'guard exists'):
        o = h.get(c, 'I')
        m.inc(p, o)
        return RcV(o)
    o = h.made(c, 'I')

    def bad():
        raise Unsupported('ancestors of a guard made by contract')
    ty = h.T['I']
    o.val = h.struct(ty, {'_parent': bad, 'left_child': WeakV(None), 'right_child': WeakV(None), 'get_mut_guard': RcV(g)}, o, False)
    m.inc(p, g)
    o.strong = 1
    names = [nm for nm, _ in p.prog.types[h.T['G']]['variants'][0]['fields']]
    h.replace_weak(m, p, g, names.index('into_mut_guard'), o)
    c.up = True
    return RcV(o)


def guard(m, p, f, ref):
    """DataGuard::guard(&data) -> the live guard of the data (created on demand)."""
    h = p.heap
    d = ref.obj
    if ref.path:
        raise Unsupported('guard of embedded data')
    c = node_of(d)
    h.contract_used.add(('guard', f['id']))
    if d.contents_dead:
        raise Violation('contract', 'guard of destroyed data')
    if 'G' in c.obj and c.obj['G'].contents_dead:
        raise Unsupported('guard recreated')
    if 'G' in c.obj or p.choose(c.b['G'], 'guard exists'):
        o = h.get(c, 'G')
        m.inc(p, o)
        return RcV(o)
    o = h.made(c, 'G')

    def bad():
        raise Unsupported('ancestors of a guard made by contract')
    ty = h.T['G']
    o.val = h.struct_raw(ty, {'_parent': bad, 'clone_child_gate': h.gate(h.fty(ty, 'clone_child_gate')),
                              'downgrade_gate': h.gate(h.fty(ty, 'downgrade_gate'))}, o, False)
    o.strong = 1
    h.new_current(p, d, c, o)
    c.up = True
    c.Aforce = c.pb['D']
    return RcV(o)


def has_weak(m, p, f, d):
    h = p.heap
    c = node_of(d)
    h.contract_used.add(('has_weak', f['id']))
    if d.contents_dead:
        raise Violation('contract', 'query on destroyed data')
    return h.nb(c)['S']
