"""Assumed contracts of the standard library (reference counting, boxes, vectors, cells behind atomics,
raw slices) and the inductive contracts used at recursive calls of the code itself."""
import re, z3
from core import *
from heap import LIM, iff, tokens, lazies


class Models:
    def __init__(self, prog, T, fl, zst, glue):
        self.prog, self.T, self.fl, self.zst, self.glue = prog, T, fl, zst, glue
        self.kind_of = {T[k]: k for k in ('D', 'I', 'G', 'SA', 'GN') if T.get(k) is not None}
        self.item = T['item']
        self.used = set()
        import contracts
        self.contracts = {}
        for k, c in (('D', contracts.kill_D), ('I', contracts.kill_I), ('G', contracts.kill_G)):
            if T.get(k) is not None and glue.get(T[k]) is not None:
                self.contracts[glue[T[k]]] = c

    # ------------------------------------------------------------ dispatch
    def call(self, p, f, args, dty, span):
        n = f['n']
        h = TABLE.get(n)
        if h is None:
            m = re.match(r'<(std::(?:rc|sync|boxed|vec|collections)[\w:]*|&(?:mut )?\S+) as ([\w:]+)>::(\w+)$', n)
            if m:
                h = TABLE.get('<%s>::%s' % (m.group(1), m.group(3)))
            if h is None:
                for pre, fn in PREFIX:
                    if n.startswith(pre):
                        h = fn
                        break
        if h is None:
            if f.get('intrinsic'):
                h = INTR.get(f['intrinsic'])
        if h is None:
            return NotImplemented
        self.used.add(n)
        self.cur = f
        return h(self, p, f, args, dty)

    # ------------------------------------------------------------ helpers
    def pointee(self, p, t):
        return p.tk(t)['args'][0]

    def rcarg(self, p, a):
        """The Rc/Arc/Weak value behind a reference argument."""
        v = p.strip(a) if isinstance(a, Agg) else a
        if isinstance(v, Ptr):
            v = p.load(v.obj, v.path)
            v = p.strip(v) if isinstance(v, Agg) else v
        if not isinstance(v, (RcV, WeakV)):
            raise Unsupported('expected a counted pointer, got %r' % (v,))
        return v

    def mknew(self, p, ty, val, boxed=False):
        k = self.kind_of.get(ty)
        if k is None:
            raise Unsupported('allocation of ' + p.tk(ty)['s'])
        o = p.heap.obj_new(k, ty, fresh=True, name='new%s%d' % (k, len(p.heap.objs)))
        o.val = val
        o.boxed = boxed
        if not boxed:
            o.strong = 1
        if k == 'SA':
            self.bind_sa(p, o)
        return o

    def bind_sa(self, p, o):
        for x in o.val.f:
            x = p.strip(x) if isinstance(x, Agg) else x
            if isinstance(x, IPtr):
                b = x.block
                if b.sa is not None:
                    raise Violation('storage', 'a second storage object for the same memory')
                b.sa = o

    def strong_of(self, o):
        if o.strong is None:
            raise Unsupported('no reference count for %r' % o)
        return o.strong

    def inc(self, p, o):
        s = self.strong_of(o)
        p.need('memory', Not(eqv(s, 0)), 'reference count of a destroyed %s incremented' % o)
        o.strong = add(s, 1)

    def dec(self, p, o):
        s = self.strong_of(o)
        p.need('memory', Not(eqv(s, 0)), 'a reference to %s released twice' % o)
        o.strong = sub(s, 1)
        if p.choose(eqv(o.strong, 0), 'last reference'):
            self.kill(p, o)

    def incw(self, o):
        if o is not None:
            o.weak = add(o.weak, 1)

    def decw(self, p, o):
        if o is not None:
            p.need('memory', Not(eqv(o.weak, 0)), 'a weak reference to %s released twice' % o)
            o.weak = sub(o.weak, 1)

    def kill(self, p, o):
        o.contents_dead = True
        o.strong = 0
        if o.kind == 'dead':
            raise Violation('memory', 'destroyed object destroyed again')
        gid = self.glue.get(o.ty)
        if gid is None:
            raise Unsupported('drop glue of %r' % o)
        p.heap.place_kids(o)
        try:
            if gid in self.contracts and any(x.fn['id'] == gid for x in p.stack):
                self.contracts[gid](self, p, o, gid)
            else:
                p.run_fn(gid, [Ptr(o)])
        finally:
            o.gone = True         # also when a destructor panics: the counted pointer gives its memory back

    def dec_by_contract(self, p, o):
        """Release of a reference inside an inductive contract: a last release is summarised too."""
        import contracts
        p.need('memory', Not(eqv(o.strong, 0)), 'a reference to %s released twice' % o)
        o.strong = sub(o.strong, 1)
        if p.choose(eqv(o.strong, 0), 'last reference'):
            o.contents_dead = o.gone = True
            o.strong = 0
            contracts.kill_G(self, p, o, self.glue[o.ty])

    # ------------------------------------------------------------ drops
    def drop(self, p, pl, ty, d):
        if pl[0] == 'fat':
            self.drop_items(p, pl[1])
            return True
        if pl[0] == 'item':
            self.drop_items(p, Fat(IPtr(pl[1], pl[2]), 1))
            return True
        if pl[0] != 'obj':
            return NotImplemented
        obj, path = pl[1], pl[2]
        k = d['k']
        if k == 'adt':
            n = d['name']
            if n in RCS:
                v = self.one(p, p.load(obj, path))
                self.moved(p, obj, path)
                self.dec(p, v.obj)
                return True
            if n in WEAKS:
                v = self.one(p, p.load(obj, path))
                self.moved(p, obj, path)
                self.decw(p, v.obj)
                return True
            if n == 'std::boxed::Box':
                v = self.one(p, p.load(obj, path))
                self.moved(p, obj, path)
                self.drop_box(p, v, d)
                return True
            if n == 'std::vec::Vec':
                v = self.one(p, p.load(obj, path))
                self.moved(p, obj, path)
                self.drop_vec(p, v, d)
                return True
            if n == 'std::collections::VecDeque':
                v = p.load(obj, path)
                self.moved(p, obj, path)
                raise Unsupported('drop of a deque')
            if ty == self.item:
                v = p.load(obj, path)
                self.moved(p, obj, path)
                self.drop_item(p, v)
                return True
            if n in ('std::mem::ManuallyDrop', 'std::mem::MaybeUninit'):
                return True
        if k == 'slice':
            raise Unsupported('slice place')
        return NotImplemented

    def one(self, p, v):
        return p.strip(v) if isinstance(v, Agg) else v

    def moved(self, p, obj, path):
        try:
            p.store(obj, path, UNINIT)
        except Violation:
            raise

    def drop_item(self, p, v):
        if not isinstance(v, ItemV):
            raise Unsupported('drop of item %r' % (v,))
        p.ev('drop', v.block, v.idx, 1, 'value')
        p.may_unwind('item destructor')

    def storage_alive(self, p, b, ln, what):
        if b.zst:
            return
        c = eqv(ln, 0)
        if b.freed:
            p.need('storage', c, what + ' after the storage was freed')
            return
        if b.fresh_storage:
            return
        sa = p.heap.sa(b)
        if getattr(sa, 'gone', False) or sa.contents_dead:
            p.need('storage', c, what + ' after the storage was released')
        else:
            p.need('storage', Or(c, Not(eqv(sa.strong, 0))), what + ' after the storage was released')

    def drop_items(self, p, fat):
        ptr, ln = fat.data, fat.meta
        ptr = p.strip(ptr) if isinstance(ptr, Agg) else ptr
        if not isinstance(ptr, IPtr):
            if p.valid(eqv(ln, 0)) is True:
                return
            raise Unsupported('drop of items at %r' % (ptr,))
        if isinstance(ln, int) and ln == 0:
            return
        self.in_bounds(p, ptr, ln, 'items dropped')
        self.storage_alive(p, ptr.block, ln, 'items dropped')
        p.ev('drop', ptr.block, ptr.idx, ln, 'range')
        p.may_unwind('item destructor', Not(eqv(ln, 0)))      # the other items of the range are dropped all the same

    def in_bounds(self, p, ptr, ln, what):
        if ptr.block.zst:
            return
        b = ptr.block
        c = And(ule(ptr.idx, b.len), ule(ln, sub(b.len, ptr.idx)))
        p.need('memory', Or(eqv(ln, 0), c), what + ' outside the memory block')

    def read_item(self, p, b, idx):
        self.in_bounds(p, IPtr(b, idx), 1, 'item read')
        self.storage_alive(p, b, 1, 'item read')
        return ItemV(b, idx)

    def free_block(self, p, b, idx, ln):
        if b.zst:
            return
        if p.choose(eqv(ln, 0), 'empty block'):
            return
        p.need('storage', eqv(idx, 0), 'storage freed at an address inside the block')
        p.need('storage', eqv(ln, b.len), 'storage freed with a size other than it was allocated with')
        if b.freed:
            raise Violation('storage', 'storage freed twice')
        b.freed = True
        p.ev('free', b)

    def noitems(self, p, t):
        d = p.tk(t)
        return d['k'] == 'adt' and d['name'] in ('std::mem::ManuallyDrop', 'std::mem::MaybeUninit')

    def drop_box(self, p, v, d):
        if isinstance(v, BoxV) and isinstance(v.obj, Fat):
            fat = v.obj
            et = p.tk(d['args'][0])
            el = et.get('to') or et.get('elem') or (et.get('args') or [None])[0]
            ptr = p.strip(fat.data) if isinstance(fat.data, Agg) else fat.data

            def free():
                if isinstance(ptr, IPtr):
                    self.free_block(p, ptr.block, ptr.idx, fat.meta)
            if el is None or not self.noitems(p, el):
                try:
                    self.drop_items(p, fat)
                except Unwind:
                    free()
                    raise
            free()
            return
        if not (isinstance(v, BoxV) and isinstance(v.obj, Obj)):
            raise Unsupported('drop of %r' % (v,))
        o = v.obj
        if o.dead:
            raise Violation('memory', '%s freed twice' % o)
        gid = self.glue.get(o.ty)
        try:
            if gid is not None:
                p.run_fn(gid, [Ptr(o)])
        finally:
            o.dead = o.gone = True

    def drop_vec(self, p, v, d):
        if not isinstance(v, VecV):
            raise Unsupported('drop of %r' % (v,))
        ptr = p.strip(v.data) if isinstance(v.data, Agg) else v.data
        def free():
            if isinstance(ptr, IPtr):
                self.free_block(p, ptr.block, ptr.idx, v.cap)
            elif p.valid(eqv(v.cap, 0)) is not True:
                raise Unsupported('vector storage %r' % (ptr,))
        if not self.noitems(p, d['args'][0]):
            try:
                self.drop_items(p, Fat(ptr, v.len))
            except Unwind:
                free()
                raise
        free()

    # ------------------------------------------------------------ pointer arithmetic
    def ptr_add(self, p, x, n, neg=False):
        x = p.strip(x) if isinstance(x, Agg) else x
        if isinstance(x, IPtr):
            if x.block.zst:
                return x
            i = sub(x.idx, n) if neg else add(x.idx, n)
            b = x.block
            if b.name != 'dangling':
                if neg:
                    p.need('memory', ule(n, x.idx), 'pointer moved before its memory block')
                else:
                    p.need('memory', ule(n, sub(b.len, x.idx)), 'pointer moved past its memory block')
            elif p.valid(eqv(n, 0)) is not True:
                raise Violation('memory', 'arithmetic on a dangling pointer')
            return IPtr(b, i)
        raise Unsupported('arithmetic on %r' % (x,))

    # ------------------------------------------------------------ loops
    def loop_head(self, p, fr, bb):
        if not getattr(fr, 'digs', None):
            fr.digs = {}
        d = self.digest(p, fr)
        if d is None:
            return
        s = fr.digs.setdefault(bb, set())
        if d in s:
            p.cut = True
            raise Prune()      # same state as on an earlier visit: covered by that visit's paths
        s.add(d)

    def digest(self, p, fr):
        """A canonical description of everything the rest of the path can depend on."""
        ids = {}
        out = []

        def num(v):
            if z3.is_expr(v):
                p.keep.append(v)      # keeps the identity of the term unique
                return '#%d' % v.get_id()
            return str(v)

        def val(v):
            if isinstance(v, Lazy):
                return val(v.v) if v.done else 'U'
            if isinstance(v, Agg):
                return '(%s#%s %s)' % (v.ty, v.var, ' '.join(val(x) for x in v.f))
            if isinstance(v, RcV):
                return 'R' + ref(v.obj)
            if isinstance(v, WeakV):
                return 'W' + (ref(v.obj) if v.obj is not None else '-')
            if isinstance(v, BoxV):
                return 'B' + (ref(v.obj) if isinstance(v.obj, Obj) else val(v.obj))
            if isinstance(v, Ptr):
                return 'P' + ref(v.obj) + str(v.path)
            if isinstance(v, IPtr):
                return 'I(%s,%s)' % (v.block, num(v.idx))
            if isinstance(v, Fat):
                return 'F(%s,%s)' % (val(v.data), num(v.meta))
            if isinstance(v, ItemV):
                return 'item(%s,%s)' % (v.block, num(v.idx))
            if isinstance(v, VecV):
                return 'V(%s,%s,%s)' % (val(v.data), num(v.len), num(v.cap))
            if isinstance(v, (int, bool)) or z3.is_expr(v):
                return num(v)
            if isinstance(v, (AddrI,)):
                return 'A' + val(v.p)
            if isinstance(v, Bytes):
                return 'b' + num(v.k)
            return type(v).__name__

        todo = []

        def ref(o):
            if o.dead:
                return 'freed'
            if o.id not in ids:
                ids[o.id] = len(ids)
                todo.append(o)
            return '%s%d' % (o.kind, ids[o.id])

        def cnt(o):
            def d(a, b):
                return num(sub(a, b)) if a is not None and b is not None else '-'
            return '%s%s%s/%s' % ('x' if o.contents_dead else '', 'g' if getattr(o, 'gone', False) else '', d(o.strong, o.strong0), d(o.weak, o.weak0))
        for f in p.stack:
            out.append('f%d.%d' % (f.fn['id'], f.bb))
            for l in f.locals:
                out.append(val(l.val))
        while todo:
            o = todo.pop(0)
            nd = o.node.id if o.node is not None and o.kind != 'GN' else '-'
            out.append('%s@%s %s %s' % (o.kind, nd, cnt(o), val(o.val)))
        for o in p.heap.objs:
            if o.id in ids or o.dead or o.kind in ('dead', 'GN', 'local'):
                continue
            out.append('%s@%s %s' % (o.kind, o.node.id if o.node is not None else '-', cnt(o)))
        out.append(str(p.unwound))
        out.append(str([(e[0], [num(x) for x in e[1:]]) for e in p.events]))
        out.append(str([(b.name, b.freed) for b in p.heap.blocks]))
        return '|'.join(out)

    # ------------------------------------------------------------ recursion
    def recursion(self, p, f, args, dty):
        """A call of a function that is already on the stack: use its inductive contract."""
        d = p.tk(dty)
        if len(args) != 1:
            return NotImplemented
        a = args[0]
        if not isinstance(a, Ptr):
            return NotImplemented
        v = p.load(a.obj, a.path)
        s = p.strip(v) if isinstance(v, Agg) else v
        T = self.T
        if isinstance(v, Agg) and v.ty == T['D']:
            if d['k'] == 'tuple' and not d['fields']:
                import contracts
                return contracts.forget(self, p, f, a, v)
            if d['k'] == 'adt' and d['name'] in RCS and d['args'][0] == T['G']:
                import contracts
                return contracts.guard(self, p, f, a)
        if isinstance(s, RcV):
            import contracts
            if d['k'] == 'adt' and d['name'] in RCS and d['args'][0] == T.get('I') and s.obj.kind == 'G':
                return contracts.ensure(self, p, f, s.obj)
            if d['k'] == 'bool' and s.obj.kind == 'D':
                return contracts.has_weak(self, p, f, s.obj)
            if d['k'] == 'adt' and d['name'] in RCS and d['args'][0] == T['G'] and s.obj.kind == 'D':
                return contracts.guard(self, p, f, Ptr(s.obj))
        return NotImplemented


RCS = ('std::rc::Rc', 'std::sync::Arc')
WEAKS = ('std::rc::Weak', 'std::sync::Weak')
TABLE = {}
PREFIX = []
INTR = {}


def model(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


def both(*names):
    """For std::rc::Rc and std::sync::Arc alike."""
    def deco(fn):
        for n in names:
            for a, b in (('std::rc::Rc', 'std::rc::Weak'), ('std::sync::Arc', 'std::sync::Weak')):
                TABLE[n.replace('RC', a).replace('WEAK', b)] = fn
        return fn
    return deco


# ---------------------------------------------------------------- Rc / Arc
@both('RC::new')
def rc_new(m, p, f, a, dty):
    return RcV(m.mknew(p, m.pointee(p, dty), a[0]))


@both('<RC>::clone')
def rc_clone(m, p, f, a, dty):
    v = m.rcarg(p, a[0])
    m.inc(p, v.obj)
    return RcV(v.obj)


@both('<RC>::deref', '<RC>::as_ref', '<RC>::borrow')
def rc_deref(m, p, f, a, dty):
    v = m.rcarg(p, a[0])
    o = v.obj
    if getattr(o, 'gone', False) or o.dead:
        raise Violation('memory', 'access to the destroyed %s' % o)
    return Ptr(o)


@both('RC::as_ptr')
def rc_as_ptr(m, p, f, a, dty):
    return Ptr(m.rcarg(p, a[0]).obj)


@both('RC::downgrade')
def rc_downgrade(m, p, f, a, dty):
    v = m.rcarg(p, a[0])
    m.incw(v.obj)
    return WeakV(v.obj)


@both('RC::from_raw')
def rc_from_raw(m, p, f, a, dty):
    v = m.one(p, a[0])
    if not isinstance(v, Ptr) or v.path or v.obj.strong is None:
        raise Unsupported('from_raw of %r' % (v,))
    return RcV(v.obj)


@both('RC::into_raw')
def rc_into_raw(m, p, f, a, dty):
    return Ptr(a[0].obj)


@both('RC::increment_strong_count')
def rc_incs(m, p, f, a, dty):
    m.inc(p, m.one(p, a[0]).obj)
    return Agg(dty, 0, [])


@both('RC::decrement_strong_count')
def rc_decs(m, p, f, a, dty):
    m.dec(p, m.one(p, a[0]).obj)
    return Agg(dty, 0, [])


@both('RC::strong_count')
def rc_sc(m, p, f, a, dty):
    return m.strong_of(m.rcarg(p, a[0]).obj)


@both('RC::weak_count')
def rc_wc(m, p, f, a, dty):
    return m.rcarg(p, a[0]).obj.weak


@both('WEAK::strong_count')
def w_sc(m, p, f, a, dty):
    o = m.rcarg(p, a[0]).obj
    return 0 if o is None else m.strong_of(o)


@both('WEAK::weak_count')
def w_wc(m, p, f, a, dty):
    o = m.rcarg(p, a[0]).obj
    if o is None:
        return 0
    return o.weak if p.choose(Not(eqv(m.strong_of(o), 0)), 'strong') else 0


@both('RC::ptr_eq', 'WEAK::ptr_eq')
def rc_ptr_eq(m, p, f, a, dty):
    return m.rcarg(p, a[0]).obj is m.rcarg(p, a[1]).obj


@both('RC::get_mut')
def rc_get_mut(m, p, f, a, dty):
    v = m.rcarg(p, a[0])
    o = v.obj
    if p.choose(And(eqv(m.strong_of(o), 1), eqv(o.weak, 0)), 'unique'):
        return Agg(dty, 1, [Ptr(o)])
    return Agg(dty, 0, [])


@both('RC::try_unwrap')
def rc_try_unwrap(m, p, f, a, dty):
    o = a[0].obj
    if p.choose(eqv(m.strong_of(o), 1), 'unique'):
        return Agg(dty, 0, [take_contents(m, p, o)])
    return Agg(dty, 1, [a[0]])


@both('RC::into_inner')
def rc_into_inner(m, p, f, a, dty):
    o = a[0].obj
    if p.choose(eqv(m.strong_of(o), 1), 'unique'):
        return Agg(dty, 1, [take_contents(m, p, o)])
    m.dec(p, o)
    return Agg(dty, 0, [])


def take_contents(m, p, o):
    v = o.val.force() if isinstance(o.val, Lazy) else o.val
    o.strong = 0
    o.contents_dead = o.gone = o.moved_out = True
    v = copyval(v)
    if isinstance(v, Agg):
        v.o = o
    o.val = UNINIT
    return v


@both('WEAK::new')
def w_new(m, p, f, a, dty):
    return WeakV(None)


@model('<std::rc::Weak>::default', '<std::sync::Weak>::default')
def w_default(m, p, f, a, dty):
    return WeakV(None)


@both('<WEAK>::clone')
def w_clone(m, p, f, a, dty):
    v = m.rcarg(p, a[0])
    m.incw(v.obj)
    return WeakV(v.obj)


@both('WEAK::upgrade')
def w_upgrade(m, p, f, a, dty):
    o = m.rcarg(p, a[0]).obj
    if o is None or not p.choose(Not(eqv(m.strong_of(o), 0)), 'upgrade'):
        return Agg(dty, 0, [])
    o.strong = add(o.strong, 1)
    return Agg(dty, 1, [RcV(o)])


# ---------------------------------------------------------------- Box / Vec / slices
@model('std::boxed::Box::new')
def box_new(m, p, f, a, dty):
    return BoxV(m.mknew(p, m.pointee(p, dty), a[0], True))


@model('std::boxed::Box::into_raw', 'std::boxed::Box::leak', 'std::boxed::Box::into_raw_with_allocator')
def box_into_raw(m, p, f, a, dty):
    v = m.one(p, a[0])
    return v.obj if isinstance(v.obj, Fat) else Ptr(v.obj)


@model('std::boxed::Box::from_raw')
def box_from_raw(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, Fat):
        return BoxV(v)
    if isinstance(v, Ptr) and not v.path:
        if v.obj.dead:
            raise Violation('memory', '%s freed twice' % v.obj)
        return BoxV(v.obj)
    raise Unsupported('Box::from_raw of %r' % (v,))


@model('std::vec::Vec::from_raw_parts')
def vec_from_raw(m, p, f, a, dty):
    return VecV(m.one(p, a[0]), a[1], a[2])


@model('std::vec::Vec::into_boxed_slice')
def vec_into_box(m, p, f, a, dty):
    v = a[0]
    # a shrinking reallocation: the block now has exactly `len` items
    v.data.block.len = v.len
    return BoxV(Fat(v.data, v.len))


@model('std::slice::into_vec', 'core::slice::into_vec')
def box_into_vec(m, p, f, a, dty):
    fat = a[0].obj
    return VecV(fat.data, fat.meta, fat.meta)


@model('std::vec::Vec::new')
def vec_new(m, p, f, a, dty):
    return VecV(0, 0, 0)


@model('std::vec::Vec::len')
def vec_len(m, p, f, a, dty):
    return p.load(a[0].obj, a[0].path).len


@model('std::vec::Vec::is_empty')
def vec_is_empty(m, p, f, a, dty):
    return eqv(p.load(a[0].obj, a[0].path).len, 0)


def fatof(p, v):
    if isinstance(v, Ptr):
        v = p.load(v.obj, v.path)
    if isinstance(v, BoxV) and isinstance(v.obj, Fat):
        v = v.obj
    if isinstance(v, VecV):
        v = Fat(v.data, v.len)
    if not isinstance(v, Fat):
        raise Unsupported('slice %r' % (v,))
    return v


@model('core::slice::len', 'std::slice::len', 'std::ptr::const_ptr::len', 'std::ptr::mut_ptr::len')
def slice_len(m, p, f, a, dty):
    return fatof(p, a[0]).meta


@model('core::slice::is_empty', 'std::slice::is_empty')
def slice_is_empty(m, p, f, a, dty):
    return eqv(fatof(p, a[0]).meta, 0)


@model('core::slice::as_ptr', 'core::slice::as_mut_ptr', 'std::slice::as_ptr', 'std::slice::as_mut_ptr', 'std::vec::Vec::as_ptr',
       'std::vec::Vec::as_mut_ptr')
def slice_as_ptr(m, p, f, a, dty):
    return fatof(p, a[0]).data


@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'std::ptr::slice_from_raw_parts',
       'std::ptr::slice_from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut')
def from_raw_parts(m, p, f, a, dty):
    ptr = m.one(p, a[0])
    if isinstance(ptr, IPtr) and 'slice_from' not in f['n']:
        m.in_bounds(p, ptr, a[1], 'slice formed')
        m.storage_alive(p, ptr.block, a[1], 'slice formed')
    return Fat(ptr, a[1])


# ---------------------------------------------------------------- raw pointers
@model('std::ptr::const_ptr::add', 'std::ptr::mut_ptr::add', 'std::ptr::NonNull::add')
def ptr_add(m, p, f, a, dty):
    return p.wrap(m.ptr_add(p, a[0], a[1]), dty)


@model('std::ptr::const_ptr::sub', 'std::ptr::mut_ptr::sub', 'std::ptr::NonNull::sub')
def ptr_sub(m, p, f, a, dty):
    return p.wrap(m.ptr_add(p, a[0], a[1], True), dty)


@model('std::ptr::const_ptr::offset_from', 'std::ptr::mut_ptr::offset_from', 'std::ptr::NonNull::offset_from')
def ptr_offset_from(m, p, f, a, dty):
    x, y = m.one(p, a[0]), m.one(p, a[1])
    if isinstance(x, IPtr) and isinstance(y, IPtr) and x.block is y.block:
        return sub(x.idx, y.idx)
    raise Unsupported('offset_from')


@model('std::ptr::const_ptr::is_null', 'std::ptr::mut_ptr::is_null')
def is_null(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, int):
        return v == 0
    if isinstance(v, (Ptr, IPtr, Fat)):
        return False
    raise Unsupported('is_null of %r' % (v,))


@model('std::ptr::null_mut', 'std::ptr::null')
def null(m, p, f, a, dty):
    return 0


@model('std::ptr::NonNull::new')
def nn_new(m, p, f, a, dty):
    v = m.one(p, a[0])
    if v == 0 and isinstance(v, int):
        return Agg(dty, 0, [])
    return Agg(dty, 1, [p.wrap(v, p.heap.opt_arg(dty))])


@model('std::ptr::NonNull::new_unchecked')
def nn_newu(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, int) and v == 0:
        raise Violation('memory', 'NonNull of null')
    return p.wrap(v, dty)


@model('std::ptr::NonNull::as_ptr', 'std::ptr::NonNull::cast', 'std::ptr::const_ptr::cast', 'std::ptr::mut_ptr::cast',
       'std::ptr::const_ptr::cast_mut', 'std::ptr::mut_ptr::cast_const')
def nn_as_ptr(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, Fat):
        d = p.tk(dty)
        to = d.get('to') or (d.get('args') or [None])[0]
        if to is not None and p.tk(to)['k'] not in ('slice', 'str'):
            v = m.one(p, v.data)
    return p.wrap(v, dty)


@model('std::ptr::NonNull::as_ref', 'std::ptr::NonNull::as_mut')
def nn_as_ref(m, p, f, a, dty):
    v = a[0]
    while isinstance(v, Ptr) and isinstance(p.load(v.obj, v.path), (Agg, Ptr, IPtr)) and p.tk(dty).get('to') is not None:
        w = m.one(p, p.load(v.obj, v.path))
        if isinstance(w, (Ptr, IPtr)):
            return w
        break
    raise Unsupported('NonNull::as_ref')


@model('std::ptr::NonNull::dangling', 'std::ptr::dangling', 'std::ptr::dangling_mut')
def dangling(m, p, f, a, dty):
    b = Block('dangling', 0, m.zst)
    b.fresh_storage = True
    return p.wrap(IPtr(b, 0), dty)


@model('std::ptr::read', 'std::ptr::const_ptr::read', 'std::ptr::mut_ptr::read', 'std::ptr::NonNull::read')
def ptr_read(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, IPtr):
        return m.read_item(p, v.block, v.idx)
    if isinstance(v, Ptr):
        return copyval(p.load(v.obj, v.path))
    raise Unsupported('read of %r' % (v,))


@model('std::ptr::write', 'std::ptr::mut_ptr::write')
def ptr_write(m, p, f, a, dty):
    v = m.one(p, a[0])
    if not isinstance(v, Ptr):
        raise Unsupported('write to %r' % (v,))
    p.store(v.obj, v.path, a[1])
    return Agg(dty, 0, [])


@model('std::ptr::drop_in_place', 'std::ptr::mut_ptr::drop_in_place')
def drop_in_place(m, p, f, a, dty):
    v = m.one(p, a[0])
    if isinstance(v, Fat):
        m.drop_items(p, v)
        return Agg(dty, 0, [])
    if isinstance(v, IPtr):
        m.drop_items(p, Fat(v, 1))
        return Agg(dty, 0, [])
    return NotImplemented


# ---------------------------------------------------------------- mem
@model('std::mem::size_of', 'core::mem::size_of')
def size_of(m, p, f, a, dty):
    g = re.search(r'size_of::<(.*)>$', f['name'])
    t = g and g.group(1).replace('h::', '')
    if t == 'SItem':
        return SIZE
    if t == 'ZItem':
        return 0
    ty = p.prog.by_s.get(t)
    if ty is None or 'size' not in p.tk(ty):
        raise Unsupported('size_of ' + str(t))
    return p.tk(ty)['size']


@model('std::mem::forget')
def forget(m, p, f, a, dty):
    return Agg(dty, 0, [])


@model('std::mem::drop')
def mem_drop(m, p, f, a, dty):
    return NotImplemented


@model('std::mem::zeroed')
def zeroed(m, p, f, a, dty):
    if dty == m.item and m.zst:
        return ItemV(None, 0)
    raise Unsupported('zeroed')


@model('std::mem::replace')
def replace(m, p, f, a, dty):
    o = copyval(p.load(a[0].obj, a[0].path))
    p.store(a[0].obj, a[0].path, a[1])
    return o


@model('std::mem::swap')
def swap(m, p, f, a, dty):
    x = copyval(p.load(a[0].obj, a[0].path))
    y = copyval(p.load(a[1].obj, a[1].path))
    p.store(a[0].obj, a[0].path, y)
    p.store(a[1].obj, a[1].path, x)
    return Agg(dty, 0, [])


@model('std::mem::ManuallyDrop::new')
def md_new(m, p, f, a, dty):
    return p.wrap(a[0], dty) if not isinstance(a[0], Agg) else Agg(dty, 0, [a[0]] if len(p.tk(dty)['variants'][0]['fields']) == 1 else None)


@model('std::option::Option::take')
def opt_take(m, p, f, a, dty):
    o = copyval(p.load(a[0].obj, a[0].path))
    p.store(a[0].obj, a[0].path, Agg(dty, 0, []))
    return o


# ---------------------------------------------------------------- atomics (single-threaded meaning)
def aload(p, r):
    v = p.load(r.obj, r.path)
    return p.getfield(v, 0)


def astore(p, r, x):
    p.load(r.obj, r.path).f[0] = x


ATOM = 'std::sync::atomic::Atomic'


@model(ATOM + '::new')
def at_new(m, p, f, a, dty):
    return Agg(dty, 0, [a[0]])


@model('<%s>::default' % ATOM)
def at_default(m, p, f, a, dty):
    if 'bool' in p.tk(dty)['s']:
        return Agg(dty, 0, [False])
    return Agg(dty, 0, [0])


@model(ATOM + '::load')
def at_load(m, p, f, a, dty):
    return aload(p, a[0])


@model(ATOM + '::store')
def at_store(m, p, f, a, dty):
    astore(p, a[0], a[1])
    return Agg(dty, 0, [])


@model(ATOM + '::swap')
def at_swap(m, p, f, a, dty):
    o = aload(p, a[0])
    astore(p, a[0], a[1])
    return o


@model(ATOM + '::get_mut')
def at_get_mut(m, p, f, a, dty):
    aload(p, a[0])
    return Ptr(a[0].obj, a[0].path + (0,))


@model(ATOM + '::into_inner')
def at_into_inner(m, p, f, a, dty):
    return p.getfield(a[0], 0)


def same(p, x, y):
    if isinstance(x, Ptr) and isinstance(y, Ptr):
        return x.obj is y.obj and x.path == y.path
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        return False
    return p.choose(eqv(x, y), 'cas')


@model(ATOM + '::compare_and_swap')
def at_cas(m, p, f, a, dty):
    o = aload(p, a[0])
    if same(p, o, a[1]):
        astore(p, a[0], a[2])
    return o


@model(ATOM + '::compare_exchange', ATOM + '::compare_exchange_weak')
def at_cx(m, p, f, a, dty):
    o = aload(p, a[0])
    if same(p, o, a[1]):
        if f['n'].endswith('_weak') and not p.choose(p.freshb('spurious'), 'spurious'):
            return Agg(dty, 1, [o])
        astore(p, a[0], a[2])
        return Agg(dty, 0, [o])
    return Agg(dty, 1, [o])


# ---------------------------------------------------------------- panics and noise
def panics(m, p, f, a, dty):
    raise Panic(f['n'])


for n in ('core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::assert_failed', 'core::panicking::unreachable_display',
          'std::option::expect_failed', 'std::option::unwrap_failed', 'std::result::unwrap_failed', 'core::panicking::panic_nounwind_fmt',
          'std::rt::begin_panic', 'std::rt::panic_fmt', 'core::panicking::panic_explicit', 'core::panicking::panic_str_2015',
          'core::panicking::panic_nounwind', 'std::rt::panic_display', 'core::panicking::panic_display'):
    TABLE[n] = panics
PREFIX.append(('core::panicking::', panics))


def noise(m, p, f, a, dty):
    return Str()


PREFIX.append(('core::fmt::rt::', noise))
PREFIX.append(('std::fmt::Arguments::', noise))


def unit(m, p, f, a, dty):
    return Agg(dty, 0, [])


for n in ('std::ptr::NonNull::new_unchecked::precondition_check', 'std::hint::spin_loop', 'std::intrinsics::assert_inhabited',
          'std::hint::assert_unchecked::precondition_check', 'std::intrinsics::assert_zero_valid'):
    TABLE[n] = unit
INTR['assert_inhabited'] = INTR['assert_zero_valid'] = INTR['assume'] = unit


@model('std::intrinsics::ctpop')
def ctpop(m, p, f, a, dty):
    x = p.evaluate(a[0], True)
    if isinstance(x, int):
        return bin(x).count('1')
    if z3.is_bool(x):
        raise Unsupported('ctpop')
    r = p.fresh('ctpop', 8)
    p.assume(And(ule(r, 64), iff(eqv(r, 0), eqv(x, 0)), iff(eqv(r, 1), pow2(x))))
    return r


def pow2(x):
    if isinstance(x, int):
        return x > 0 and x & (x - 1) == 0
    return z3.Or([iv(x) == (1 << j) for j in range(64)])


@model('std::intrinsics::cttz', 'std::intrinsics::cttz_nonzero')
def cttz(m, p, f, a, dty):
    x = p.evaluate(a[0], True)
    if isinstance(x, int):
        if x == 0:
            return 64
        return (x & -x).bit_length() - 1
    j = p.lowbit(x)
    if j is not None:
        return j
    r = p.fresh('cttz', 8)
    p.assume(ule(r, 64))
    for j in range(65):
        p.assume(iff(eqv(r, j), And(*([eqv(simp(iv(x) % (1 << j)), 0)] + ([Not(eqv(simp(iv(x) % (2 << j)), 0))] if j < 64 else [])))))
    return r


@model('std::intrinsics::ctlz', 'std::intrinsics::ctlz_nonzero')
def ctlz(m, p, f, a, dty):
    x = p.evaluate(a[0], True)
    w = p.width(f['args'][0]) if f.get('args') else 64
    if isinstance(x, int):
        return w - x.bit_length()
    if w != 64:
        raise Unsupported('ctlz')
    r = p.fresh('ctlz', 8)
    p.assume(ule(r, 64))
    for j in range(64):
        p.assume(iff(ule(r, j), ule(1 << (63 - j), x)))
    return r


INTR['ctpop'] = ctpop
INTR['cttz'] = INTR['cttz_nonzero'] = cttz
INTR['ctlz'] = INTR['ctlz_nonzero'] = ctlz


def black_box(m, p, f, a, dty):
    return a[0]


TABLE['std::hint::black_box'] = black_box
TABLE['std::convert::identity'] = black_box
