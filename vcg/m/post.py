"""Post-state checks: the representation invariant again, reference counts, items, storage; and the
specifications of the public operations over it."""
import z3
from core import *
from heap import LIM, iff, tokens, lazies


class Post:
    def __init__(self, p, h, m):
        self.p, self.h, self.m = p, h, m
        self.viol = []        # (clause, message)
        self.nobl = {}        # clause -> number of proved conditions
        self.yields = []      # items handed out: (block, idx)
        self.post_M = []      # (block, lo, len) owned by unique values after
        self.post_boxes = []  # (block, len) owned as boxes after
        self.trunc = False
        self.skip_items = False
        self.unwound = False  # after unwinding: items and memory may be leaked, nothing else

    # ---- proving
    def prove(self, clause, c, msg):
        r = self.p.valid(c)
        if r is None:
            raise Unsupported('solver gave up on: ' + msg)
        self.nobl[clause] = self.nobl.get(clause, 0) + 1
        if not r:
            self.viol.append((clause, msg))
        return r

    def bad(self, clause, msg):
        if self.p.valid(False) is True:
            raise Prune()
        self.viol.append((clause, msg))

    # ---- values
    def fld(self, v, name):
        d = self.p.prog.types[v.ty]
        for i, (nm, _) in enumerate(d['variants'][0]['fields']):
            if nm == name:
                x = self.p.getfield(v, i)
                return self.deep(x)
        raise Unsupported('no field %s in %s' % (name, d['s']))

    def deep(self, x):
        if isinstance(x, Lazy):
            x = x.force()
        if isinstance(x, Agg) and x.ty is not None and self.p.prog.types[x.ty]['k'] == 'adt' and self.p.prog.types[x.ty]['adt'] == 'Struct':
            y = self.p.strip(x)
            return y
        return x

    def opt(self, x):
        """Option value -> None or content."""
        if not isinstance(x, Agg):
            raise Unsupported('option %r' % (x,))
        return None if x.var == 0 else self.deep(self.p.getfield(x, 0))

    def find(self, v, tys, out):
        if isinstance(v, Lazy):
            v = v.force()
        if isinstance(v, Agg):
            if v.ty in tys:
                out.append(v)
                return out
            for x in v.f:
                self.find(x, tys, out)
        elif isinstance(v, (ItemV, BoxV, VecV)):
            out.append(v)
        return out

    def ip(self, x):
        """An item pointer."""
        if isinstance(x, (Fat, Ptr)):
            raise Unsupported('items at %r' % (x,))
        return x

    def eqn(self, a, b):
        return eqv(a, b) if not (isinstance(a, int) and isinstance(b, int)) else a == b

    # ---- unique values
    def unique_parts(self, v):
        items = self.fld_raw(v, 'items')
        ptr, ln = self.fld(items, 'ptr'), self.fld(items, 'len')
        return ptr, ln, self.opt(self.fld_raw(v, 'alloc'))

    def fld_raw(self, v, name):
        d = self.p.prog.types[v.ty]
        for i, (nm, _) in enumerate(d['variants'][0]['fields']):
            if nm == name:
                x = self.p.getfield(v, i)
                return x
        raise Unsupported('no field %s in %s' % (name, d['s']))

    def iter_parts(self, v):
        it = self.fld_raw(v, 'iter')
        rng = it
        # the pair (start, end), wherever it is wrapped
        while isinstance(rng, Agg) and [n for n, _ in self.p.prog.types[rng.ty]['variants'][0]['fields']][:2] != ['start', 'end']:
            big = [j for j, x in enumerate(rng.f) if not (isinstance(x, Agg) and not x.f)]
            if len(big) != 1:
                raise Unsupported('iterator fields')
            rng = self.p.getfield(rng, big[0])
        s, e = self.fld(rng, 'start'), self.fld(rng, 'end')
        al = self.opt(self.fld_raw(v, 'alloc'))
        if self.h.zst:
            return None, 0, self.num(s), self.num(e), al
        if not (isinstance(s, IPtr) and isinstance(e, IPtr)):
            raise Unsupported('iterator range %r' % (s,))
        if s.block is not e.block:
            raise Violation('range', 'iterator range across blocks')
        return s.block, s.idx, s.idx, e.idx, al

    def num(self, x):
        if isinstance(x, AddrI):
            x = x.p
        if isinstance(x, (Ptr, IPtr, Fat, Bytes, SizeTok)):
            raise Unsupported('index %r' % (x,))
        return x

    def check_unique(self, v, want=None, clause='range', what='the slice'):
        """v must be a well-formed unique slice; want = (block, lo, len)."""
        ptr, ln, al = self.unique_parts(v)
        if not isinstance(ptr, IPtr):
            raise Unsupported('unique slice at %r' % (ptr,))
        b = ptr.block
        h = self.h
        if want is not None:
            wb, wlo, wln = want
            self.prove(clause, self.eqn(ln, wln), '%s has the wrong length' % what)
            if not h.zst:
                if b is not wb:
                    self.prove(clause, eqv(ln, 0), '%s refers to other memory' % what)
                else:
                    self.prove(clause, Or(eqv(ln, 0), self.eqn(ptr.idx, wlo)), '%s starts at the wrong item' % what)
        if not h.zst:
            self.prove('memory', Or(eqv(ln, 0), And(ule(ptr.idx, b.len), ule(ln, sub(b.len, ptr.idx)))), '%s reaches outside its memory block' % what)
        self.check_alloc(al, b, ln, what)
        self.post_M.append((b, ptr.idx, ln))
        return b, ptr.idx, ln

    def check_alloc(self, al, b, ln, what):
        if self.h.zst and b.zalloc is None:
            if self.p.valid(eqv(ln, 0)) is not True:
                b.zalloc = al is not None
            elif b.fresh_storage or b.sa is not None:
                return
            else:
                self.h.zallocated(b)
        if al is None:
            if not self.h.zst or b.zalloc:
                self.prove('storage', eqv(ln, 0), '%s does not keep its storage alive' % what)
            return
        if not isinstance(al, RcV):
            raise Unsupported('alloc field %r' % (al,))
        if self.h.zst and b.zalloc is False:
            self.bad('storage', '%s keeps a storage object that the other parts do not keep' % what)
        if getattr(al.obj, 'gone', False) or al.obj.contents_dead:
            self.bad('storage', '%s refers to released storage' % what)
        if (b.zalloc if self.h.zst else True) and b.sa is not al.obj:
            self.prove('storage', eqv(ln, 0), '%s keeps the wrong storage alive' % what)

    def check_iter(self, v, want=None, clause='range', what='the iterator'):
        b, _, s, e, al = self.iter_parts(v)
        h = self.h
        if want is not None:
            wb, ws, we = want
            if h.zst:
                self.prove(clause, self.eqn(sub(e, s), sub(we, ws)), '%s has the wrong number of items' % what)
            else:
                if b is not wb:
                    self.prove(clause, eqv(s, e), '%s refers to other memory' % what)
                else:
                    self.prove(clause, And(self.eqn(sub(e, s), sub(we, ws)), Or(self.eqn(s, e), self.eqn(s, ws))), '%s covers the wrong items' % what)
        self.prove('memory', ule(s, e), '%s has its end before its start' % what)
        if h.zst:
            # a zero-sized iterator is bound to no block
            b = self.any_block()
        else:
            self.prove('memory', ule(e, b.len), '%s reaches outside its memory block' % what)
        self.check_alloc(al, b, sub(e, s), what)
        self.post_M.append((b, 0 if h.zst else s, sub(e, s)))
        return b, s, e

    def any_block(self):
        return self.h.blocks[0]

    def check_view(self, v, want, clause='range', what='the view'):
        wb, wlo, wln = want
        if not isinstance(v, Fat):
            raise Unsupported('view %r' % (v,))
        self.prove(clause, self.eqn(v.meta, wln), '%s has the wrong length' % what)
        ptr = self.ip(self.p.strip(v.data) if isinstance(v.data, Agg) else v.data)
        if self.h.zst:
            return
        if not isinstance(ptr, IPtr):
            self.prove(clause, eqv(wln, 0), '%s is at the wrong address' % what)
        elif ptr.block is not wb:
            self.prove(clause, eqv(wln, 0), '%s refers to other memory' % what)
        else:
            self.prove(clause, Or(eqv(wln, 0), self.eqn(ptr.idx, wlo)), '%s starts at the wrong item' % what)

    # ---- leftovers of lazily built values
    def settle(self):
        h = self.h
        while True:
            seen = {}
            for v in h.live_values():
                for l in lazies(v):
                    seen[id(l)] = seen.get(id(l), 0) + 1
            todo = []
            for holder, l in h.lazies:
                if l.done:
                    continue
                if isinstance(holder, Obj) and holder.summary:
                    continue
                if seen.get(id(l), 0) != 1:
                    todo.append(l)
            if not todo:
                return
            for l in todo:
                l.force()

    # ---- shape of the tree of parts
    def live_objs(self, kinds):
        return [o for o in self.h.objs if o.kind in kinds and not o.dead and not getattr(o, 'gone', False) and not o.summary and not o.contents_dead
                and o.val is not None and o.val is not UNINIT and not getattr(o, 'boxed', False)]

    def assign(self, o, n, k, what):
        if o.kind != k:
            self.bad('shape', '%s refers to a %s' % (what, o.kind))
            return
        if o.node is None:
            old = n.obj.get(k)
            if old is not None and not old.contents_dead:
                self.bad('shape', '%s refers to a second %s for the same part' % (what, k))
                raise Stop()
            if old is None and not n.fresh:
                self.prove('shape', Not(n.b[k]), '%s refers to a second %s for the same part' % (what, k))
            if old is not None:
                n.old = getattr(n, 'old', []) + [old]
            o.node = n
            n.obj[k] = o
        elif o.node is not n:
            self.bad('shape', '%s refers to the %s of another part' % (what, k))
            raise Stop()

    def resolve(self, values):
        """Give every fresh bookkeeping object its place in the tree."""
        h = self.h
        fl = h.fl
        for rnd in range(40):
            before = (len(h.objs), sum(o.node is not None for o in h.objs), len(h.nodes), sum(l.done for _, l in h.lazies))
            for o in self.live_objs(('D', 'I', 'G')):
                n = o.node
                if n is None:
                    continue
                if o.kind == 'D':
                    for s, f in ((0, 'left_child'), (1, 'right_child')):
                        x = h.raw(o, f)
                        if isinstance(x, Lazy) and not x.done and n.kids[s] is None:
                            continue
                        l = h.link_value(self.p, o.val.f[h.names(o.val.ty).index(f)])
                        if l is not None:
                            self.assign(l.obj, h.kid(n, s), 'D', 'the link to a half')
                    if fl == 'arc':
                        self.chain(o, n)
                elif fl == 'rc':
                    for s, f in ((0, 'left_child'), (1, 'right_child')):
                        x = h.raw(o, f)
                        if isinstance(x, Lazy) and not x.done and n.kids[s] is None:
                            continue
                        w = h.field(o, f)
                        if isinstance(w, WeakV) and w.obj is not None and not w.obj.contents_dead:
                            self.assign(w.obj, h.kid(n, s), o.kind, 'the slot for a half of %s' % o.kind)
                    if o.kind == 'I':
                        x = h.raw(o, 'get_mut_guard')
                        if not (isinstance(x, Lazy) and not x.done):
                            self.assign(x.obj if not isinstance(x, Lazy) else x.v.obj, n, 'G', 'get_mut_guard')
                    else:
                        x = h.raw(o, 'into_mut_guard')
                        if not (isinstance(x, Lazy) and not x.done):
                            w = x.v if isinstance(x, Lazy) else x
                            if w.obj is not None and not w.obj.contents_dead:
                                self.assign(w.obj, n, 'I', 'into_mut_guard')
            for v in values:
                self.assign_handle(v)
            after = (len(h.objs), sum(o.node is not None for o in h.objs), len(h.nodes), sum(l.done for _, l in h.lazies))
            if before == after:
                break
        else:
            raise Unsupported('tree does not settle')
        for o in self.live_objs(('D', 'I', 'G')):
            if o.node is None:
                self.bad('shape', 'a new %s is not connected to the tree of parts' % o.kind)
                raise Stop()

    def chain(self, o, n):
        h = self.h
        fs, i = h.leaf(o.val.f, h.names(o.val.ty).index('guard'))
        x = fs[i]
        if isinstance(x, Lazy) and not x.done:
            return
        x = x.v if isinstance(x, Lazy) else x
        first = True
        while isinstance(x, Ptr):
            gn = x.obj
            if gn.kind != 'GN' or gn.dead:
                self.bad('shape', 'the guard cell refers to released memory')
                raise Stop()
            gn.node = n
            g = h.raw(gn, 'guard')
            if isinstance(g, Lazy):
                if not g.done:
                    if first and 'G' in n.obj:
                        g = h.field(gn, 'guard')
                    else:
                        g = None
                else:
                    g = g.v
            if isinstance(g, WeakV) and g.obj is not None and not g.obj.contents_dead:
                if first:
                    self.assign(g.obj, n, 'G', 'the guard cell')
                elif self.p.valid(eqv(self.m.strong_of(g.obj), 0)) is not True:
                    self.bad('shape', 'a replaced guard is still alive')
            x = h.raw(gn, 'prev')
            if isinstance(x, Lazy):
                if not x.done:
                    return
                x = x.v
            first = False

    def assign_handle(self, v):
        h, T = self.h, self.h.T
        if v.ty == T['S']:
            d = self.fld(v, 'data')
            if not isinstance(d, RcV):
                raise Unsupported('handle data %r' % (d,))
            o = d.obj
            g = self.fld(v, 'into_mut_guard' if h.fl == 'rc' else 'data_guard').obj
            if o.node is None and o.fresh and g.node is not None:
                self.assign(o, g.node, 'D', 'the handle')
            if o.node is None and o.fresh and not self.waiting(o) and not self.waiting(g, o):
                ptr = self.deep(h.field(o, 'ptr'))
                if not isinstance(ptr, IPtr):
                    raise Unsupported('data at %r' % (ptr,))
                from heap import Tree
                n = h.node_new(Tree(ptr.block), True, lo=0 if h.zst else ptr.idx, len=self.deep(h.field(o, 'len')))
                n.root = True
                n.newroot = True
                self.assign(o, n, 'D', 'the handle')
            if o.node is not None:
                k = 'I' if h.fl == 'rc' else 'G'
                if o.node.fresh or g.node is not None:
                    self.assign(g, o.node, k, 'the guard of a handle')
        elif v.ty == T['W'] and h.fl == 'rc':
            g = self.fld(v, 'get_mut_guard')
            if g.obj.node is None and g.obj.fresh and not self.waiting(g.obj):
                d = self.fld(v, 'data')
                if d.obj is None:
                    from heap import Tree
                    n = h.node_new(Tree(None), True, lo=0, len=0)
                    n.root = True
                    n.newroot = True
                    self.assign(g.obj, n, 'G', 'an empty weak handle')

    def waiting(self, o, also=None):
        """Will the fresh object be placed by another bookkeeping object that refers to it?"""
        objs = list(self.live_objs(('D', 'I', 'G', 'GN')))
        objs += [q for q in self.h.objs if q.kind == 'GN' and q not in objs and not q.dead and q.val is not UNINIT and q.val is not None]
        edges = {q: [t for _, t in tokens(q.val)] for q in objs}

        def reach(q):
            seen, todo = set(), [q]
            while todo:
                for t in edges.get(todo.pop(), ()):
                    if t not in seen:
                        seen.add(t)
                        todo.append(t)
            return seen
        below = reach(o)
        if also is not None:
            below |= reach(also)
            below.add(also)
        return any(q is not o and o in edges[q] and (q.node is not None or q not in below) for q in objs)

    # ---- fields
    def is_dead(self, w):
        return not isinstance(w, WeakV) or w.obj is None or w.obj.contents_dead

    def check_fields(self, o):
        h, n, p = self.h, o.node, self.p
        C = 'shape'

        def val(f):
            x = h.raw(o, f)
            if isinstance(x, Lazy):
                return x.v if x.done else None
            return x

        def weak_is(w, k, tgt, what):
            """w (a weak pointer) must refer to object k of node tgt exactly when that is alive."""
            b = h.live(tgt, k)
            if self.is_dead(w):
                self.prove(C, Not(b), '%s: does not refer to the live one' % what)
            elif tgt.obj.get(k) is not w.obj:
                if w.obj.strong is not None and p.valid(eqv(w.obj.strong, 0)) is True:
                    self.prove(C, Not(b), '%s: does not refer to the live one' % what)
                else:
                    self.bad(C, '%s: refers to the wrong object' % what)
        if o.kind == 'D':
            ptr, ln = self.ip(self.deep(h.field(o, 'ptr'))), self.deep(h.field(o, 'len'))
            self.prove(C, self.eqn(ln, n.len), 'length of the data of a part')
            if not h.zst:
                if not isinstance(ptr, IPtr) or ptr.block is not n.tree.block:
                    self.prove(C, eqv(n.len, 0), 'address of the data of a part')
                else:
                    self.prove(C, Or(eqv(n.len, 0), self.eqn(ptr.idx, n.lo)), 'address of the data of a part')
                    self.prove('memory', And(ule(ptr.idx, ptr.block.len), ule(n.len, sub(ptr.block.len, ptr.idx))), 'data reaches outside its memory block')
            al = h.raw(o, 'alloc')
            if not (isinstance(al, Lazy) and not al.done):
                al = self.opt(al.v if isinstance(al, Lazy) else al)
                self.check_alloc(al, n.tree.block, n.len, 'the data of a part')
                if al is not None and not h.zst and not n.isroot_known():
                    self.prove(C, Not(eqv(n.len, 0)), 'empty part holding storage')
            for s, f in ((0, 'left_child'), (1, 'right_child')):
                x = h.raw(o, f)
                if isinstance(x, Lazy) and not x.done and n.kids[s] is None:
                    continue
                l = h.link_value(p, o.val.f[h.names(o.val.ty).index(f)])
                if l is None:
                    b = h.nb_kid(n, s)['D']
                    # unlinked: the half's data must not be alive
                    self.prove(C, Not(b), 'the data of a half is alive but not linked')
                elif l.obj.node is not h.kid(n, s) or l.obj.contents_dead:
                    self.bad(C, 'a link refers to the wrong data')
            if h.fl == 'arc':
                w = val('parent')
                if w is not None:
                    q = n.parent
                    if q is None:
                        if n.root is not True and not n.newroot:
                            if not self.is_dead(w):
                                self.bad(C, 'parent link of a part of unknown place')
                        elif not self.is_dead(w):
                            self.bad(C, 'parent link at a root')
                    else:
                        weak_is(w, 'D', q, 'the parent link')
                self.check_chain(o, n)
        elif h.fl == 'rc' and o.kind == 'I':
            x = val('_parent')
            if x is not None:
                x = self.opt(x)
                q = self.parent_known(n)
                if (x is None) != (q is None):
                    self.bad(C, 'parent of an into-mut guard')
                elif q is not None and (x.obj is not q.obj.get('I') or x.obj.contents_dead):
                    self.bad(C, 'parent of an into-mut guard is the wrong one')
            for s, f in ((0, 'left_child'), (1, 'right_child')):
                self.slot(o, f, s, 'I', weak_is)
            x = val('get_mut_guard')
            if x is not None and (x.obj is not n.obj.get('G') or x.obj.contents_dead):
                self.bad(C, 'get-mut guard of an into-mut guard is the wrong one')
        elif h.fl == 'rc' and o.kind == 'G':
            x = val('parentage')
            if x is not None:
                q = self.parent_known(n)
                if (x.var == 0) != (q is None):
                    self.bad(C, 'parent of a get-mut guard')
                elif q is not None:
                    st = p.getfield(x, 0)
                    par, ct = self.fld(st, 'parent'), self.fld_raw(st, 'child_type')
                    if par.obj is not q.obj.get('G') or par.obj.contents_dead:
                        self.bad(C, 'parent of a get-mut guard is the wrong one')
                    nm = p.prog.types[ct.ty]['variants'][ct.var]['name']
                    if nm != ('Left' if n.side == 0 else 'Right'):
                        self.bad(C, 'side of a get-mut guard')
            for s, f in ((0, 'left_child'), (1, 'right_child')):
                self.slot(o, f, s, 'G', weak_is)
            x = h.raw(o, 'into_mut_guard')
            if isinstance(x, Lazy) and not x.done:
                if 'I' in n.obj:
                    x = h.field(o, 'into_mut_guard')
                else:
                    x = None
            elif isinstance(x, Lazy):
                x = x.v
            if x is not None:
                weak_is(x, 'I', n, 'the into-mut guard slot')
        elif h.fl == 'arc' and o.kind == 'G':
            x = val('_parent')
            if x is not None:
                x = self.opt(x)
                if x is not None:
                    q = self.parent_known(n)
                    if q is None or x.obj is not q.obj.get('G') or x.obj.contents_dead:
                        self.bad(C, 'parent of a guard is the wrong one')
            for f in ('clone_child_gate', 'downgrade_gate'):
                g = self.fld(o.val, f)
                if not (isinstance(g, bool) and g is False):
                    self.prove(C, Not(tobool(g)), 'a gate is left closed')

    def slot(self, o, f, s, k, weak_is):
        h, n = self.h, o.node
        x = h.raw(o, f)
        if isinstance(x, Lazy) and not x.done and n.kids[s] is None:
            return
        w = h.field(o, f)
        if self.is_dead(w) and n.kids[s] is None:
            self.prove('shape', Not(h.nb_kid(n, s)[k]), 'the guard of a half is alive but its slot is empty')
        else:
            weak_is(w, k, h.kid(n, s), 'the slot for a half')

    def parent_known(self, n):
        if n.parent is not None:
            return n.parent
        if n.root is True or getattr(n, 'newroot', False):
            return None
        raise Unsupported('place of a part unknown')

    def check_chain(self, o, n):
        h = self.h
        fs, i = h.leaf(o.val.f, h.names(o.val.ty).index('guard'))
        x = fs[i]
        if isinstance(x, Lazy) and not x.done:
            if 'G' in n.obj:
                x = fs[i] = x.force()
            else:
                return
        x = x.v if isinstance(x, Lazy) else x
        first = True
        cnt = 0
        while isinstance(x, Ptr):
            gn = x.obj
            if gn.dead or gn.kind != 'GN':
                self.bad('shape', 'the guard cell refers to released memory')
                return
            g = h.raw(gn, 'guard')
            if isinstance(g, Lazy) and not g.done and first and 'G' in n.obj:
                g = h.field(gn, 'guard')
            if not (isinstance(g, Lazy) and not g.done):
                g = g.v if isinstance(g, Lazy) else g
                alive = not self.is_dead(g) and self.p.valid(eqv(self.m.strong_of(g.obj), 0)) is not True
                if first:
                    if not alive:
                        self.prove('shape', Not(h.live(n, 'G')), 'the guard cell does not hold the live guard')
                    elif g.obj is not n.obj.get('G'):
                        self.bad('shape', 'the guard cell holds the wrong guard')
                elif alive:
                    self.bad('shape', 'a replaced guard is still alive')
            x = h.raw(gn, 'prev')
            if isinstance(x, Lazy):
                if not x.done:
                    return
                x = x.v
            first = False
        if first:
            self.bad('shape', 'the guard cell is empty')

    # ---- handles
    def handles(self, values):
        h, T = self.h, self.h.T
        for kind, n in h.pre_handles:
            (h.dh if kind == 'S' else h.dw)[n] = (h.dh if kind == 'S' else h.dw).get(n, 0) - 1
        self.post_S, self.post_W = [], []
        for v in values:
            if v.ty == T['S']:
                o = self.fld(v, 'data').obj
                if o.contents_dead or o.node is None:
                    self.bad('shape', 'a handle to destroyed data')
                    raise Stop()
                g = self.fld(v, 'into_mut_guard' if h.fl == 'rc' else 'data_guard')
                if g.obj.contents_dead or o.node.obj.get('I' if h.fl == 'rc' else 'G') is not g.obj:
                    self.bad('shape', 'a handle holds the wrong guard')
                h.dh[o.node] = h.dh.get(o.node, 0) + 1
                self.post_S.append(o.node)
            elif v.ty == T['W']:
                w = self.fld(v, 'data')
                if h.fl == 'rc':
                    g = self.fld_raw(v, 'get_mut_guard')
                    if isinstance(g, Lazy) and not g.done:
                        continue
                    g = self.fld(v, 'get_mut_guard')
                    n = g.obj.node
                    if n is None or g.obj.contents_dead:
                        self.bad('shape', 'a weak handle with the wrong guard')
                        raise Stop()
                    h.dw[n] = h.dw.get(n, 0) + 1
                    if self.is_dead(w):
                        self.prove('upgrade', Not(h.live(n, 'D')), 'a weak handle cannot upgrade although its part is alive')
                    elif w.obj.node is not n:
                        self.bad('upgrade', 'a weak handle refers to another part')
                    self.post_W.append((n, w))
                else:
                    if not self.is_dead(w):
                        n = w.obj.node
                        if n is None:
                            self.bad('shape', 'a weak handle to unplaced data')
                            raise Stop()
                        h.dw[n] = h.dw.get(n, 0) + 1
                        self.post_W.append((n, w))
                    else:
                        self.post_W.append((None, w))

    # ---- counts
    def counts(self):
        h, p = self.h, self.p
        bal = {}

        def addt(kind, o, d):
            bal.setdefault((kind, o), 0)
            bal[(kind, o)] += d
        for holder, o, kind in h.tok:
            if isinstance(holder, Obj) and holder.summary:
                continue
            addt(kind, o, -1)
        for v in h.live_values():
            for kind, o in tokens(v):
                addt(kind, o, 1)
        objs = {o for _, o in bal} | set(h.objs)
        for o in objs:
            if o.strong is None and not getattr(o, 'boxed', False) and o.kind not in ('GN',):
                continue
            if o.summary:
                continue
            if o.kind == 'SA':
                self.balance(o, 'strong', bal)
                self.balance(o, 'weak', bal)
                if not (getattr(o, 'gone', False)):
                    self.prove('storage', Not(eqv(o.strong, 0)), 'storage object neither released nor referenced')
                continue
            if getattr(o, 'boxed', False):
                if o.dead:
                    continue
                n = bal.get(('box', o), 0) + (0 if o.fresh else 1)
                if o.fresh:
                    if n != 1:
                        self.bad('leak', 'a heap node of the bookkeeping is owned %d times' % n)
                elif n != 1 and not (isinstance(o.node, object) and self.box_owner_gone(o)):
                    self.bad('leak', 'a heap node of the bookkeeping is owned %d times' % n)
                continue
            self.balance(o, 'weak', bal)
            if o.kind == 'dead':
                continue
            if o.contents_dead:
                self.balance(o, 'strong', bal, 0) if o.fresh else None
                for kind, q in [('strong', o)]:
                    pass
                continue
            n = o.node
            if n is None:
                continue
            nb, kb, pb = h.nb(n), [h.nb_kid(n, 0), h.nb_kid(n, 1)], h.nb_parent(n)
            f = h.sform(n, o.kind, pb, kb, nb, h.h2(n), h.w2(n), n.x2)
            self.prove('counts', self.eqn(o.strong, f), 'the reference count of a %s does not match its references' % o.kind)
            if o.kind == 'D':
                f = h.wform(n, kb, h.w2(n))
                self.prove('counts', self.eqn(o.weak, f), 'the weak count of the data of a part does not match its weak references')

    def box_owner_gone(self, o):
        return False

    def balance(self, o, kind, bal, want=None):
        now = o.strong if kind == 'strong' else o.weak
        was = o.strong0 if kind == 'strong' else o.weak0
        if now is None or was is None:
            return
        d = bal.get((kind, o), 0)
        exp = add(add(was, o.cdelta[kind]), d)
        cl = 'storage' if o.kind == 'SA' else 'counts'
        self.prove(cl, self.eqn(now, exp), 'a %s reference to %s is lost or counted twice' % (kind, o))

    # ---- laws
    def laws(self):
        h = self.h
        todo = []
        for n in list(h.nodes):
            todo.append(n)
        changed = [n for n in h.nodes if self.changed(n)]
        for n in changed:
            o = n.obj.get('D')
            for s in (0, 1):
                if o is not None and o.summary:
                    continue
                if n.kids[s] is None and not self.trivial_kid(n, s):
                    k = h.kid(n, s)
                    if k not in todo:
                        todo.append(k)
            if n.parent is None and not n.up and n.root is not True and not getattr(n, 'newroot', False):
                q = h.parent(n)
                if q is not None and q not in todo:
                    todo.append(q)
        every = []
        for n in todo:
            o = n.obj.get('D')
            if o is not None and o.summary and n not in self.force_laws:
                continue
            nb, kb, pb = h.nb(n), [h.nb_kid(n, 0), h.nb_kid(n, 1)], h.nb_parent(n)
            every.append((n, nb, kb, pb, 'norel' if n.up else 'post'))
        cs = [h.laws_all(n, nb, kb, pb, h.h2(n), h.w2(n), n.x2, v) for n, nb, kb, pb, v in every]
        if self.p.valid(And(*cs)) is True:
            self.nobl['laws'] = self.nobl.get('laws', 0) + len(cs)
            return
        for n, nb, kb, pb, v in every:
            for nm, c in h.laws(n, nb, kb, pb, h.h2(n), h.w2(n), n.x2):
                if nm != 'bounds' and not (n.up and nm.startswith('rel:')):
                    self.prove('laws', c, 'broken afterwards: %s' % nm)

    force_laws = ()

    def changed(self, n):
        h = self.h
        nb = h.nb(n)
        for k in h.K:
            if k in 'SE':
                continue
            if self.p.valid(iff(nb[k], n.b[k])) is not True:
                return True
        return False

    def trivial_kid(self, n, s):
        return n.fresh

    # ---- items
    def own(self, n, pre):
        h = self.h
        if pre:
            if n.fresh:
                return None
            D = n.b['D']
            kd = [n.kb[0]['D'], n.kb[1]['D']]
        else:
            D = h.live(n, 'D')
            o = n.obj.get('D')
            if o is not None and o.summary:
                return None
            kd = [h.nb_kid(n, 0)['D'], h.nb_kid(n, 1)['D']]
        return D, kd

    def items(self):
        """Every item has exactly one owner before and exactly one fate afterwards."""
        h, p = self.h, self.p
        if self.skip_items:
            return
        terms = {}

        def term(b, lo, ln, cond, sign):
            if b is None:
                return
            terms.setdefault(b, []).append((lo, ln, cond, sign))
        for n in h.nodes:
            b = n.tree.block
            half = lshr(n.len, 1)
            for pre, sign in ((True, 1), (False, -1)):
                o = n.obj.get('D')
                if pre and o is not None and o.summary and not getattr(n, 'contract_root', False):
                    term(b, n.lo, n.len, n.b['D'], 1)
                    continue
                if n.parent is not None and h.gone_below(n.parent):
                    continue
                w = self.own(n, pre)
                if w is None:
                    continue
                D, kd = w
                term(b, n.lo, n.len, D, sign)
                term(b, n.lo, half, And(D, kd[0]), -sign)
                term(b, 0 if h.zst else add(n.lo, half), sub(n.len, half), And(D, kd[1]), -sign)
        for b, lo, ln in h.owned_pre:
            term(b, lo, ln, True, 1)
        for b, lo, ln in self.post_M:
            term(b, lo, ln, True, -1)
        for b, ln in self.post_boxes:
            term(b, 0, ln, True, -1)
        for b, i in self.yields:
            if b is None:
                b = self.any_block()
            term(b, i, 1, True, -1)
        for e in p.events:
            if e[0] == 'drop':
                b = e[1] if e[1] is not None else self.any_block()
                term(b, e[2], e[3], True, -1)
            elif e[0] == 'forget':
                n = e[1]
                half = lshr(n.len, 1)
                term(n.tree.block, n.lo, half, n.kb[0]['D'], 1)
                term(n.tree.block, 0 if h.zst else add(n.lo, half), sub(n.len, half), n.kb[1]['D'], 1)
            elif e[0] == 'sub':
                n = e[1]
                term(n.tree.block, n.lo, n.len, True, -1)
        if h.zst:
            tot = z3.IntVal(0)
            for b, ts in terms.items():
                for lo, ln, cond, sign in ts:
                    x = ite(cond, ln, 0)
                    tot = tot + x if sign > 0 else tot - x
            if self.unwound:
                self.prove('items', tot >= 0, 'zero-sized items are dropped twice or duplicated')
                return
            self.prove('items', tot == 0, 'zero-sized items are lost, dropped twice or duplicated')
            return
        for b, ts in terms.items():
            i = p.fresh('item')
            tot = z3.IntVal(0)
            for lo, ln, cond, sign in ts:
                inr = And(cond, ule(lo, i), ult(i, add(lo, ln)))
                x = iv(b2n(inr))
                tot = tot + x if sign > 0 else tot - x
            if self.unwound:
                self.prove('items', Or(Not(ult(i, b.len)), tot >= 0), 'an item is dropped twice, dropped while owned, or owned twice')
                continue
            self.prove('items', Or(Not(ult(i, b.len)), tot == 0), 'an item is dropped twice, dropped while owned, lost, or owned twice')

    # ---- storage
    def storage(self):
        h = self.h
        for b in h.blocks:
            if b.zst:
                continue
            if b.sa is not None:
                sa = b.sa
                gone = getattr(sa, 'gone', False)
                if gone and not b.freed:
                    self.bad('storage', 'the storage object is gone but its memory was not freed')
                if b.freed and not gone:
                    self.bad('memory' if self.unwound else 'storage', 'memory freed while its storage object is alive')
                if not gone:
                    ptr, ln = self.ip(self.deep(h.field(sa, 'ptr'))), self.deep(h.field(sa, 'len'))
                    if not isinstance(ptr, IPtr) or ptr.block is not b:
                        self.bad('storage', 'the storage object refers to other memory')
                    else:
                        self.prove('storage', And(self.eqn(ptr.idx, 0), self.eqn(ln, b.len)), 'the storage object does not describe its memory block')
            elif b.fresh_storage:
                n = sum(1 for x, _ in self.post_boxes if x is b)
                if b.freed and n:
                    self.bad('memory' if self.unwound else 'storage', 'memory freed while still owned')
                if not b.freed and not n:
                    self.prove('storage', eqv(b.len, 0), 'memory is neither freed nor owned')


class Stop(Exception):
    pass
