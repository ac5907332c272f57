"""The pre-state of an operation: a lazily materialised part of an arbitrary heap that satisfies the
representation invariant, and the check that the post-state satisfies it again.

Every subslice that a handle, weak handle or bookkeeping object was ever created for is a *node*, in
a tree whose edges are halvings.  Per node the ghost state says how many strong handles (h) and weak
handles (w) refer to it and which of its bookkeeping objects are alive.  `laws` is the invariant that
relates these between a node, its parent and its children; together with the fields' shape it is
assumed of whatever part of the heap an operation touches and proved again at the end."""
import z3
from core import *

LIM = 1 << 40


class Node:
    n = 0

    def __init__(self, tree, fresh=False):
        Node.n += 1
        self.id = Node.n
        self.tree, self.fresh = tree, fresh
        self.parent = self.side = None
        self.kids = [None, None]
        self.obj = {}
        self.lo = self.len = None
        self.root = None     # True / False when decided
        self.prelink = [None, None]
        self.up = False      # ancestors changed by a contract
        self.Aforce = None
        self.x = {'D': 0, 'I': 0, 'G': 0}      # anonymous extra references (contract roots), before
        self.x2 = {'D': 0, 'I': 0, 'G': 0}     # ... and after

    newroot = False
    kids_gone = False    # data of all parts below released by the contract of forget_items

    def isroot_known(self):
        return self.root is True

    def __repr__(self):
        return 'n%d' % self.id


class Tree:
    def __init__(self, block):
        self.block = block


def addr(v):
    return v


class Heap:
    def __init__(self, path, fl, zst, T):
        self.p, self.fl, self.zst, self.T = path, fl, zst, T
        path.heap = self
        self.K = ('D', 'I', 'G', 'E') if fl == 'rc' else ('D', 'G', 'S', 'A', 'E')
        self.objs = []
        self.nodes = []
        self.lazies = []       # (holder, Lazy)
        self.tok = []          # pre-state tokens: (holder, target, kind)
        self.blocks = []
        self.pre_handles = []
        self.owned_pre = []    # (block, lo, len) owned by argument values
        self.contract_used = set()
        self.dh, self.dw = {}, {}
        self.argobjs = []

    # ---------------------------------------------------------------- basics
    def obj_new(self, kind, ty, node=None, fresh=False, name=None):
        o = Obj(kind, None, ty)
        o.node, o.fresh = node, fresh
        o.name = name or ('%s%s' % (kind, node if node else ''))
        o.tokd = {'strong': 0, 'weak': 0}
        o.cdelta = {'strong': 0, 'weak': 0}
        o.taken = 0
        self.objs.append(o)
        if fresh:
            o.strong = o.strong0 = 0
            o.weak = o.weak0 = 0
        return o

    def dead_weak(self):
        o = self.obj_new('dead', None, name='dead')
        o.strong = o.strong0 = 0
        o.weak = o.weak0 = self.p.fresh('dw')
        self.p.assume(o.weak0 < LIM)
        o.contents_dead = True
        o.fresh = False
        return WeakV(o)

    def lazy(self, holder, fn, reg=True):
        def f():
            v = fn()
            if reg:
                self.register(holder, v)
            return v
        l = Lazy(f)
        if reg:
            self.lazies.append((holder, l))
        return l

    def untrack(self, l):
        self.lazies = [x for x in self.lazies if x[1] is not l]

    def register(self, holder, v):
        for kind, o in tokens(v):
            self.tok.append((holder, o, kind))
            if not o.fresh and kind in ('strong', 'weak') and o.strong0 is not None:
                o.tokd[kind] += 1
                base = o.strong0 if kind == 'strong' else o.weak0
                self.p.assume(ule(add(o.tokd[kind], o.taken) if kind == 'strong' else o.tokd[kind], base))

    # ---------------------------------------------------------------- nodes
    def bools(self, nm, fresh=False):
        if fresh:
            return {k: False for k in self.K}
        return {k: self.p.freshb('%s.%s' % (nm, k)) for k in self.K}

    def node_new(self, tree, fresh=False, b=None, lo=None, len=None):
        n = Node(tree, fresh)
        self.nodes.append(n)
        p = self.p
        n.b = b if b is not None else self.bools(repr(n), fresh)
        n.kb = [self.bools('%r.L' % n, fresh), self.bools('%r.R' % n, fresh)]
        n.pb = self.bools('%r.P' % n, fresh)
        n.isroot = p.freshb('%r.root' % n) if not fresh else True
        if fresh:
            n.h = n.w = 0
        else:
            n.h, n.w = p.fresh('%r.h' % n), p.fresh('%r.w' % n)
        n.lo = lo if lo is not None else (0 if self.zst else p.fresh('%r.lo' % n))
        n.len = len if len is not None else p.fresh('%r.len' % n)
        if not fresh:
            p.assume(ult(n.len, 1 << 60))
            if not self.zst:
                p.assume(ult(n.lo, 1 << 60))
                p.assume(ule(add(n.lo, n.len), tree.block.len))
        return n

    def assert_laws(self, n):
        if not n.fresh:
            self.p.assume(self.laws_all(n, n.b, n.kb, n.pb, n.h, n.w, n.x))

    # The invariant as a formula over placeholders, built once; instances are substitutions.
    TEMPLATES = {}

    def template(self):
        t = self.TEMPLATES.get(self.fl)
        if t is None:
            class N:
                pass
            n = N()
            bs = lambda nm: {k: z3.Bool('T!%s.%s' % (nm, k)) for k in self.K}
            b, kb, pb = bs('b'), [bs('l'), bs('r')], bs('p')
            n.isroot, n.len = z3.Bool('T!root'), z3.Int('T!len')
            h, w, x = z3.Int('T!h'), z3.Int('T!w'), {k: z3.Int('T!x' + k) for k in 'DIG'}
            every = self.laws_of(n, b, kb, pb, h, w, x)
            pick = {}
            for v in ('all', 'post', 'norel'):
                pick[v] = And(*[c for nm, c in every if v == 'all' or nm != 'bounds' and not (v == 'norel' and nm.startswith('rel:'))])
            t = self.TEMPLATES[self.fl] = (n, b, kb, pb, h, w, x, every, pick)
        return t

    def instance(self, n, b, kb, pb, h, w, x):
        tn, tb, tkb, tpb, th, tw, tx, every, pick = self.template()
        sub = [(tn.isroot, bz(n.isroot)), (tn.len, iv(n.len)), (th, iv(h)), (tw, iv(w))]
        for t, v in ((tb, b), (tkb[0], kb[0]), (tkb[1], kb[1]), (tpb, pb)):
            sub += [(t[k], bz(v[k])) for k in self.K]
        sub += [(tx[k], z3.IntVal(x[k])) for k in 'DIG']
        return sub

    def laws_all(self, n, b, kb, pb, h, w, x, variant='all'):
        return simp(z3.substitute(self.template()[8][variant], self.instance(n, b, kb, pb, h, w, x)))

    def laws(self, n, b, kb, pb, h, w, x):
        sub = self.instance(n, b, kb, pb, h, w, x)
        return [(nm, simp(z3.substitute(c, sub))) for nm, c in self.template()[7]]

    def laws_of(self, n, b, kb, pb, h, w, x):
        hp, wp = Not(eqv(h, 0)), Not(eqv(w, 0))
        xD, xI, xG = [x[k] > 0 for k in 'DIG']
        L, R = kb
        r = []
        A = lambda nm, c: r.append((nm, c))
        A('bounds', And(ult(h, LIM), ult(w, LIM)))
        A('rel: root has no parent', Implies(n.isroot, And(*[Not(v) for v in pb.values()])))
        A('data alive only while held', Implies(b['D'], Or(hp, pb['D'], xD)))
        A('a handle keeps its data and guard alive', Implies(hp, And(b['D'], b['I' if self.fl == 'rc' else 'G'])))
        for k, nm in ((L, 'left'), (R, 'right')):
            least = 1 if k is L else 2
            ex = Or(*k.values())
            A('%s half exists only if it can' % nm, Implies(ex, ule(least, n.len)))
        A('what is alive was created', Implies(Or(b['D'], b['G'], b['I'] if self.fl == 'rc' else False), b['E']))
        A('rel: created under live parent data implies linked data', Implies(And(pb['D'], b['E']), b['D']))
        A('rel: parents are created first', Implies(And(b['E'], Not(n.isroot)), pb['E']))
        for k in (L, R):
            A('parents are created first', Implies(k['E'], b['E']))
            A('created under live data implies linked data', Implies(And(b['D'], k['E']), k['D']))
        if self.fl == 'rc':
            A('a weak handle was created', Implies(wp, b['E']))
            A('into-mut guard alive iff a handle is in the subtree', iff(b['I'], Or(hp, L['I'], R['I'], xI)))
            A('get-mut guard alive iff guard or weak handle in the subtree', iff(b['G'], Or(b['I'], wp, L['G'], R['G'], xG)))
            for k in (L, R):
                A('child guards', And(Implies(k['I'], k['G']), Implies(Or(k['D'], k['G']), k['E'])))
            A('rel: parent guards', Or(n.isroot, And(Implies(b['I'], pb['I']), Implies(b['G'], pb['G']))))
            A('rel: parent guards 2', Implies(pb['I'], pb['G']))
        else:
            A('a weak handle refers to live data', Implies(wp, b['D']))
            A('guard alive iff a handle is in the subtree', Implies(b['D'], iff(b['G'], Or(hp, L['G'], R['G'], xG))))
            A('guard alive only for attached children', Implies(And(b["G"], Not(hp), Not(xG)), Or(And(L['G'], L['A']), And(R['G'], R['A']))))
            A('rel: guard attached to its parent\'s', And(Implies(b['A'], And(b['G'], pb['G'])), Implies(And(pb['D'], b['G']), b['A'])))
            for k in (L, R):
                A('child guards', And(Implies(And(b['D'], k['G']), And(k['D'], k['A'])), Implies(k['A'], And(k['G'], b['G'])), Implies(Or(k['D'], k['G']), k['E'])))
                A('child weak', Implies(k['S'], k['D']))
            A('upgradable weak handles in the subtree', iff(b['S'], And(b['D'], Or(wp, L['S'], R['S']))))
        return r

    def kid(self, n, side):
        c = n.kids[side]
        if c is None:
            if n.fresh:
                half = lshr(n.len, 1)
                c = self.node_new(n.tree, True, lo=n.lo, len=half)
            else:
                c = self.node_new(n.tree, b=n.kb[side], lo=n.lo, len=n.len)
            half = lshr(n.len, 1)
            if side == 0:
                c.len = half
            else:
                c.lo = n.lo if self.zst else add(n.lo, half)
                c.len = sub(n.len, half)
            c.parent, c.side, c.pb, c.isroot, c.root = n, side, n.b, False, False
            n.kids[side] = c
            self.assert_laws(c)
        return c

    def parent(self, n):
        """The parent node, or None if n is the root of its tree."""
        if n.root is True:
            return None
        if n.parent is not None:
            return n.parent
        p = self.p
        if n.up:
            raise Unsupported('ancestors changed by contract')
        if p.choose(n.isroot, 'root'):
            n.root = True
            return None
        n.root = False
        left = p.choose(p.freshb('%r.isleft' % n), 'side')
        m = self.node_new(n.tree, b=n.pb)
        s = 0 if left else 1
        m.kids[s] = n
        m.kb[s] = n.b
        n.parent, n.side = m, s
        half = lshr(m.len, 1)
        if s == 0:
            p.assume(eqv(n.len, half))
            p.assume(eqv(n.lo, m.lo))
            p.assume(ule(1, m.len))
        else:
            p.assume(eqv(n.len, sub(m.len, half)))
            if not self.zst:
                p.assume(eqv(n.lo, add(m.lo, half)))
            p.assume(ule(2, m.len))
        self.assert_laws(m)
        return m

    # ---------------------------------------------------------------- building values
    def struct(self, ty, fields, holder=None, reg=True):
        """A struct value; callables are lazily evaluated fields."""
        d = self.p.prog.types[ty]
        out = []
        seen = set()
        for nm, ft in d['variants'][0]['fields']:
            if nm in fields:
                seen.add(nm)
                v = fields[nm]
                if callable(v):
                    v = self.lazy(holder, v, reg)
                    v.tag = nm
                elif reg:
                    self.register(holder, v)
                out.append(self.p.wrap(v, ft))
            elif self.p.tk(ft).get('size') == 0:
                out.append(self.p.zeroval(ft))
            else:
                raise Unsupported('unknown field %s of %s' % (nm, d['s']))
        miss = set(fields) - seen
        if miss:
            raise Unsupported('%s has no field %s' % (d['s'], sorted(miss)))
        return Agg(ty, 0, out)

    def fty(self, ty, name):
        for nm, ft in self.p.prog.types[ty]['variants'][0]['fields']:
            if nm == name:
                return ft
        raise Unsupported('no field %s' % name)

    def core_ty(self, ty):
        """Strip newtypes."""
        return self.p.base(ty)

    def some(self, oty, v):
        return Agg(oty, 1, [v])

    def none(self, oty):
        return Agg(oty, 0, [])

    def opt_arg(self, oty):
        return self.p.prog.types[oty]['variants'][1]['fields'][0][1]

    # ---------------------------------------------------------------- counts and post-state view
    def sform(self, n, k, pb, kb, b, h, w, x):
        """The strong count the invariant demands of object k of node n."""
        t = [h] if (k != 'G' or self.fl == 'arc') else [w]
        if k == 'D':
            t.append(b2n(pb['D']))
        elif k == 'I':
            t += [b2n(kb[0]['I']), b2n(kb[1]['I'])]
        elif self.fl == 'rc':
            t += [b2n(b['I']), b2n(kb[0]['G']), b2n(kb[1]['G'])]
        else:
            t += [b2n(simp(And(c['G'], c['A']))) if not isinstance(And(c['G'], c['A']), bool) else int(And(c['G'], c['A'])) for c in kb]
        t.append(x[k])
        s = 0
        for v in t:
            s = add(s, v)
        return s

    def wform(self, n, kb, w):
        if self.fl == 'rc':
            return w
        return add(add(w, b2n(kb[0]['D'])), b2n(kb[1]['D']))

    def live(self, n, k):
        o = n.obj.get(k)
        if o is not None:
            return not o.contents_dead
        if k == 'D' and n.parent is not None and self.gone_below(n.parent):
            return False
        if k == 'D' and self.under(n):
            return simp(And(n.b['D'], Or(Not(eqv(self.h2(n), 0)), self.live(n.parent, 'D'))))
        return n.b[k]

    def gone_below(self, n):
        while n is not None:
            if n.kids_gone:
                return True
            n = n.parent
        return False

    def nolink(self):
        if self.fl == 'rc':
            return self.none(self.core_ty(self.fty(self.T['D'], 'left_child')))
        return 0

    def under(self, n):
        """Was this part's data possibly destroyed by the summarised drop of data above it?"""
        q = n.parent
        while q is not None:
            o = q.obj.get('D')
            if o is not None:
                return o.summary
            q = q.parent
        return False

    def nb(self, n):
        r = {k: self.live(n, k) for k in self.K if k in ('D', 'I', 'G')}
        r['E'] = Or(n.b['E'], *r.values())
        if self.fl == 'arc':
            r['A'] = self.nbA(n)
            r['S'] = self.nbS(n, r['D'])
        return r

    def nbA(self, n):
        o = n.obj.get('G')
        if o is None:
            return n.b['A']
        if o.contents_dead:
            return False
        if n.Aforce is not None:
            return n.Aforce
        if o.fresh:
            v = self.field(o, '_parent')
            return isinstance(v, Agg) and v.var == 1
        return n.b['A']

    def nbS(self, n, D):
        o = n.obj.get('D')
        if D is False:
            return False
        if o is None:
            return And(n.b['S'], D) if self.under(n) or self.gone_below(n) else n.b['S']
        return Or(Not(eqv(self.w2(n), 0)), self.nb_kid(n, 0)['S'], self.nb_kid(n, 1)['S'])

    def nb_kid(self, n, s):
        if n.kids[s] is not None:
            return self.nb(n.kids[s])
        if self.gone_below(n):
            r = dict(n.kb[s], D=False)
            if 'S' in r:
                r['S'] = False
            return r
        return n.kb[s]

    def nb_parent(self, n):
        if n.parent is not None:
            return self.nb(n.parent)
        return n.pb

    def h2(self, n):
        return add(n.h, self.dh.get(n, 0)) if self.dh.get(n, 0) >= 0 else sub(n.h, -self.dh[n])

    def w2(self, n):
        x = self.w2_(n)
        if self.fl == 'arc':
            # in the concurrent slices w counts the weak handles whose data is alive
            D = self.live(n, 'D')
            return x if D is True else 0 if D is False else ite(D, x, 0)
        return x

    def w2_(self, n):
        return add(n.w, self.dw.get(n, 0)) if self.dw.get(n, 0) >= 0 else sub(n.w, -self.dw[n])

    # ---- fields
    def names(self, ty):
        return [nm for nm, _ in self.p.prog.types[ty]['variants'][0]['fields']]

    def leaf(self, fs, i):
        """(container list, index) of the innermost newtype content."""
        while True:
            v = fs[i]
            if isinstance(v, Lazy) and v.done:
                v = fs[i] = v.v
            if not isinstance(v, Agg) or v.ty is None:
                return fs, i
            d = self.p.prog.types[v.ty]
            if d['k'] != 'adt' or d['adt'] != 'Struct':
                return fs, i
            if len(v.f) == 1:
                big = [0]
            else:
                big = [j for j, x in enumerate(v.f) if not (isinstance(x, Agg) and not x.f)]
            if len(big) != 1:
                return fs, i
            fs, i = v.f, big[0]

    def raw(self, o, name):
        """Field content without forcing it (a Lazy if never touched)."""
        v = o.val
        fs, i = self.leaf(v.f, self.names(v.ty).index(name))
        return fs[i]

    def field(self, o, name):
        v = o.val
        fs, i = self.leaf(v.f, self.names(v.ty).index(name))
        if isinstance(fs[i], Lazy):
            fs[i] = fs[i].force()
            fs, i = self.leaf(v.f, self.names(v.ty).index(name))
        return fs[i]

    def as_link(self, x):
        if isinstance(x, Agg):
            if x.var == 0:
                return None
            x = self.p.strip(x.f[0]) if isinstance(x.f[0], (Agg,)) else x.f[0]
            if isinstance(x, Lazy):
                x = x.force()
        if isinstance(x, int) and x == 0:
            return None
        if not isinstance(x, Ptr) or x.path:
            raise Unsupported('child link %r' % (x,))
        return x

    def link_value(self, p, v):
        box = [v]
        fs, i = self.leaf(box, 0)
        if isinstance(fs[i], Lazy):
            fs[i] = fs[i].force()
            fs, i = self.leaf(box, 0)
        return self.as_link(fs[i])

    def place_kids(self, o):
        """New data linked into dying data gets its place in the tree."""
        if o.kind != 'D' or o.node is None or o.val is None or o.val is UNINIT:
            return
        for s, f in ((0, 'left_child'), (1, 'right_child')):
            x = self.raw(o, f)
            if isinstance(x, Lazy) and not x.done:
                continue
            l = self.link_value(self.p, o.val.f[self.names(o.val.ty).index(f)])
            if l is not None and l.obj.fresh and l.obj.node is None and not l.obj.contents_dead:
                c = self.kid(o.node, s)
                if c.obj.get('D') is None:
                    l.obj.node = c
                    c.obj['D'] = l.obj

    def set_link(self, p, f, i, val, fty):
        fs, j = self.leaf(f, i)
        x = fs[j]
        if isinstance(x, Agg):
            fs[j] = Agg(x.ty, 0, [])
        else:
            fs[j] = 0

    def made(self, c, k):
        o = self.obj_new(k, self.T[k], c)
        o.strong0 = 0
        o.weak = o.weak0 = self.p.fresh('wk')
        self.p.assume(ult(o.weak0, LIM))
        c.obj[k] = o
        return o

    def replace_weak(self, m, p, g, i, o):
        fs, j = self.leaf(g.val.f, i)
        x = fs[j]
        if isinstance(x, Lazy):
            self.untrack(x)
        elif isinstance(x, WeakV):
            m.decw(p, x.obj)
        else:
            raise Unsupported('weak field %r' % (x,))
        fs[j] = WeakV(o)
        self.tok.append((g, o, 'weak'))

    def new_current(self, p, d, c, o):
        fs, j = self.leaf(d.val.f, self.names(d.val.ty).index('guard'))
        x = fs[j]
        if not isinstance(x, Lazy):
            raise Unsupported('guard cell')
        self.untrack(x)
        fs[j] = self.lazy(d, lambda: Ptr(self.guard_node(c, o)))

    def pre_tokens(self, sa, c):
        """How many pre-state references to the storage are known to be held in the subtree of c, and in all."""
        for holder, l in list(self.lazies):
            if not l.done and getattr(l, 'tag', None) == 'alloc' and isinstance(holder, Obj) and not holder.summary \
                    and holder.node is not None and holder.node.tree.block.sa is sa:
                l.force()

        def inside(n):
            while n is not None:
                if n is c:
                    return True
                n = n.parent
            return False
        ts = [holder for holder, t, k in self.tok if t is sa and k == 'strong']
        ins = sum(1 for holder in ts if isinstance(holder, Obj) and holder.node is not None and inside(holder.node))
        return ins, len(ts)

    def live_values(self, mid=False):
        for o in self.objs:
            if o.dead or getattr(o, 'gone', False) or o.summary or o.val is None or o.val is UNINIT:
                continue
            if o.kind in ('dead',):
                continue
            if o.contents_dead and not mid:
                continue
            if o.fresh and getattr(o, 'boxed', False) is False and not mid and isinstance(o.strong, int) and o.strong == 0:
                continue
            yield o.val
        for o in self.argobjs:
            if o.val is not None and o.val is not UNINIT:
                yield o.val

    # ---------------------------------------------------------------- materialisation
    def sa(self, block):
        if block.sa is None:
            if block.fresh_storage:
                raise Unsupported('storage of a fresh block')
            o = self.obj_new('SA', self.T['SA'], name='SA(%s)' % block)
            o.strong = o.strong0 = self.p.fresh('sa')
            o.weak = o.weak0 = 0
            self.p.assume(And(ule(1, o.strong0), ult(o.strong0, LIM)))
            if self.zst:
                o.val = self.struct(self.T['SA'], {'ptr': IPtr(block, 0), 'len': self.p.fresh('salen')}, o)
            else:
                o.val = self.struct(self.T['SA'], {'ptr': IPtr(block, 0), 'len': block.len}, o)
                self.p.assume(ule(1, block.len))
            block.sa = o
        return block.sa

    def new_block(self, owner=None):
        b = Block('blk%d' % len(self.blocks), self.p.fresh('blen'), self.zst)
        self.p.assume(ult(b.len, 1 << 60))
        b.owner = owner
        self.blocks.append(b)
        return b

    def child_link(self, n, side, oty):
        """Value of the left_child/right_child field of a live data object of node n."""
        if self.p.choose(n.kb[side]['D'], 'link'):
            c = self.kid(n, side)
            n.prelink[side] = c
            return self.get(c, 'D')
        return None

    def get(self, n, k):
        if k in n.obj:
            return n.obj[k]
        assert not n.fresh
        self.p.assume(n.b[k])
        return getattr(self, 'mk_%s_%s' % (self.fl, k))(n)

    def mk_alloc(self, n, oty):
        def f():
            need = Not(eqv(n.len, 0))
            if self.zst and not self.zallocated(n.tree.block):
                c = False
            elif self.p.choose(need, 'len'):
                c = True
            elif self.parent(n) is not None:
                c = False
            else:
                c = self.p.choose(self.p.freshb('alloc'), 'alloc')
            return self.some(oty, RcV(self.sa(n.tree.block))) if c else self.none(oty)
        return f

    def mk_rc_D(self, n):
        ty = self.T['D']
        o = self.obj_new('D', ty, n)
        n.obj['D'] = o
        o.strong = o.strong0 = self.sform(n, 'D', n.pb, n.kb, n.b, n.h, n.w, n.x)
        o.weak = o.weak0 = n.w
        lt = self.core_ty(self.fty(ty, 'left_child'))

        def link(s):
            def f():
                c = self.child_link(n, s, lt)
                return self.none(lt) if c is None else self.some(lt, self.p.wrap(Ptr(c), self.opt_arg(lt)))
            return f
        o.val = self.struct(ty, {'ptr': IPtr(n.tree.block, n.lo), 'len': n.len,
                                 'alloc': self.mk_alloc(n, self.fty(ty, 'alloc')),
                                 'left_child': link(0), 'right_child': link(1)}, o)
        return o

    def slot(self, n, s, k):
        def f():
            if self.p.choose(n.kb[s][k], 'slot'):
                return WeakV(self.get(self.kid(n, s), k))
            return self.dead_weak()
        return f

    def mk_rc_I(self, n):
        ty = self.T['I']
        o = self.obj_new('I', ty, n)
        n.obj['I'] = o
        o.strong = o.strong0 = self.sform(n, 'I', n.pb, n.kb, n.b, n.h, n.w, n.x)
        o.weak = o.weak0 = self.p.fresh('wk')
        self.p.assume(ult(o.weak0, LIM))
        pt = self.fty(ty, '_parent')

        def par():
            q = self.parent(n)
            return self.none(pt) if q is None else self.some(pt, RcV(self.get(q, 'I')))
        o.val = self.struct(ty, {'_parent': par, 'left_child': self.slot(n, 0, 'I'), 'right_child': self.slot(n, 1, 'I'),
                                 'get_mut_guard': lambda: RcV(self.get(n, 'G'))}, o)
        return o

    def parentage(self, pt, n, target):
        st = self.opt_arg(pt)
        d = self.p.prog.types[st]
        ct = self.fty(st, 'child_type')
        var = [v['name'] for v in self.p.prog.types[ct]['variants']]
        want = 'Left' if n.side == 0 else 'Right'
        if want not in var or len(var) != 2:
            raise Unsupported('child_type')
        return self.some(pt, Agg(st, 0, [RcV(target) if nm == 'parent' else Agg(ct, var.index(want), [])
                                         for nm, _ in d['variants'][0]['fields']]))

    def mk_rc_G(self, n):
        ty = self.T['G']
        o = self.obj_new('G', ty, n)
        n.obj['G'] = o
        o.strong = o.strong0 = self.sform(n, 'G', n.pb, n.kb, n.b, n.h, n.w, n.x)
        o.weak = o.weak0 = self.p.fresh('wk')
        self.p.assume(ult(o.weak0, LIM))
        pt = self.fty(ty, 'parentage')

        def par():
            q = self.parent(n)
            return self.none(pt) if q is None else self.parentage(pt, n, self.get(q, 'G'))

        def img():
            if self.p.choose(n.b['I'], 'imslot'):
                return WeakV(self.get(n, 'I'))
            return self.dead_weak()
        o.val = self.struct(ty, {'parentage': par, 'left_child': self.slot(n, 0, 'G'), 'right_child': self.slot(n, 1, 'G'),
                                 'into_mut_guard': img}, o)
        return o

    # ---- arc
    def atomic(self, ty, v):
        return Agg(ty, 0, [v])

    def mk_arc_D(self, n):
        ty = self.T['D']
        o = self.obj_new('D', ty, n)
        n.obj['D'] = o
        o.strong = o.strong0 = self.sform(n, 'D', n.pb, n.kb, n.b, n.h, n.w, n.x)
        o.weak = o.weak0 = self.wform(n, n.kb, n.w)

        def link(s):
            def f():
                c = self.child_link(n, s, None)
                return 0 if c is None else Ptr(c)
            return f

        def par():
            q = self.parent(n)
            if q is not None and self.p.choose(n.pb['D'], 'parent data'):
                return WeakV(self.get(q, 'D'))
            return self.dead_weak()

        def cur():
            return Ptr(self.guard_node(n, True))
        vals = {'ptr': IPtr(n.tree.block, n.lo), 'len': n.len, 'alloc': self.mk_alloc(n, self.fty(ty, 'alloc')), 'parent': par}
        at = self.fty(ty, 'left_child')
        v = self.struct_raw(ty, dict(vals, left_child=self.atomic(at, self.lazy(o, link(0))),
                                     right_child=self.atomic(at, self.lazy(o, link(1))),
                                     guard=self.guard_cell(self.fty(ty, 'guard'), o, cur)), o)
        o.val = v
        return o

    def guard_cell(self, ty, o, cur):
        d = self.p.prog.types[ty]
        if d['k'] == 'adt' and d['name'] == 'std::sync::atomic::Atomic':
            return self.atomic(ty, self.lazy(o, cur))
        fs = d['variants'][0]['fields']
        if len(fs) != 1:
            raise Unsupported('guard cell')
        return Agg(ty, 0, [self.guard_cell(fs[0][1], o, cur)])

    def struct_raw(self, ty, fields, holder, reg=True):
        pre = {}
        for k in list(fields):
            if isinstance(fields[k], Agg) and fields[k].ty is not None and not callable(fields[k]):
                pre[k] = fields.pop(k)
        d = self.p.prog.types[ty]
        out = []
        for nm, ft in d['variants'][0]['fields']:
            if nm in pre:
                out.append(pre.pop(nm))
            elif nm in fields:
                v = fields.pop(nm)
                if callable(v):
                    v = self.lazy(holder, v, reg)
                    v.tag = nm
                elif reg:
                    self.register(holder, v)
                out.append(self.p.wrap(v, ft))
            elif self.p.tk(ft).get('size') == 0:
                out.append(self.p.zeroval(ft))
            else:
                raise Unsupported('unknown field %s of %s' % (nm, d['s']))
        if pre or fields:
            raise Unsupported('%s has no field %s' % (d['s'], sorted(list(pre) + list(fields))))
        return Agg(ty, 0, out)

    def guard_node(self, n, first):
        """A GuardNode of node n's data; only the first one may refer to the live guard."""
        ty = self.T['GN']
        o = self.obj_new('GN', ty, n)
        o.boxed = True

        def g():
            if isinstance(first, Obj):
                return WeakV(first)
            if first and self.p.choose(n.b['G'], 'guard'):
                return WeakV(self.get(n, 'G'))
            return self.dead_weak()

        def prev():
            if self.p.choose(self.p.freshb('prev'), 'prev'):
                return Ptr(self.guard_node(n, False))
            return 0
        o.val = self.struct(ty, {'guard': g, 'prev': prev}, o)
        return o

    def gate(self, ty):
        d = self.p.prog.types[ty]
        (nm, ft), = d['variants'][0]['fields']
        return Agg(ty, 0, [self.atomic(ft, False)])

    def mk_arc_G(self, n):
        ty = self.T['G']
        o = self.obj_new('G', ty, n)
        n.obj['G'] = o
        o.strong = o.strong0 = self.sform(n, 'G', n.pb, n.kb, n.b, n.h, n.w, n.x)
        o.weak = o.weak0 = self.p.fresh('wk')
        self.p.assume(ult(o.weak0, LIM))
        pt = self.fty(ty, '_parent')

        def par():
            if self.p.choose(n.b['A'], 'attached'):
                q = self.parent(n)
                if q is None:
                    raise Prune()
                return self.some(pt, RcV(self.get(q, 'G')))
            return self.none(pt)
        o.val = self.struct_raw(ty, {'_parent': par, 'clone_child_gate': self.gate(self.fty(ty, 'clone_child_gate')),
                                     'downgrade_gate': self.gate(self.fty(ty, 'downgrade_gate'))}, o)
        return o

    # ---------------------------------------------------------------- argument values
    def any_node(self):
        n = self.node_new(Tree(self.new_block()))
        self.assert_laws(n)
        return n

    def handle(self, n=None):
        """An arbitrary strong handle."""
        n = n or self.any_node()
        self.p.assume(ule(1, n.h))
        ty = self.T['S']
        f = {'data': RcV(self.get(n, 'D'))}
        f['into_mut_guard' if self.fl == 'rc' else 'data_guard'] = RcV(self.get(n, 'I' if self.fl == 'rc' else 'G'))
        v = self.struct(ty, f, 'args')
        return n, v

    def weak_handle(self, empty_ok=True):
        n = self.any_node()
        ty = self.T['W']
        p = self.p
        if self.fl == 'rc':
            p.assume(ule(1, n.w))

            def data():
                if p.choose(n.b['D'], 'alive'):
                    return WeakV(self.get(n, 'D'))
                return self.dead_weak()
            v = self.struct(ty, {'data': data, 'get_mut_guard': RcV(self.get(n, 'G'))}, 'args')
        else:
            n.walive = p.choose(n.b['D'], 'alive')
            if n.walive:
                p.assume(ule(1, n.w))
                dv = WeakV(self.get(n, 'D'))
            else:
                dv = self.dead_weak()

            def gv():
                if n.walive and p.choose(And(n.b['G'], p.freshb('wg')), 'wguard'):
                    return WeakV(self.get(n, 'G'))
                return self.dead_weak()
            v = self.struct(ty, {'data': dv, '_data_guard': gv}, 'args')
        return n, v

    def unique(self):
        """An arbitrary unique slice: (block, lo, len, value)."""
        b = self.new_block()
        p = self.p
        lo = 0 if self.zst else p.fresh('m.lo')
        ln = p.fresh('m.len')
        p.assume(ult(ln, 1 << 60))
        if not self.zst:
            p.assume(And(ult(lo, 1 << 60), ule(add(lo, ln), b.len)))
        v = self.struct(self.T['M'], {'items': self.slice_items(b, lo, ln), 'alloc': self.alloc_field(b, ln, self.fty(self.T['M'], 'alloc'))}, 'args')
        return b, lo, ln, v

    def slice_items(self, b, lo, ln):
        ty = self.fty(self.T['M'], 'items')
        return self.struct(ty, {'ptr': IPtr(b, lo), 'len': ln}, 'args')

    def zallocated(self, b):
        if b.zalloc is None:
            b.zalloc = self.p.choose(self.p.freshb('alloc'), 'alloc')
        return b.zalloc

    def alloc_field(self, b, ln, oty):
        def f():
            if self.zst and not self.zallocated(b):
                c = False
            elif self.p.choose(Not(eqv(ln, 0)), 'len'):
                c = True
            else:
                c = self.p.choose(self.p.freshb('alloc'), 'alloc')
            return self.some(oty, RcV(self.sa(b))) if c else self.none(oty)
        return f

    def iter_value(self):
        b = self.new_block()
        p = self.p
        ty = self.T['MI']
        it = self.fty(ty, 'iter')
        rt = self.fty(it, 'range')
        pt = self.fty(rt, 'start')
        if self.zst:
            s, e = p.fresh('it.s'), p.fresh('it.e')
            p.assume(And(ule(s, e), ult(e, 1 << 60)))
            sv, ev = s, e
            lo, ln = 0, sub(e, s)
        else:
            lo, ln = p.fresh('it.lo'), p.fresh('it.len')
            p.assume(And(ult(lo, 1 << 60), ult(ln, 1 << 60), ule(add(lo, ln), b.len)))
            sv, ev = IPtr(b, lo), IPtr(b, add(lo, ln))
        rng = Agg(rt, 0, [p.wrap(sv if nm == 'start' else ev, ft) for nm, ft in p.prog.types[rt]['variants'][0]['fields']])
        if sorted(nm for nm, _ in p.prog.types[rt]['variants'][0]['fields']) != ['end', 'start']:
            raise Unsupported('range fields')
        inner = self.struct_raw(it, {'range': rng}, 'args')
        v = self.struct_raw(ty, {'iter': inner, 'alloc': self.alloc_field(b, ln, self.fty(ty, 'alloc'))}, 'args')
        return b, lo, ln, v


def bz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def tokens(v):
    """Owning tokens in a value (materialised part only)."""
    if isinstance(v, Lazy):
        if v.done:
            yield from tokens(v.v)
    elif isinstance(v, Agg):
        for x in v.f:
            yield from tokens(x)
    elif isinstance(v, RcV):
        yield 'strong', v.obj
    elif isinstance(v, WeakV):
        if v.obj is not None:
            yield 'weak', v.obj
    elif isinstance(v, BoxV):
        if isinstance(v.obj, Obj):
            yield 'box', v.obj
    elif isinstance(v, Ptr):
        o = v.obj
        if not v.path and o.kind in ('D', 'I', 'G', 'SA'):
            yield 'strong', o
        elif not v.path and getattr(o, 'boxed', False):
            yield 'box', o


def lazies(v):
    if isinstance(v, Lazy):
        if v.done:
            yield from lazies(v.v)
        else:
            yield v
    elif isinstance(v, Agg):
        for x in v.f:
            yield from lazies(x)
