"""Symbolic execution of monomorphic MIR (as dumped by mirdump) against contracts.

One path = one run of `Path`; branching is by re-execution with a longer decision script, so all
state is plain mutable Python.  Every branch whose condition is not decided by the path condition
is explored both ways (z3 decides feasibility); loops are only ever cut by an inductive argument
that is itself checked (see `loop_cut`), otherwise the run ends as `Unsupported`, never as proved."""
import json, re, sys, time
import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Panic(Exception):
    pass


class Violation(Exception):
    def __init__(self, clause, msg):
        Exception.__init__(self, msg)
        self.clause = clause


class Unwind(Exception):
    """An item destructor or an item clone panicked (only explored where the path is told to)."""


class Prune(Exception):
    pass


class Return(Exception):
    pass


# ------------------------------------------------------------------ program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = d['roots']
        self.types = {int(k): v for k, v in d['types'].items()}
        self.allocs = d['allocs']
        self.fns = {f['id']: f for f in d['fns']}
        for f in d['fns']:
            f['n'] = norm(f['name'])
        self.by_s = {}
        for k, t in self.types.items():
            t['id'] = k
            self.by_s.setdefault(t['s'], k)
        self._leaf = {}

    def ty(self, i):
        return self.types[i]

    def adt(self, i):
        t = self.types[i]
        return t['name'] if t['k'] == 'adt' else None


def norm(n):
    out = []
    i = 0

    def skip(j):
        d = 0
        while True:
            c = n[j]
            if c == '<':
                d += 1
            elif c == '>' and n[j - 1] != '-':
                d -= 1
                if d == 0:
                    return j + 1
            j += 1
    while i < len(n):
        c = n[i]
        if c == '<':
            if i > 0 and (n[i - 1].isalnum() or n[i - 1] == '_'):
                i = skip(i)
                continue
            if i > 1 and n[i - 2:i] == '::':
                i = skip(i)
                out = out[:-2]
                continue
        out.append(c)
        i += 1
    return ''.join(out)


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ('var', 'f', 'ty', 'o')

    def __init__(self, ty, var, f, o=None):
        self.ty, self.var, self.f, self.o = ty, var, f, o

    def __repr__(self):
        return 'Agg%s%s%r' % (self.ty, '' if not self.var else '#%s' % self.var, self.f)


class Lazy:
    __slots__ = ('fn', 'v', 'done', 'tag')

    def __init__(self, fn):
        self.fn, self.v, self.done = fn, None, False

    def force(self):
        if not self.done:
            self.v = self.fn()
            self.done = True
        return self.v

    def __repr__(self):
        return 'Lazy' if not self.done else 'L:%r' % (self.v,)


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __repr__(self):
        return '&%s%s' % (self.obj, ''.join('.%s' % p for p in self.path))


class IPtr:
    """Pointer to item `idx` of the memory block `block` (idx may be one past the end)."""
    __slots__ = ('block', 'idx')

    def __init__(self, block, idx):
        self.block, self.idx = block, idx

    def __repr__(self):
        return 'IPtr(%s,%s)' % (self.block, self.idx)


class AddrI:
    """The address of an item pointer as an integer, plus nothing else."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Bytes:
    """k * size_of::<Item>() for the symbolic non-zero item size."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


class SizeTok:
    pass


SIZE = SizeTok()


class Fat:
    __slots__ = ('data', 'meta')

    def __init__(self, data, meta):
        self.data, self.meta = data, meta

    def __repr__(self):
        return 'Fat(%r,%s)' % (self.data, self.meta)


class RcV:
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'Rc(%s)' % (self.obj,)


class WeakV:
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'Weak(%s)' % (self.obj,)


class BoxV:
    __slots__ = ('obj',)  # HeapObj, or Fat(IPtr, len) for Box<[T]>

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'Box(%s)' % (self.obj,)


class VecV:
    __slots__ = ('data', 'len', 'cap')

    def __init__(self, data, len, cap):
        self.data, self.len, self.cap = data, len, cap


class DynV:
    """Pointer to a trait object."""
    def __init__(self, p):
        self.p = p


class ItemV:
    __slots__ = ('block', 'idx')

    def __init__(self, block, idx):
        self.block, self.idx = block, idx

    def __repr__(self):
        return 'Item(%s,%s)' % (self.block, self.idx)


class FnV:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class Str:
    """Opaque constant (string literals, fmt::Arguments and the like)."""
    def __repr__(self):
        return 'Str'


class Uninit:
    def __repr__(self):
        return '?'


UNINIT = Uninit()


class Obj:
    n = 0

    def __init__(self, kind, val=None, ty=None):
        self.kind, self.val, self.ty = kind, val, ty
        self.dead = False          # storage gone
        self.node = None
        self.strong = self.weak = None
        self.strong0 = self.weak0 = None
        self.contents_dead = False  # strong count reached zero
        self.fresh = True
        self.summary = False       # destroyed by an inductive contract
        self.name = None
        Obj.n += 1
        self.id = Obj.n

    def __repr__(self):
        return self.name or '%s%d' % (self.kind, self.id)


class Block:
    """A memory block of `len` items."""
    def __init__(self, name, len, zst):
        self.name, self.len, self.zst = name, len, zst
        self.freed = False
        self.sa = None           # HeapObj of its SliceAlloc, if any
        self.fresh_storage = False
        self.zalloc = None       # zero-sized items: do non-empty parts keep a storage object? (None: not decided)

    def __repr__(self):
        return self.name


def isz(x):
    return z3.is_expr(x)


# Unsigned machine integers are mathematical integers with range facts; every machine operation that can
# wrap is expanded into its exact modular meaning (binop), so nothing is lost.  Arithmetic of the
# specifications (add, sub, lshr, ...) is mathematical.
def num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def iv(x):
    x = num(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def simp(x):
    if isinstance(x, (bool, int)):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def mask(w):
    return (1 << w) - 1


def tobool(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x != 0
    if z3.is_bool(x):
        return x
    return simp(x != 0)


_Z = z3.z3core
_CTX = z3.main_ctx()


def _nary(mk, xs):
    n = len(xs)
    arr = (z3.Ast * n)(*[x.ast for x in xs])
    return z3.BoolRef(mk(_CTX.ref(), n, arr), _CTX)


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else _nary(_Z.Z3_mk_and, r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else _nary(_Z.Z3_mk_or, r)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.BoolRef(_Z.Z3_mk_not(_CTX.ref(), x.ast), _CTX)


def Implies(a, b):
    return Or(Not(a), b)


def b2n(x):
    return int(x) if isinstance(x, bool) else z3.If(x, z3.IntVal(1), z3.IntVal(0))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, iv(a), iv(b))


def eqv(a, b):
    """Equality of two scalar values as bool or z3."""
    if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)) or (isz(b) and z3.is_bool(b)):
        a, b = tobool(a), tobool(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return simp(a == b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return simp(iv(a) == iv(b))


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return simp(iv(a) + iv(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return simp(iv(a) - iv(b))


def lin(a):
    """a as (constant, [(coefficient, term)]), or None."""
    c, ts = 0, []
    for x in (a.children() if z3.is_add(a) else [a]):
        if z3.is_int_value(x):
            c += x.as_long()
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            ts.append((x.arg(0).as_long(), x.arg(1)))
        else:
            ts.append((1, x))
    return c, ts


def imod(a, k):
    """a mod k for a constant k > 0."""
    if isinstance(a, int):
        return a % k
    c, ts = lin(a)
    if all(m % k == 0 for m, _ in ts):
        return c % k
    return simp(iv(a) % k)


def idiv(a, k):
    """a div k for a constant k > 0; nested divisions are combined."""
    if isinstance(a, int):
        return a // k
    if k > 1:
        c, ts = lin(a)
        if ts and all(m % k == 0 for m, _ in ts):
            return simp(z3.Sum([z3.IntVal(c // k)] + [t * (m // k) for m, t in ts]))
    if z3.is_app_of(a, z3.Z3_OP_IDIV) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() > 0:
        return simp(a.arg(0) / (a.arg(1).as_long() * k))
    return simp(iv(a) / k)


def lshr(a, n):
    if isinstance(a, int):
        return a >> n
    return idiv(a, 1 << n)


def bitand(x, m):
    """x & m for a constant mask, as a sum over its runs of ones."""
    r, a = 0, 0
    while m >> a:
        if not (m >> a) & 1:
            a += 1
            continue
        w = 0
        while (m >> (a + w)) & 1:
            w += 1
        t = imod(idiv(x, 1 << a), 1 << w)
        r = add(r, simp(iv(t) * (1 << a)))
        a += w
    return r


def ule(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return simp(iv(a) <= iv(b))


def ult(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return simp(iv(a) < iv(b))


# ------------------------------------------------------------------ path
STATS = {'queries': 0, 'time': 0.0, 'paths': 0, 'steps': 0}


class Path:
    def __init__(self, prog, script, models, limit=60000):
        self.prog, self.script, self.models = prog, script, models
        self.dec = []
        self.alts = []
        self.pc = []
        self._solver, self._synced, self.fresh_model = None, 0, None
        self.events = []
        self.stack = []
        self.steps = 0
        self.limit = limit
        self.objs = []
        self.fnlog = set()
        self.loopdig = {}
        self.keep = []
        self.cutter = None
        self.bp = None
        self.unw = False          # follow panics of item destructors and clones along the cleanup edges
        self.unwound = False
        self.intercept = {}       # functions used by contract: id -> handler
        self.known = None         # (symbol, value): terms in this symbol alone are evaluated
        self.forgot = None        # where a join forgot that value
        self.unknown = False

    # ---- logic
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Prune()
        self.pc.append(c)

    @property
    def solver(self):
        if self._solver is None:
            self._solver, self._synced = z3.Solver(), 0
            self._solver.set('timeout', 1500)
        if self._synced < len(self.pc):
            self._solver.add(*self.pc[self._synced:])
            self._synced = len(self.pc)
        return self._solver

    def set_pc(self, pc):
        self.pc, self._solver = list(pc), None

    def check(self, c):
        STATS['queries'] += 1
        t = time.time()
        r = self.solver.check(c)
        if r == z3.unknown:
            r = self.again(c)
        STATS['time'] += time.time() - t
        if r == z3.unknown:
            self.unknown = True
        return r != z3.unsat

    def again(self, c):
        """A query the incremental solver gave up on, tried afresh."""
        for seed in (1, 2, 3):
            s = z3.Solver()
            s.set('timeout', 8000)
            s.set('random_seed', seed)
            s.add(*self.pc)
            s.add(c)
            r = s.check()
            if r == z3.unsat:
                return r
            if r == z3.sat:
                self.fresh_model = s.model()
                return r
        return z3.unknown

    def choose(self, c, why=''):
        c = simp(c) if not isinstance(c, bool) else c
        if isinstance(c, bool):
            return c
        i = len(self.dec)
        if i < len(self.script):
            v = self.script[i]
            self.dec.append(v)
            self.assume(c if v else z3.Not(c))
            return v
        if not self.check(c):
            self.dec.append(False)
            self.assume(z3.Not(c))
            return False
        if self.check(z3.Not(c)):
            self.alts.append(self.dec + [False])
        self.dec.append(True)
        self.assume(c)
        return True

    def valid(self, c, fresh=False):
        """True: proved; False: counterexample; None: solver gave up."""
        c = simp(c) if not isinstance(c, bool) else c
        if c is True:
            return True
        STATS['queries'] += 1
        t = time.time()
        self.fresh_model = None
        r = z3.unknown if fresh else self.solver.check() if c is False else self.solver.check(z3.Not(c))
        if r == z3.unknown and c is not False:
            r = self.again(z3.Not(c))
        STATS['time'] += time.time() - t
        if r == z3.unsat:
            return True
        if r == z3.sat:
            self.model = self.solver.model() if self.fresh_model is None else self.fresh_model
            return False
        return None

    def fresh(self, name, w=64):
        self._n = getattr(self, '_n', 0) + 1
        v = z3.Int('%s!%d' % (name, self._n))
        self.assume(v >= 0)
        self.assume(v < (1 << w))
        return v

    def freshb(self, name):
        self._n = getattr(self, '_n', 0) + 1
        return z3.Bool('%s!%d' % (name, self._n))

    def ev(self, *a):
        self.events.append(a)

    # ---- memory
    def getfield(self, v, i):
        if isinstance(v, Lazy):
            v = v.force()
        if isinstance(v, BoxV):
            return v if i == 0 else Agg(None, 0, [])
        if not isinstance(v, Agg):
            raise Unsupported('field %s of %r' % (i, v))
        x = v.f[i]
        if isinstance(x, Lazy):
            x = x.force()
            v.f[i] = x
        return x

    def load(self, obj, path):
        if obj.dead:
            raise Violation('memory', 'read of released memory (%s)' % obj)
        v = obj.val
        if isinstance(v, Lazy):
            v = obj.val = v.force()
        for p in path:
            v = self.getfield(v, p)
        if v is UNINIT or v is None:
            raise Unsupported('read of uninitialised %s' % obj)
        return v

    def store(self, obj, path, x):
        if obj.dead:
            raise Violation('memory', 'write to released memory (%s)' % obj)
        if not path:
            obj.val = x
            return
        v = obj.val
        if isinstance(v, Lazy):
            v = obj.val = v.force()
        for p in path[:-1]:
            v = self.getfield(v, p)
        if not isinstance(v, Agg):
            raise Unsupported('store into %r' % (v,))
        v.f[path[-1]] = x

    # ---- types
    def tk(self, t):
        return self.prog.types[t]

    def newtype(self, t):
        """If type t is a struct with exactly one field that matters, (field index, type)."""
        d = self.tk(t)
        if d['k'] == 'adt' and d['adt'] == 'Struct' and d['name'] not in OPAQUE:
            fs = d['variants'][0]['fields']
            big = [i for i, f in enumerate(fs) if not self.phantom(f[1])]
            if len(big) == 1:
                return big[0], fs[big[0]][1]
        return None

    def phantom(self, t):
        d = self.tk(t)
        return d.get('size') == 0 and not (d['k'] == 'adt' and d['name'].startswith('h::')) and d['k'] != 'slice' and 'size' in d

    def strip(self, v):
        while isinstance(v, Agg):
            idx = [i for i, x in enumerate(v.f) if not (isinstance(x, Agg) and not x.f)]
            if len(idx) != 1:
                return v
            v = self.getfield(v, idx[0])
        return v

    def wrap(self, v, t):
        nt = self.newtype(t)
        d = self.tk(t)
        if nt and d['k'] == 'adt':
            i, ft = nt
            fs = d['variants'][0]['fields']
            return Agg(t, 0, [self.wrap(v, ft) if j == i else Agg(f[1], 0, []) for j, f in enumerate(fs)])
        return v

    # ---- frames
    def place_ty(self, fn, place):
        t = fn['locals'][place['local']]
        for e in place['projection']:
            if e == 'Deref':
                d = self.tk(t)
                t = d['to'] if 'to' in d else (d['args'][0] if d['k'] == 'adt' else None)
            elif 'Field' in e:
                t = e['Field'][1]
            elif 'Downcast' in e:
                pass
            else:
                raise Unsupported('projection %r' % (e,))
        return t

    def place(self, fr, place):
        """-> ('obj', Obj, path) | ('item', block, idx) | ('fat', Fat)"""
        obj, path = fr.locals[place['local']], ()
        cur = None
        for e in place['projection']:
            if e == 'Deref':
                if cur is not None:
                    raise Unsupported('deref of item memory')
                v = self.load(obj, path)
                v = self.strip(v) if isinstance(v, Agg) else v
                if isinstance(v, Ptr):
                    obj, path = v.obj, v.path
                elif isinstance(v, BoxV) and isinstance(v.obj, Obj):
                    obj, path = v.obj, ()
                elif isinstance(v, IPtr):
                    cur = ('item', v.block, v.idx)
                elif isinstance(v, Fat):
                    cur = ('fat', v)
                elif isinstance(v, Str):
                    cur = ('str', v)
                else:
                    raise Unsupported('deref of %r' % (v,))
            elif isinstance(e, dict) and 'Field' in e:
                if cur is not None:
                    raise Unsupported('field of item memory')
                path = path + (e['Field'][0],)
            elif isinstance(e, dict) and 'Downcast' in e:
                pass
            else:
                raise Unsupported('projection %r' % (e,))
        if cur is not None:
            return cur
        return ('obj', obj, path)

    def read_place(self, fr, place):
        p = self.place(fr, place)
        if p[0] == 'obj':
            return copyval(self.load(p[1], p[2]))
        if p[0] == 'item':
            return self.models.read_item(self, p[1], p[2])
        raise Unsupported('read of unsized place in ' + fr.fn['name'])

    def write_place(self, fr, place, v):
        p = self.place(fr, place)
        if p[0] == 'obj':
            self.store(p[1], p[2], v)
        else:
            raise Unsupported('write to %s' % p[0])

    def const(self, c):
        k = c['const_']['kind']
        t = c['const_']['ty']
        d = self.tk(t)
        if k == 'ZeroSized':
            if d['k'] == 'fndef':
                return FnV(t)
            return self.zeroval(t)
        if isinstance(k, dict) and 'Allocated' in k:
            a = k['Allocated']
            if a['provenance']['ptrs']:
                return self.const_ref(d, a)
            bs = a['bytes']
            if any(b is None for b in bs):
                return self.by_layout(t, bs) or Str()
            v = self.decode(t, int.from_bytes(bytes(bs), 'little'))
            return self.by_layout(t, bs) or v if isinstance(v, Str) else v
        return Str()

    def by_layout(self, t, bs):
        """Constant struct, tuple or enum from its bytes, by rustc's layout; None if a part is of no modelled kind."""
        lay = self.tk(t).get('layout')
        d = self.tk(t)
        if lay is None or len(bs) != d["size"] or d["k"] == "adt" and (d["adt"] == "Union" or d["name"] in OPAQUE):
            return None
        vs, i = lay['variants'], 0
        offs = (lay['fields'].get('Arbitrary') or {}).get('offsets') if isinstance(lay['fields'], dict) else None
        if not isinstance(vs, dict) or offs is None:
            return None
        if 'Multiple' in vs:
            m = vs['Multiple']
            tag = m['tag'].get('Initialized', {}).get('value', {})
            o = offs[m['tag_field']]['num_bits'] // 8
            w = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8}.get(tag['Int']['length']) if 'Int' in tag else 8 if 'Pointer' in tag else None
            if w is None or any(x is None for x in bs[o:o + w]):
                return None
            n = int.from_bytes(bytes(bs[o:o + w]), 'little')
            if m['tag_encoding'] == 'Direct':
                c = [i for i, v in enumerate(d['variants']) if int(v['discr']) % (1 << 8 * w) == n]
                if len(c) != 1:
                    return None
                i = c[0]
            else:
                e = m['tag_encoding']['Niche']
                r = (n - e['niche_start']) % (1 << 8 * w)
                lo, hi = e['niche_variants']['start'], e['niche_variants']['end']
                i = lo + r if r <= hi - lo else e['untagged_variant']
            offs = m['variants'][i]['offsets']
        elif 'Single' in vs:
            i = vs['Single']['index']
        else:
            return None
        tys = [f[1] for f in d['variants'][i]['fields']] if d['k'] == 'adt' else d['fields']
        if len(tys) != len(offs):
            return None
        fs = []
        for ft, o in zip(tys, offs):
            o, sz = o['num_bits'] // 8, self.tk(ft).get('size')
            if sz is None:
                return None
            part = bs[o:o + sz]
            v = Str() if any(x is None for x in part) else self.decode(ft, int.from_bytes(bytes(part), 'little'))
            if isinstance(v, Str):
                v = self.by_layout(ft, part)
            if v is None:
                return None
            fs.append(v)
        if d['k'] == 'adt' and self.newtype(t):
            return None
        return Agg(t, i, fs)

    def const_ref(self, d, a):
        """Reference to a constant of primitive type."""
        ps = a['provenance']['ptrs']
        if d['k'] != 'ref' or len(ps) != 1 or len(a['bytes']) != 8:
            return Str()
        m = self.prog.allocs.get(str(ps[0][1]))
        if not m or 'mem' not in m or m['mem']['provenance']['ptrs'] or any(b is None for b in m['mem']['bytes']):
            return Str()
        if self.tk(d['to'])['k'] not in ('int', 'uint', 'bool', 'char') and self.tk(d['to']).get('size') != 0:
            return Str()
        return Ptr(Obj('const', self.decode(d['to'], int.from_bytes(bytes(m['mem']['bytes']), 'little'))))

    def decode(self, t, n):
        d = self.tk(t)
        if d['k'] == 'bool':
            return n != 0
        if d['k'] in ('int', 'uint', 'char', 'ptr', 'ref'):
            return n
        nt = self.newtype(t)
        if nt:
            return self.wrap(n, t) if self.tk(self.base(t))['k'] in ('int', 'uint', 'ptr', 'char') else Str()
        if d['k'] == 'adt' and d['adt'] == 'Enum' and all(not v['fields'] for v in d['variants']):
            for i, v in enumerate(d['variants']):
                if int(v['discr']) == n:
                    return Agg(t, i, [])
        if d.get('size') == 0:
            return self.zeroval(t)
        return Str()

    def base(self, t):
        while True:
            nt = self.newtype(t)
            if not nt:
                return t
            t = nt[1]

    def zeroval(self, t):
        d = self.tk(t)
        if d['k'] == 'tuple':
            return Agg(t, 0, [self.zeroval(x) for x in d['fields']])
        if d['k'] == 'fndef':
            return FnV(t)
        if d['k'] == 'adt':
            if d['name'].startswith('h::'):
                raise Unsupported('constant item')
            if d['adt'] == 'Struct':
                return Agg(t, 0, [self.zeroval(f[1]) for f in d['variants'][0]['fields']])
            return Agg(t, 0, [])
        return Agg(t, 0, [])

    def operand(self, fr, o):
        if 'Copy' in o:
            return self.read_place(fr, o['Copy'])
        if 'Move' in o:
            return self.read_place(fr, o['Move'])
        if 'Constant' in o:
            return self.const(o['Constant'])
        if 'RuntimeChecks' in o:
            return False
        raise Unsupported('operand %r' % (list(o),))

    def op_ty(self, fr, o):
        if 'Constant' in o:
            return o['Constant']['const_']['ty']
        if 'RuntimeChecks' in o:
            return self.prog.by_s['bool']
        return self.place_ty(fr.fn, o.get('Copy') or o.get('Move'))

    # ---- rvalues
    def rvalue(self, fr, rv, dty):
        (k, a), = rv.items() if isinstance(rv, dict) else ((rv, None),)
        if k == 'Use':
            return self.operand(fr, a[0] if isinstance(a, list) else a)
        if k in ('Ref', 'AddressOf'):
            pl = a[-1]
            p = self.place(fr, pl)
            if p[0] == 'obj':
                return Ptr(p[1], p[2])
            if p[0] == 'item':
                return IPtr(p[1], p[2])
            return p[1]
        if k == 'Cast':
            return self.cast(fr, a[0], self.operand(fr, a[1]), self.op_ty(fr, a[1]), a[2])
        if k == 'Aggregate':
            kind, ops = a
            vals = [self.operand(fr, o) for o in ops]
            if kind == 'Tuple':
                return Agg(dty, 0, vals)
            if isinstance(kind, dict) and 'Adt' in kind:
                var = kind['Adt'][1]
                d = self.tk(dty)
                if d['k'] == 'adt' and d['name'] in OPAQUE:
                    raise Unsupported('aggregate of ' + d['name'])
                return Agg(dty, var, vals)
            if isinstance(kind, dict) and 'Closure' in kind:
                return Agg(dty, 0, vals)
            if isinstance(kind, dict) and 'RawPtr' in kind:
                m = vals[1]
                if isinstance(m, Agg) and not m.f:
                    return vals[0]
                return Fat(vals[0], m)
            if isinstance(kind, dict) and 'Array' in kind:
                return Agg(dty, 0, vals)
            raise Unsupported('aggregate %r' % (kind,))
        if k in ('BinaryOp', 'CheckedBinaryOp'):
            op, x, y = a
            tx = self.op_ty(fr, x)
            r = self.binop(op, self.operand(fr, x), self.operand(fr, y), tx, self.op_ty(fr, y), k == 'CheckedBinaryOp')
            if isinstance(r, tuple):
                return Agg(dty, 0, list(r))
            return r
        if k == 'UnaryOp':
            op, x = a
            v = self.operand(fr, x)
            if op == 'Not':
                if isinstance(v, bool):
                    return not v
                if z3.is_expr(v) and z3.is_bool(v):
                    return simp(z3.Not(v))
                w = self.width(self.op_ty(fr, x))
                return (~v) & mask(w) if isinstance(v, int) else simp(~v)
            if op == 'PtrMetadata':
                if isinstance(v, Fat):
                    return v.meta
                if isinstance(v, Str):
                    return 0
                return Agg(None, 0, [])
            if op == 'Neg':
                w = self.width(self.op_ty(fr, x))
                return (-v) & mask(w) if isinstance(v, int) else simp(-v)
            raise Unsupported('unop ' + op)
        if k == 'Discriminant':
            p = self.place(fr, a)
            v = self.load(p[1], p[2])
            if not isinstance(v, Agg):
                raise Unsupported('discriminant of %r' % (v,))
            t = self.tk(self.place_ty(fr.fn, a))
            return int(t['variants'][v.var]['discr']) & mask(self.width(dty) if self.tk(dty)['k'] in ('int', 'uint') else 64)
        if k == 'Len':
            p = self.place(fr, a)
            if p[0] == 'fat':
                return p[1].meta
            raise Unsupported('Len')
        if k == 'CopyForDeref':
            return self.read_place(fr, a)
        if k == 'ThreadLocalRef':
            raise Unsupported(k)
        if k == 'NullaryOp':
            raise Unsupported('NullaryOp %r' % (a,))
        if k == 'ShallowInitBox':
            raise Unsupported(k)
        raise Unsupported('rvalue %s' % k)

    def width(self, t):
        d = self.tk(t)
        if d['k'] == 'bool':
            return 1
        return 8 * d.get('size', 8)

    def ptr_step(self, p, frm, to):
        """Adjust the path of a Ptr when it is cast between a wrapper and what it wraps."""
        tf, tt = self.tk(frm).get('to'), self.tk(to).get('to')
        if tf is None or tt is None or tf == tt:
            return p
        # down
        t, path = tf, p.path
        while t != tt:
            nt = self.newtype(t)
            if not nt:
                break
            path = path + (nt[0],)
            t = nt[1]
        if t == tt and path != p.path:
            return Ptr(p.obj, path)
        # up
        chain = []
        t = tt
        while True:
            nt = self.newtype(t)
            if not nt:
                break
            chain.append(nt[0])
            t = nt[1]
            if t == tf:
                if len(chain) <= len(p.path) and list(p.path[len(p.path) - len(chain):]) == chain:
                    return Ptr(p.obj, p.path[:len(p.path) - len(chain)])
                break
        return p

    def cast(self, fr, kind, v, frm, to):
        kd = kind if isinstance(kind, str) else list(kind)[0]
        dt = self.tk(to)
        if kd == 'IntToInt':
            w = self.width(to)
            wf = self.width(frm)
            if isinstance(v, (bool, int)):
                return int(v) & mask(w)
            if z3.is_bool(v):
                return num(v)
            if isinstance(v, (AddrI, Bytes, SizeTok)):
                return v
            if w == wf:
                return v
            return simp(v % (1 << w)) if w < wf else v
        if kd in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype', 'PointerCoercion', 'PointerExposeProvenance',
                  'PointerExposeAddress', 'PointerWithExposedProvenance', 'PointerFromExposedAddress'):
            if kd == 'PointerCoercion':
                s = json.dumps(kind)
                if 'Unsize' in s:
                    if dt['k'] in ('ptr', 'ref') and self.tk(dt['to'])['k'] == 'dyn':
                        return DynV(v)
                    raise Unsupported('unsizing')
                return v
            if kd in ('Transmute', 'BoxDerefTransmute', 'Subtype'):
                if frm == to:
                    return v
                v = self.strip(v)
                if isinstance(v, BoxV) and dt['k'] in ('ptr', 'ref'):
                    return Ptr(v.obj) if isinstance(v.obj, Obj) else v.obj
            if isinstance(v, AddrI) and dt['k'] in ('ptr', 'ref'):
                return v.p
            if dt['k'] in ('uint', 'int'):
                if isinstance(v, IPtr):
                    return AddrI(v)
                if isinstance(v, (Ptr, Fat)):
                    return v
                return v
            if isinstance(v, Fat) and dt['k'] in ('ptr', 'ref'):
                tt = self.tk(dt['to'])
                return v if tt['k'] in ('slice', 'str') else v.data
            if isinstance(v, Ptr) and dt['k'] in ('ptr', 'ref') and self.tk(frm)['k'] in ('ptr', 'ref'):
                return self.ptr_step(v, frm, to)
            if dt['k'] == 'adt' and not isinstance(v, Agg):
                return self.wrap(v, to)
            if dt['k'] == 'bool' and isinstance(v, int):
                return v != 0
            return v
        raise Unsupported('cast %s' % kd)

    def binop(self, op, x, y, tx, ty_, checked=False):
        r = self.binop_(op, x, y, tx, ty_, checked)
        if self.known is not None:
            return tuple(self.evaluate(v) for v in r) if isinstance(r, tuple) else self.evaluate(r)
        return r

    def evaluate(self, v, all=False):
        if self.known is not None and z3.is_expr(v) and (all or v.num_args() > 0):
            w = simp(z3.substitute(v, (self.known[0], z3.IntVal(self.known[1]))))
            if isinstance(w, (int, bool)):
                if self.forgot is not None:
                    self.cutter.needed(self.forgot)
                    return self.evaluate(v, all)
                return w
        return v

    def binop_(self, op, x, y, tx, ty_, checked=False):
        w = self.width(tx)
        u = op.replace('Unchecked', '').replace('WithOverflow', '')
        if op.endswith('WithOverflow'):
            checked = True
        x = self.strip(x) if isinstance(x, Agg) else x
        y = self.strip(y) if isinstance(y, Agg) else y
        special = (AddrI, Bytes, SizeTok, Ptr, IPtr, Fat, BoxV)
        if isinstance(x, special) or isinstance(y, special):
            return self.special_op(u, x, y, checked)
        if u in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if u == 'Eq':
                return eqv(x, y)
            if u == 'Ne':
                return Not(eqv(x, y))
            if self.tk(tx)['k'] == 'int':
                if not (isinstance(x, int) and isinstance(y, int)):
                    raise Unsupported('signed comparison')
                sg = lambda v: v - (1 << w) if v >> (w - 1) else v
                x, y = sg(x), sg(y)
            if isinstance(x, (int, bool)) and isinstance(y, (int, bool)):
                return {'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[u]
            x, y = iv(x), iv(y)
            return simp({'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[u])
        if w == 1 or (z3.is_expr(x) and z3.is_bool(x)) or isinstance(x, bool):
            x, y = tobool(x), tobool(y)
            if u == 'BitAnd':
                return simp(And(x, y)) if not isinstance(And(x, y), bool) else And(x, y)
            if u == 'BitOr':
                return Or(x, y)
            if u == 'BitXor':
                return Not(eqv(x, y))
            raise Unsupported('bool op ' + u)
        if u in ('Shl', 'Shr'):
            if not isinstance(y, int):
                raise Unsupported('shift by a variable')
            k = y % w
            if u == 'Shr':
                return x >> k if isinstance(x, int) else idiv(x, 1 << k)
            return (x << k) & mask(w) if isinstance(x, int) else simp((x * (1 << k)) % (1 << w))
        if isinstance(x, int) and isinstance(y, int):
            if u in ('Div', 'Rem'):
                if y == 0:
                    raise Unsupported('division by zero')
                return x // y if u == 'Div' else x % y
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}.get(u)
            if r is None:
                raise Unsupported('op ' + u)
            m = r & mask(w)
            return (m, m != r) if checked else m
        M = 1 << w
        if self.tk(tx)['k'] == 'int':
            raise Unsupported('signed arithmetic')
        if u == 'Add':
            r = add(x, y)
            o = ule(M, r)
            return (r, o) if checked else simp(ite(o, sub(r, M), r))
        if u == 'Sub':
            r = sub(x, y)
            o = ult(x, y)
            return (r, o) if checked else simp(ite(o, add(r, M), r))
        if u == 'Mul':
            if not (isinstance(x, int) or isinstance(y, int)):
                raise Unsupported('product of variables')
            r = simp(iv(x) * iv(y))
            o = ule(M, r)
            return (r, o) if checked else simp(r % M)
        if u in ('Div', 'Rem') and isinstance(y, int) and y > 0:
            return idiv(x, y) if u == 'Div' else imod(x, y)
        if u == 'BitAnd':
            if isinstance(x, int):
                x, y = y, x
            if isinstance(y, int):
                return bitand(x, y)
            if w == 64 and self.valid(eqv(imod(add(x, y), M), 0)) is True:
                # n & -n
                j = self.lowbit(x, True)
                return 0 if j == 64 else 1 << j
        raise Unsupported('op %s on variables' % op)

    def lowbit(self, x, must=False):
        """The number of trailing zeros, one case each (64 for zero)."""
        if self.bp is None and not must:
            return None
        for j in range(64):
            if self.choose(Not(eqv(imod(x, 2 << j), 0)), 'trailing zeros'):
                break
        else:
            return 64
        if self.bp is not None:
            for c in self.bp.pow2(j) + self.bp.pow2(j + 1):
                self.assume(c)
        return j

    def special_op(self, u, x, y, checked):
        ret = lambda v: (v, False) if checked else v
        if isinstance(x, SizeTok) or isinstance(y, SizeTok):
            if u in ('Eq', 'Ne'):
                o = y if isinstance(x, SizeTok) else x
                if isinstance(o, int) and o == 0:
                    return u == 'Ne'
            if u in ('Gt', 'Lt') and ((u == 'Gt' and y == 0) or (u == 'Lt' and x == 0)):
                return True
            if u == 'Div' and isinstance(x, Bytes) and isinstance(y, SizeTok):
                return x.k
            if u == 'Rem' and isinstance(x, Bytes) and isinstance(y, SizeTok):
                return 0
            if u == 'Mul':
                o = y if isinstance(x, SizeTok) else x
                if not isinstance(o, (SizeTok, Bytes)):
                    return ret(Bytes(o))
            raise Unsupported('size arithmetic ' + u)
        ax = x.p if isinstance(x, AddrI) else x
        ay = y.p if isinstance(y, AddrI) else y
        if isinstance(ax, IPtr) and isinstance(ay, IPtr):
            if ax.block is not ay.block:
                if u in ('Eq', 'Ne'):
                    # addresses in different memory differ, except at an end; items of size zero may be anywhere
                    inside = And(ult(ax.idx, ax.block.len), ult(ay.idx, ay.block.len)) if not ax.block.zst else False
                    e = And(Not(inside), self.freshb('addr'))
                    return e if u == 'Eq' else Not(e)
                raise Unsupported('pointer arithmetic across blocks')
            if u == 'Sub' and isinstance(x, AddrI):
                self.need('memory', ule(ay.idx, ax.idx), 'address difference underflows')
                return ret(Bytes(sub(ax.idx, ay.idx)))
            i, j = iv(ax.idx), iv(ay.idx)
            if u in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return simp({'Eq': lambda: i == j, 'Ne': lambda: i != j, 'Lt': lambda: i < j, 'Le': lambda: i <= j,
                             'Gt': lambda: i > j, 'Ge': lambda: i >= j}[u]())
        if isinstance(ax, Fat) and isinstance(ay, Fat) and u in ('Eq', 'Ne'):
            dx, dy = (self.strip(v.data) if isinstance(v.data, Agg) else v.data for v in (ax, ay))
            e = And(tobool(self.special_op('Eq', dx, dy, False)), eqv(ax.meta, ay.meta))
            return e if u == 'Eq' else Not(e)
        if isinstance(ax, Ptr) and isinstance(ay, Ptr) and u in ('Eq', 'Ne'):
            e = ax.obj is ay.obj and ax.path == ay.path
            return e if u == 'Eq' else not e
        if isinstance(ax, (Ptr, IPtr, Fat)) and isinstance(ay, int) and u in ('Eq', 'Ne') and ay == 0:
            return u == 'Ne'
        if isinstance(ay, (Ptr, IPtr, Fat)) and isinstance(ax, int) and u in ('Eq', 'Ne') and ax == 0:
            return u == 'Ne'
        if isinstance(x, Bytes) and isinstance(y, Bytes):
            if u in ('Add', 'Sub'):
                return ret(Bytes(add(x.k, y.k) if u == 'Add' else sub(x.k, y.k)))
        if isinstance(x, Bytes) and isinstance(y, int) and y == 0 and u in ('Eq', 'Ne', 'Gt'):
            return eqv(x.k, 0) if u == 'Eq' else Not(eqv(x.k, 0))
        if isinstance(ax, IPtr) and isinstance(x, AddrI) and isinstance(y, Bytes) and u in ('Add', 'Sub'):
            return ret(AddrI(IPtr(ax.block, add(ax.idx, y.k) if u == 'Add' else sub(ax.idx, y.k))))
        if u == 'Offset' and isinstance(x, IPtr):
            return self.models.ptr_add(self, x, y)
        raise Unsupported('pointer op %s on %r, %r' % (u, x, y))

    def need(self, clause, c, msg):
        """A proof obligation in the middle of the code."""
        r = self.valid(c)
        if r is True:
            return
        if r is None:
            raise Unsupported('solver gave up on: ' + msg)
        raise Violation(clause, msg)

    # ---- unwinding
    def may_unwind(self, why, cond=True):
        """An item destructor or clone was called: it may panic (if cond), at most once per path (a second
        panic while unwinding aborts the process)."""
        if not self.unw or self.unwound:
            return
        if self.choose(And(cond, self.freshb('unw')), why):
            self.unwound = True
            raise Unwind(why)

    def landing(self, t, e):
        """Where unwinding continues after exception e at terminator t: a block, or out of the function."""
        self.unwound = self.unw
        u = t.get('unwind')
        if isinstance(u, dict) and 'Cleanup' in u:
            return u['Cleanup']
        if u == 'Continue':
            raise e
        if u == 'Terminate' or isinstance(u, dict) and 'Terminate' in u:
            raise Prune()             # the process aborts
        if u == 'Unreachable' and isinstance(e, Panic):
            raise Prune()
        raise Unsupported('unwinding from a call that cannot unwind (%r)' % (u,))

    # ---- execution
    def run_fn(self, fid, args):
        fn = self.prog.fns[fid]
        self.fnlog.add(fn['name'])
        if not fn.get('blocks'):
            raise Unsupported('no MIR for ' + fn['name'])
        if len(self.stack) > 120:
            raise Unsupported('call depth')
        fr = Frame(fn)
        n = fn['arg_count']
        if len(args) != n:
            raise Unsupported('arity of %s: %d vs %d' % (fn['name'], len(args), n))
        for i, a in enumerate(args):
            fr.locals[i + 1].val = a
        self.stack.append(fr)
        try:
            bb = 0
            while True:
                blk = fn['blocks'][bb]
                fr.bb = bb
                fr.visits[bb] = fr.visits.get(bb, 0) + 1
                if self.cutter is not None:
                    self.cutter.head(fr, bb)
                elif fr.visits[bb] > 1:
                    self.models.loop_head(self, fr, bb)
                if fr.visits[bb] > 140:
                    raise Unsupported('loop in %s not cut by an invariant' % fn['name'])
                for s in blk['s']:
                    self.steps += 1
                    if isinstance(s, dict) and 'Assign' in s:
                        pl, rv = s['Assign']
                        dty = self.place_ty(fn, pl)
                        self.write_place(fr, pl, self.rvalue(fr, rv, dty))
                    elif isinstance(s, dict) and 'StorageDead' in s:
                        if self.cutter is not None:
                            fr.locals[s['StorageDead']].val = UNINIT
                    elif isinstance(s, dict) and 'SetDiscriminant' in s:
                        raise Unsupported('SetDiscriminant')
                    elif isinstance(s, dict) and 'Intrinsic' in s:
                        pass
                if self.steps > self.limit:
                    raise Unsupported('step limit')
                t = blk['t']
                if t == 'Return':
                    v = fr.locals[0].val
                    return v
                if t == 'Unreachable':
                    raise Violation('memory', 'unreachable code reached in ' + fn['name'])
                if t == 'Resume' and fr.exc is not None:
                    raise fr.exc
                if t == 'Abort' and self.unw:
                    raise Prune()
                if t in ('Resume', 'Abort'):
                    raise Unsupported('unwind path')
                (k, a), = t.items()
                if k == 'Goto':
                    bb = a['target']
                elif k == 'SwitchInt':
                    v = self.operand(fr, a['discr'])
                    bb = self.switch(v, a['targets'], self.op_ty(fr, a['discr']))
                elif k == 'Assert':
                    c = tobool(self.operand(fr, a['cond']))
                    c = c if a['expected'] else Not(c)
                    if self.choose(c, 'assert'):
                        bb = a['target']
                    else:
                        e = Panic('assertion %s at %s' % (list(a['msg'])[0] if isinstance(a['msg'], dict) else a['msg'], blk['l']))
                        bb = self.landing(a, e)
                        fr.exc = e
                elif k == 'Drop':
                    ty, did = fn['drops'][str(bb)]
                    p = self.place(fr, a['place'])
                    try:
                        self.drop_place(p, ty, did)
                        bb = a['target']
                    except (Unwind, Panic) as e:
                        bb = self.landing(a, e)
                        fr.exc = e
                elif k == 'Call':
                    try:
                        v = self.call(fr, bb, a, blk['l'])
                    except (Unwind, Panic) as e:
                        bb = self.landing(a, e)
                        fr.exc = e
                        continue
                    if a['target'] is None:
                        raise Unsupported('diverging call returned')
                    self.write_place(fr, a['destination'], v)
                    bb = a['target']
                else:
                    raise Unsupported('terminator ' + k)
        finally:
            self.stack.pop()
            STATS['steps'] += self.steps and 1

    def switch(self, v, targets, ty):
        if isinstance(v, (bool, int)):
            n = int(v)
            w = self.width(ty)
            for val, t in targets['branches']:
                if (val & mask(max(w, 8))) == n or val == n:
                    return t
            return targets['otherwise']
        if isinstance(v, (AddrI, Bytes, SizeTok, Ptr)):
            raise Unsupported('switch on %r' % (v,))
        for val, t in targets['branches']:
            if z3.is_bool(v):
                c = v if val else z3.Not(v)
            else:
                c = v == val
            if self.choose(c, 'switch'):
                return t
        return targets['otherwise']

    def call(self, fr, bb, a, span):
        fty = fr.fn['calls'].get(str(bb))
        args = [self.operand(fr, x) for x in a['args']]
        d = self.tk(fty)
        if d['k'] != 'fndef':
            raise Unsupported('indirect call')
        dest_ty = self.place_ty(fr.fn, a['destination'])
        return self.invoke(d, args, dest_ty, span)

    def invoke(self, d, args, dest_ty, span=''):
        inst = d.get('inst')
        if inst is None:
            raise Unsupported('unresolved ' + d['s'])
        f = self.prog.fns[inst]
        return self.invoke_inst(f, args, dest_ty, span)

    def invoke_inst(self, f, args, dest_ty, span=''):
        if f['id'] in self.intercept:
            return self.intercept[f['id']](f, args, dest_ty)
        r = self.models.call(self, f, args, dest_ty, span)
        if r is not NotImplemented:
            return r
        if f['n'].endswith(('::call_once', '::call_mut', '::call')) or f['n'].rsplit('::', 1)[-1].startswith('{closure#'):
            r = self.closure_call(f, args, dest_ty)
            if r is not NotImplemented:
                return r
        if not f.get('blocks'):
            raise Unsupported('call to ' + f['name'])
        for x in self.stack:
            if x.fn is f:
                r = self.models.recursion(self, f, args, dest_ty)
                if r is not NotImplemented:
                    return r
        return self.run_fn(f['id'], args)

    def closure_call(self, f, args, dest_ty):
        """rust-call ABI: (callee, tuple of arguments)."""
        if len(args) == 2 and isinstance(args[1], Agg):
            callee = args[0]
            if isinstance(callee, FnV):
                return self.invoke(self.tk(callee.ty), [x for x in args[1].f], dest_ty)
            if f.get('blocks') and f['arg_count'] == 1 + len(args[1].f) and f['arg_count'] != 2:
                return self.run_fn(f['id'], [callee] + list(args[1].f))
            if f.get('blocks') and f['arg_count'] == 2 and len(args[1].f) == 1 and f.get('spread') is None:
                # closure bodies take their arguments untupled
                return self.run_fn(f['id'], [callee, args[1].f[0]])
        return NotImplemented

    def drop_place(self, p, ty, did):
        d = self.tk(ty)
        f = self.prog.fns[did]
        r = self.models.drop(self, p, ty, d)
        if r is not NotImplemented:
            return
        if f.get('empty_shim') or not f.get('blocks'):
            if d['k'] in ('adt', 'closure', 'tuple') and f.get('skipped'):
                raise Unsupported('drop of ' + d['s'])
            return
        if p[0] != 'obj':
            raise Unsupported('drop of ' + d['s'])
        self.run_fn(did, [Ptr(p[1], p[2])])


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.locals = [Obj('local') for _ in fn['locals']]
        for i, l in enumerate(self.locals):
            l.val = UNINIT
        self.visits = {}
        self.bb = 0
        self.exc = None


def copyval(v):
    if isinstance(v, Agg):
        return Agg(v.ty, v.var, [copyval(x) for x in v.f], v.o)
    if isinstance(v, Lazy) and v.done:
        return copyval(v.v)
    return v


OPAQUE = {'std::rc::Rc', 'std::rc::Weak', 'std::sync::Arc', 'std::sync::Weak', 'std::boxed::Box', 'std::vec::Vec',
          'std::collections::VecDeque'}
