"""Runs every root against its specification; one obligation per (operation, clause)."""
import json, os, sys, time, traceback
import z3
import core, cut
from core import *
from heap import Heap, Node, Tree, LIM
from models import Models
from post import Post, Stop


class Ctx:
    """One execution: the heap, the arguments, the result."""
    def __init__(self, prog, models, fl, zst, T, fid, script, name='', contract=None):
        self.name = name
        self.contract = contract
        self.prog, self.m, self.fl, self.zst, self.fid = prog, models, fl, zst, fid
        self.p = Path(prog, script, models)
        self.p.cut = False
        self.p.unw = UNW
        Obj.n = Node.n = 0
        self.h = Heap(self.p, fl, zst, T)
        self.post = Post(self.p, self.h, models)
        self.values = []      # values alive afterwards
        self.panicked = None

    # ---- arguments
    def ref(self, v):
        o = Obj('arg', v)
        self.h.argobjs.append(o)
        return o, Ptr(o)

    def result(self, v):
        o = Obj('res', v)
        self.h.argobjs.append(o)
        return o

    def run(self, *args):
        return self.guard(lambda: self.p.run_fn(self.fid, list(args)))

    def guard(self, f):
        try:
            return f()
        except Panic as e:
            if self.p.unw and self.contract is None:
                self.close_unwound(e)
            self.panicked = str(e)
            return None
        except Unwind as e:
            self.close_unwound(e)

    # ---- state after an unwinding exit: nothing dropped twice, every surviving handle in a valid state
    def close_unwound(self, e):
        q = self.post
        q.unwound = True
        if self.contract not in (None, 'glue_D') or self.name in NEVER and isinstance(e, Unwind):
            q.bad('contract', 'unwinds')
            raise Stop()
        if self.p.bp is not None:
            for o in self.h.argobjs:
                if o.val is not None and o.val is not UNINIT:
                    raise Unsupported('a part iterator survives unwinding')
            self.p.bp.close([])
            raise Stop()
        import specs
        T, vals = self.h.T, []
        for o in self.h.argobjs:
            if o.val is not None and o.val is not UNINIT:
                q.find(o.val, [t for t in (T['S'], T['W'], T['M'], T['MI'], T.get('MP'), T.get('P')) if t is not None], vals)
        for v in vals:
            if not isinstance(v, Agg) or v.ty in (T.get('MP'), T.get('P')):
                raise Unsupported('%r survives unwinding' % (v,))
            if v.ty == T['M']:
                q.check_unique(v)
            elif v.ty == T['MI']:
                q.check_iter(v)
        specs.close_tree(self)
        raise Stop()

    def must_not_panic(self):
        if self.panicked is not None:
            self.post.bad('panic', 'panics: ' + self.panicked)
            raise Stop()

    # ---- standard end checks for a world of unique slices only
    def close_unique(self, vals=()):
        """Items, counts and storage after the operation."""
        q = self.post
        q.settle()
        q.counts()
        q.items()
        q.storage()


NEVER = {'clone', 'clone_left', 'clone_right', 'split_off_left', 'split_off_right'}   # used by contract in bparts.py
UNW = False                  # follow unwinding
DEADLINE = float('inf')      # of the whole check: what is not explored by then is undecided


# clauses whose failure on an unwinding path is a failure of memory safety by itself
UNWOUND = {'items': 'unwinding', 'memory': 'unwinding', 'contract': 'contract'}


def explore(prog, models, fl, zst, T, fid, spec, limit=20000, tmax=120, name='', restart=None, after=None, contract=None):
    res = {'paths': 0, 'viol': {}, 'unsup': [], 'nobl': {}, 'fns': set(), 'contracts': set(), 'cut': 0, 'models': set()}
    todo = [[]]
    t0, t1 = time.time(), None
    while todo:
        if res['paths'] >= limit or time.time() - t0 > tmax or time.time() > DEADLINE:
            res['unsup'].append('budget')
            break
        script = todo.pop()
        c = Ctx(prog, models, fl, zst, T, fid, script, name, contract)
        res['paths'] += 1
        try:
            spec(c)
        except cut.Restart:
            todo, res['paths'], res['cut'], res['viol'], res['nobl'] = [[]], 0, 0, {}, {}
            t1 = None
            restart()
            continue
        except Prune:
            if c.p.cut:
                res['cut'] += 1
        except Stop:
            pass
        except Violation as e:
            if c.p.valid(False) is not True:
                c.post.viol.append(('memory' if c.p.unwound and e.clause in ('storage', 'handles') else e.clause, str(e)))
        except Unsupported as e:
            res['unsup'].append(str(e))
        except RecursionError:
            res['unsup'].append('recursion')
        except Exception as e:
            if os.environ.get('VCG_DEBUG'):
                traceback.print_exc()
            res['unsup'].append('internal: %r @ %s' % (e, traceback.format_exc().strip().splitlines()[-3].strip()))
        if c.p.unknown:
            res['unsup'].append('solver gave up on feasibility')
        for cl, msg in c.post.viol:
            if c.p.unwound:
                cl, msg = UNWOUND.get(cl, 'unwound'), 'unwinding: ' + msg
            res['viol'].setdefault(cl, {})
            res['viol'][cl].setdefault(msg, script)
        for k, v in c.post.nobl.items():
            if c.p.unwound:
                k = UNWOUND.get(k, 'unwound')
            res['nobl'][k] = res['nobl'].get(k, 0) + v
        res['fns'] |= c.p.fnlog
        res['contracts'] |= c.h.contract_used
        if res['viol'] and after is not None:
            t1 = t1 or time.time()
            if time.time() - t1 > after:
                break
        todo.extend(c.p.alts)
    res['time'] = time.time() - t0
    return res


def types(prog, fl, zst):
    it = 'ZItem' if zst else 'SItem'
    F = {'rc': ('RcSlice', 'rc'), 'arc': ('ArcSlice', 'arc')}[fl]
    X, m = F
    names = {'S': 'rc_slice::%s<%s>' % (X, it), 'M': 'rc_slice::%sMut<%s>' % (X, it),
             'D': 'rc_slice::%s::%s_slice::%sData<%s>' % (m, m, X, it), 'W': 'rc_slice::%s::WeakSlice<%s>' % (m, it),
             'MI': 'rc_slice::%s::%sMutIter<%s>' % (m, X, it), 'SA': 'rc_slice::internal::slice_model::slice_alloc::SliceAlloc<%s>' % it,
             'item': it, 'MP': 'rc_slice::%s::%sMutParts<%s>' % (m, X, it), 'P': 'rc_slice::%s::%sParts<%s>' % (m, X, it)}
    if fl == 'rc':
        names['I'] = 'rc_slice::rc::rc_slice::IntoMutGuard'
        names['G'] = 'rc_slice::rc::rc_slice::GetMutGuard'
    else:
        names['G'] = 'rc_slice::arc::arc_slice::DataGuard'
        names['GN'] = 'rc_slice::arc::arc_slice::GuardNode'
    return {k: prog.by_s.get(v) for k, v in names.items()}


def glue(prog):
    g = {}
    for f in prog.fns.values():
        n = f['name']
        if n.startswith('std::ptr::drop_glue::<') and n.endswith('>'):
            t = prog.by_s.get(n[len('std::ptr::drop_glue::<'):-1].replace('h::', ''))
            if t is not None:
                g[t] = f['id']
    return g


_P = {}


def load(path):
    if path not in _P:
        prog = Program(path)
        _P[path] = (prog, glue(prog))
    return _P[path]


def setup(path, fl, zst):
    prog, g = load(path)
    T = types(prog, fl, zst)
    return prog, Models(prog, T, fl, zst, g), T


def run(path, fl, zst, name, **kw):
    import specs
    prog, m, T = setup(path, fl, zst)
    spec = specs.SPECS[name]
    rid = prog.roots.get('h::%s::%s::h_%s' % ('zst' if zst else 'sized', fl, name))
    if rid is None:
        return {'unsup': ['no root ' + name], 'viol': {}, 'paths': 0, 'nobl': {}, 'fns': set(), 'contracts': set(), 'time': 0}
    miss = [k for k, v in T.items() if v is None and k not in ('MP', 'P')]
    if miss:
        return {'unsup': ['type of %s not found' % miss], 'viol': {}, 'paths': 0, 'nobl': {}, 'fns': set(), 'contracts': set(), 'time': 0}
    return explore(prog, m, fl, zst, T, rid, spec, name=name, **kw)


def crun(path, fl, zst, kind, fid, **kw):
    import specs
    prog, m, T = setup(path, fl, zst)
    return explore(prog, m, fl, zst, T, fid, specs.CROOTS[kind], name=kind, contract=kind, **kw)


if __name__ == '__main__':
    path = os.environ.get('D', '/tmp/w/d.json')
    import specs, deleg
    UNW = bool(os.environ.get('UNW'))
    names = sys.argv[2:] or list(specs.SPECS)
    for w in sys.argv[1].split(','):
        fl, z = w.split('.')
        for n in names:
            r = run(path, fl, z == 'zst', n) if ':' not in n else crun(path, fl, z == 'zst', n.split(':')[0], int(n.split(':')[1]))
            print('%-4s %-5s %-18s paths %4d cut %d %.1fs nobl %s' % (fl, z, n, r['paths'], r.get('cut', 0), r['time'], dict(sorted(r['nobl'].items()))))
            for u in sorted(set(r['unsup'])):
                print('      UNSUP', r['unsup'].count(u), u)
            for cl, d in r['viol'].items():
                for msg, s in d.items():
                    print('      VIOL %s: %s %s' % (cl, msg, ''.join('TF'[not x] for x in s)))
            if r['contracts']:
                print('      contracts', sorted(map(str, r['contracts'])))
