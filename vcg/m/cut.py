"""Joining paths at loop heads.

At a loop head, symbolic values in live variables are replaced by equal ghost terms (the equality is
proved by z3 on the spot: this is the loop invariant), and the decisions made inside the loop are
forgotten, keeping only what held when the loop was entered, the facts about the ghosts, and those of a
fixed list of candidate facts that are proved to hold.  Paths arriving with the same state and facts are
explored once.  Forgetting only weakens what is known, so whatever is proved afterwards is proved for
every joined path; a condition that then fails is confirmed on concrete values before it is reported."""
import z3
from core import *



class Restart(Exception):
    pass


_HEADS = {}


def targets(t):
    if not isinstance(t, dict):
        return []
    (k, a), = t.items()
    if k == 'Goto':
        return [a['target']]
    if k == 'SwitchInt':
        return [x for _, x in a['targets']['branches']] + [a['targets']['otherwise']]
    return [a['target']] if a.get('target') is not None else []


def heads(fn):
    """Blocks that are the target of a back edge."""
    r = _HEADS.get(id(fn))
    if r is not None:
        return r
    out, state = set(), {}
    st = [(0, iter(targets(fn['blocks'][0]['t'])))]
    state[0] = 1
    while st:
        b, it = st[-1]
        for s in it:
            if state.get(s) == 1:
                out.add(s)
            elif s not in state:
                state[s] = 1
                st.append((s, iter(targets(fn['blocks'][s]['t']))))
                break
        else:
            state[b] = 2
            st.pop()
    _HEADS[id(fn)] = out
    return out


def reaches(fn, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for t in targets(fn['blocks'][x]['t']):
            if t == b:
                return True
            if t not in seen:
                seen.add(t)
                todo.append(t)
    return False


def locals_of(x, out):
    """Locals mentioned in a MIR fragment."""
    if isinstance(x, dict):
        if 'local' in x and 'projection' in x:
            out.add(x['local'])
        for v in x.values():
            locals_of(v, out)
    elif isinstance(x, list):
        for v in x:
            locals_of(v, out)
    return out


_LIVE = {}


def live_in(fn):
    """Locals that may be read from the start of each block on (borrowed locals always count)."""
    r = _LIVE.get(id(fn))
    if r is not None:
        return r
    B = fn['blocks']
    borrowed = set()
    gen, kill = [], []
    for b in B:
        g, k = set(), set()
        for s in b['s']:
            if isinstance(s, dict) and ('StorageDead' in s or 'StorageLive' in s):
                l = s.get('StorageDead', s.get('StorageLive'))
                k.add(l)
                continue
            if isinstance(s, dict) and 'Assign' in s:
                pl, rv = s['Assign']
                use = locals_of(rv, set())
                if isinstance(rv, dict):
                    for kk in ('Ref', 'AddressOf', 'RawPtr'):
                        if kk in rv:
                            p = rv[kk][-1]
                            if 'Deref' not in p['projection']:
                                borrowed.add(p['local'])
                g |= use - k
                if pl['projection']:
                    if pl['local'] not in k:
                        g.add(pl['local'])
                else:
                    k.add(pl['local'])
            else:
                g |= locals_of(s, set()) - k
        t = b['t']
        if isinstance(t, dict):
            (kk, a), = t.items()
            if kk == 'Call':
                g |= locals_of([a['args'], a['func']], set()) - k
                if a['destination']['projection']:
                    g |= {a['destination']['local']} - k
                else:
                    k.add(a['destination']['local'])
            else:
                g |= locals_of(a, set()) - k
        elif t == 'Return' and 0 not in k:
            g.add(0)
        gen.append(g)
        kill.append(k)
    li = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in range(len(B) - 1, -1, -1):
            n = set(gen[i])
            for s in targets(B[i]['t']):
                n |= li[s] - kill[i]
            if n != li[i]:
                li[i] = n
                ch = True
    _LIVE[id(fn)] = r = (li, borrowed)
    return r


class Cutter:
    """shared: a dictionary common to all paths of one exploration.  ghosts: see parts.py."""
    def __init__(self, p, shared, ghosts):
        self.p, self.shared, self.g = p, shared, ghosts
        p.cutter = self
        self.joined = 0

    def needed(self, where):
        """The value a join forgot is used again.  Outside the loop: split into the cases that were joined.
        Inside it: start over, keeping the value in joins there."""
        for fr in self.p.stack:
            if fr.fn['id'] == where[0] and reaches(fr.fn, fr.bb, where[1]):
                self.shared.setdefault('keep', set()).add(where)
                raise Restart()
        self.p.forgot = None
        self.g.split()

    def head(self, fr, bb):
        p, fn, g = self.p, fr.fn, self.g
        if bb not in heads(fn):
            return
        li, borrowed = live_in(fn)
        keep = li[bb] | {l for l in borrowed if fr.locals[l].val is not UNINIT}
        for i, l in enumerate(fr.locals):
            if i not in keep:
                l.val = UNINIT
        at = (fn['id'], bb)
        first = fr.__dict__.setdefault('first', {})
        if bb not in first:
            first[bb] = (list(p.pc), len(p.dec), fr.visits[bb], p.forgot)
        base, dec0, v0, forgot0 = first[bb]
        if getattr(g, 'fresh', False):
            # everything decided since the start is forgotten, not only since the loop was entered
            base, dec0 = g.base, self.joined
            self.joined = len(p.dec)
        last = fr.__dict__.setdefault('last', {})
        prev = last.get(bb, {})
        cur = last[bb] = {}
        visit = fr.visits[bb] - v0 + 1
        rec, known = None, False
        if len(p.dec) > dec0:
            here = (g.k0, tuple(p.dec)) + at + (visit,)
            canon = self.shared.setdefault('canon', {})
            known = here in canon
            rec = canon.setdefault(here, {})
            g.level(visit)
            if not known:
                for c in g.reach():
                    p.assume(c)
        for i, l in enumerate(fr.locals):
            if l.val is not UNINIT and l.val is not None:
                l.val = self.walk(l.val, at + (i,), prev, cur, rec, known, 0)
        if rec is None:
            return                # nothing was decided since the loop was entered
        forget = forgot0 is None and at not in self.shared.get('keep', ())
        p.forgot = forgot0 or (at if forget and p.known else None)
        if hasattr(g, 'joined'):
            g.joined()
        if known:
            p.set_pc(rec['pc'])
            return
        facts = [(n, f) for n, f in g.candidates(fr) if p.valid(f, fresh=getattr(g, 'fresh', False)) is True]
        if forget:
            base = [c for c in base if not any(c is d for d in g.drop)]
        key = ('&'.join(sorted({c.sexpr() for c in base})), g.e, at, self.digest(), tuple(n for n, _ in facts))
        own = self.shared.setdefault('own', {})
        me = (g.k0, tuple(p.dec))
        if own.setdefault(key, me) != me:
            p.cut = True
            raise Prune()
        rec['pc'] = base + [f for _, f in facts] + g.facts()
        p.set_pc(rec['pc'])
        STATS['joins'] = STATS.get('joins', 0) + 1

    def walk(self, v, at, prev, cur, rec, known, depth):
        if depth > 6:
            return v
        go = lambda x, a, d=0: self.walk(x, at + (a,), prev, cur, rec, known, depth + d)
        if isinstance(v, Agg):
            v.f = [go(x, i, 1) if not isinstance(x, Lazy) else x for i, x in enumerate(v.f)]
            return v
        if isinstance(v, IPtr):
            return IPtr(v.block, go(v.idx, 'i'))
        if isinstance(v, AddrI):
            return AddrI(go(v.p, 'a'))
        if isinstance(v, Fat):
            return Fat(go(v.data, 'd'), go(v.meta, 'm'))
        if isinstance(v, Ptr) and v.obj.kind == 'local':
            go(v.obj.val, 'l', 3)
            return v
        if isinstance(v, bool) or not (isinstance(v, int) or z3.is_expr(v)) or z3.is_expr(v) and z3.is_bool(v):
            return v
        if rec is not None:
            if known:
                v = rec.get(at, v)
            else:
                w = self.pick(v, at, prev.get(at))
                if w is not v:
                    rec[at] = w
                v = w
        cur[at] = v
        return v

    def pick(self, v, at, before):
        """Replace v by the term its location stands for (learnt from the paths so far)."""
        tm = self.shared.setdefault('tmpl', {})
        ban = self.shared.setdefault('ban', {}).setdefault(at, set())

        def term(kind):
            return before if kind == 'same' else self.g.term(kind)

        def ok(kind):
            t = term(kind)
            return t is not None and self.p.valid(eqv(v, t)) is True
        k = tm.get(at)
        if k == 'none':
            return v
        if k is not None:
            if ok(k):
                return term(k)
            ban.add(k)
            del tm[at]
            raise Restart()
        for k in ['same'] + self.g.kinds if self.g.kinds else []:
            if k in ban:
                continue
            if ok(k):
                tm[at] = k
                return term(k)
        if isinstance(v, int):
            tm[at] = 'none'
        return v

    def digest(self):
        p = self.p
        ids, out, todo = {}, [], []

        def num(v):
            return v.sexpr() if z3.is_expr(v) else str(v)

        def ref(o):
            if o.id not in ids:
                ids[o.id] = len(ids)
                todo.append(o)
            return '%s%d' % (o.kind, ids[o.id])

        def val(v):
            if isinstance(v, Lazy):
                return val(v.v) if v.done else 'U'
            if isinstance(v, Agg):
                return '(%s#%s %s)' % (v.ty, v.var, ' '.join(val(x) for x in v.f))
            if isinstance(v, (RcV, WeakV)):
                return 'R' + (ref(v.obj) if v.obj is not None else '-')
            if isinstance(v, BoxV):
                return 'B' + (ref(v.obj) if isinstance(v.obj, Obj) else val(v.obj))
            if isinstance(v, Ptr):
                return 'P' + ref(v.obj) + str(v.path)
            if isinstance(v, IPtr):
                return 'I(%s,%s)' % (v.block, num(v.idx))
            if isinstance(v, Fat):
                return 'F(%s,%s)' % (val(v.data), num(v.meta))
            if isinstance(v, AddrI):
                return 'A' + val(v.p)
            if isinstance(v, Bytes):
                return 'b' + num(v.k)
            if isinstance(v, (int, bool)) or z3.is_expr(v):
                return num(v)
            if hasattr(v, 'dig'):
                return v.dig(val, num)
            return type(v).__name__
        for f in p.stack:
            out.append('f%d.%d' % (f.fn['id'], f.bb))
            out.extend(val(l.val) for l in f.locals)
        while todo:
            o = todo.pop(0)
            out.append('%s %s %s %s' % (o.kind, num(o.strong), num(o.weak), val(o.val)))
        out.append(str([(e[0], [num(x) if z3.is_expr(x) or isinstance(x, int) else str(x) for x in e[1:]]) for e in p.events]))
        out.append(self.g.dig(val, num))
        return '|'.join(out)
