"""Debugging: the choices and checks along one path.  tr.py FL ZST NAME[:fnid] SCRIPT [DUMP]"""
import sys, os, drive, specs, core
fl, z, name, script = sys.argv[1:5]
path = sys.argv[5] if len(sys.argv) > 5 else os.environ.get('D', '/tmp/w/d.json')
prog, m, T = drive.setup(path, fl, z == 'zst')
if ':' in name:
    name, rid = name.split(':')[0], int(name.split(':')[1])
    sp = specs.CROOTS[name]
else:
    rid = prog.roots['h::%s::%s::h_%s' % ('zst' if z == 'zst' else 'sized', fl, name)]
    sp = specs.SPECS[name]
c = drive.Ctx(prog, m, fl, z == 'zst', T, rid, [x == 'T' for x in script], name)
oc = c.p.choose
def ch(cc, why=''):
    r = oc(cc, why)
    if not isinstance(cc, bool):
        print('   choose %s %s = %s   @%s' % (why, str(cc)[:150].replace('\n', ' '), r, c.p.stack[-1].fn['name'][-60:] if c.p.stack else ''))
    return r
c.p.choose = ch
oe = c.p.ev
def ev(*a):
    print('   event', str(a)[:200]); oe(*a)
c.p.ev = ev
try:
    sp(c)
except BaseException as e:
    print('EXC', repr(e)[:300])
print(c.post.viol)
for o in c.h.objs:
    if o.strong is not None:
        print(o.kind, o, 'node', o.node, 'strong', o.strong, 'weak', o.weak, 'dead' if o.contents_dead else '', 'fresh' if o.fresh else '')
for n in c.h.nodes:
    print(n, 'kids', n.kids, 'h2', c.h.h2(n), 'w2', c.h.w2(n), {k: str(v)[:30] for k, v in c.h.nb(n).items()})
