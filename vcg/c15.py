"""C15: thread-safety markers and variance, decided by rustc's trait solver and borrow checker for a
universally quantified item type.  Every obligation is one judgement `where-clauses |- goal`; the
positive ones must be derivable, the negative ones must be rejected with exactly the expected error."""
import concurrent.futures as cf
import os, re, subprocess, time

SHARED = ['ArcSlice', 'arcWeakSlice', 'ArcSliceParts']
UNIQUE = ['ArcSliceMut', 'ArcSliceMutIter', 'ArcSliceMutParts']
RC = ['RcSlice', 'rcWeakSlice', 'RcSliceParts', 'RcSliceMut', 'RcSliceMutIter', 'RcSliceMutParts']


def path(t):
    if t.startswith('arc'): return 'rc_slice::arc::' + t[3:]
    if t.startswith('rc'): return 'rc_slice::rc::' + t[2:]
    return ('rc_slice::arc::' if t.startswith('Arc') else 'rc_slice::rc::') + t


def goals():
    g = []
    for t in SHARED:
        for m in ('Send', 'Sync'):
            g.append(('%s<T>: %s for T: Send + Sync' % (t, m), 'T: Send + Sync', t, m, True))
            g.append(('%s<T>: %s not for T: Send alone' % (t, m), 'T: Send', t, m, False))
            g.append(('%s<T>: %s not for T: Sync alone' % (t, m), 'T: Sync', t, m, False))
            g.append(('%s<T>: %s not for every T' % (t, m), 'T: Copy + Unpin + \'static', t, m, False))
    for t in UNIQUE:
        for m, o in (('Send', 'Sync'), ('Sync', 'Send')):
            g.append(('%s<T>: %s for T: %s' % (t, m, m), 'T: ' + m, t, m, True))
            g.append(('%s<T>: %s not for T: %s alone' % (t, m, o), 'T: ' + o, t, m, False))
            g.append(('%s<T>: %s not for every T' % (t, m), 'T: Copy + Unpin + \'static', t, m, False))
    for t in RC:
        for m in ('Send', 'Sync'):
            g.append(('%s<T>: never %s' % (t, m), 'T: Send + Sync + Copy + Unpin + \'static', t, m, False))
    return g


def discharge(pid, tier, repo, build):
    d = os.path.join(build, 'c15')
    os.makedirs(d, exist_ok=True)
    lib = os.path.join(d, 'librc_slice.rlib')
    p = subprocess.run(['rustc', '--edition', '2018', '--crate-type', 'rlib', '--crate-name', 'rc_slice', repo + '/src/lib.rs',
                        '--cap-lints', 'allow', '-o', lib], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    meta = {'trusted': ['rustc 1.99.1 (trait solver, auto-trait and variance computation, borrow checker)',
                        'the Send/Sync impls of core and alloc'],
            'functions': ['unsafe impl Send/Sync for ArcSliceData, SliceItems, SliceItemsIter, SliceItemsParts, SliceAlloc and every auto impl derived from them'],
            'assumptions': ['marker soundness is judged by the type-level rule in the property (what the items must satisfy); data-race freedom of the implementation itself under concurrency is C16, not applicable'],
            'details': {'negative controls': 'each rejected goal must fail with E0277 and nothing else'}}
    if p.returncode:
        return [dict(name='build', status='unknown', detail=p.stdout.decode()[-800:], back_end='rustc')], meta
    jobs = []
    for name, wc, t, m, pos in goals():
        src = 'fn need<X: %s>() {}\npub fn goal<T>() where %s { need::<%s<T>>() }\n' % (m, wc, path(t))
        jobs.append((name, src, 'E0277' if not pos else None))
    for t in SHARED + UNIQUE + RC:
        jobs.append(('%s<T> is covariant in T' % t,
                     "pub fn goal<'a, 'b: 'a, U: ?Sized>(x: %s<&'b U>) -> %s<&'a U> { x }\n" % (path(t), path(t)), None))
        jobs.append(('%s<T> is not bivariant in T' % t,
                     "pub fn goal<'a, 'b: 'a, U: ?Sized>(x: %s<&'a U>) -> %s<&'b U> { x }\n" % (path(t), path(t)), 'lifetime'))

    def one(i):
        name, src, exp = jobs[i]
        f = os.path.join(d, 'g%d.rs' % i)
        open(f, 'w').write('#![allow(unused)]\n' + src)
        t0 = time.time()
        p = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit', 'metadata', '--extern', 'rc_slice=' + lib,
                            f, '-o', os.path.join(d, 'g%d.rmeta' % i), '--error-format', 'short'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
        o = {'name': name, 'back_end': 'rustc', 'time': time.time() - t0, 'detail': ''}
        codes = set(re.findall(r'error\[(E\d+)\]', out))
        if exp is None:
            o['status'] = 'proved' if p.returncode == 0 else ('refuted' if codes == {'E0277'} or 'lifetime may not live' in out else 'unknown')
        elif p.returncode == 0:
            o['status'] = 'refuted'
            out = 'rustc accepts a goal that must be rejected'
        elif exp == 'lifetime':
            o['status'] = 'proved' if 'lifetime may not live' in out and not codes else 'unknown'
        else:
            o['status'] = 'proved' if codes == {exp} else 'unknown'
        if o['status'] != 'proved':
            o['detail'] = src + '\n' + out[-600:]
        if o['status'] == 'refuted':
            o['concrete'] = True  # the goal itself is the program that shows it
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(jobs))))
    return res, meta
