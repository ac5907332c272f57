"""Obligations of the slice properties.  /repo is compiled with rustc, its MIR is read out
(driver/main.rs), and every operation is executed symbolically from an arbitrary state that satisfies
the representation invariant (heap.py); the postconditions (post.py, specs.py) are discharged by z3."""
import hashlib, os, shutil, subprocess, sys, time
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VCG = os.path.dirname(HERE)


def sh(cmd, env=None, timeout=300):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        for d, ds, fs in sorted(os.walk(p)) if os.path.isdir(p) else [(os.path.dirname(p), [], [os.path.basename(p)])]:
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode() + b'\0' + open(q, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def dump(repo, build):
    """Path of the MIR dump of the current tree, or (None, error)."""
    d = os.path.join(build, 'mir')
    os.makedirs(d, exist_ok=True)
    rc, sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'])
    sysroot = sysroot.strip().splitlines()[-1]
    lib = {'LD_LIBRARY_PATH': sysroot + '/lib'}
    drv = os.path.join(d, 'mirdump-' + tree_hash(VCG + '/driver/main.rs'))
    if not os.path.exists(drv):
        tmp = drv + '.%d' % os.getpid()
        rc, out = sh(['rustc', '+nightly', '--edition', '2021', '-O', '-o', tmp, VCG + '/driver/main.rs'])
        if rc:
            return None, 'driver: ' + out[-1500:]
        os.rename(tmp, drv)
    key = tree_hash(repo + '/src', VCG + '/driver', VCG + '/harness')
    out = os.path.join(d, key + '.json')
    if os.path.exists(out):
        return out, None
    w = os.path.join(d, 'w%d' % os.getpid())
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    common = ['-Zmir-opt-level=0', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on', '--cap-lints', 'allow']
    rl = w + '/librc_slice.rlib'
    feats = features(repo)
    rc, o = sh(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'rlib', '--crate-name', 'rc_slice', repo + '/src/lib.rs',
                '-Zalways-encode-mir', '-o', rl] + common + feats)
    if rc:
        return None, 'rc_slice: ' + o[-1500:]
    rc, o = sh([drv, '--sysroot', sysroot, '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'h', VCG + '/harness/h.rs',
                '--extern', 'rc_slice=' + rl, '-o', w + '/libh.rlib'] + common,
               env=dict(lib, MIRDUMP_OUT=w + '/d.json'))
    if rc or not os.path.exists(w + '/d.json'):
        return None, 'harness: ' + o[-1500:]
    for f in os.listdir(d):
        if f.endswith('.json'):
            os.unlink(os.path.join(d, f))
    os.rename(w + '/d.json', out)
    shutil.rmtree(w, ignore_errors=True)
    return out, None


def features(repo):
    return []


def provided(prog, path, fl, z, name, tmax):
    """A provided method is std's own body, hence what the contract of next (clone ...) makes it,
    unless the crate overrides it: then its specification is discharged like any other operation's."""
    import drive, specs
    r = {'unsup': [], 'viol': {}, 'paths': 0, 'nobl': {}, 'fns': set(), 'contracts': set(), 'time': 0}
    rid = prog.roots.get('h::%s::%s::h_%s' % (z, fl, name))
    if rid is None:
        r['unsup'].append('no root ' + name)
        return r
    root = prog.fns[rid]
    tg = [prog.fns.get(prog.types[t].get('inst')) for t in root['calls'].values()]
    tg = [f for f in tg if f is not None and not f['name'].startswith(('std::ptr::drop', 'core::ptr::drop'))]
    r['fns'] = {f['id'] for f in tg}
    if len(tg) == 1 and tg[0].get('krate') in ('core', 'std', 'alloc'):
        r['nobl'] = {"std's provided method": 1}
        return r
    if name in specs.SPECS:
        return drive.run(path, fl, z == 'zst', name, tmax=tmax)
    r['unsup'].append('overridden by the crate: %s' % ', '.join(f['name'] for f in tg))
    return r


def work(job):
    """One root in one world, in a worker process."""
    path, fl, z, kind, what, (tmax, deadline, unw) = job
    if HERE not in sys.path:
        sys.path.insert(0, HERE)
    import core, drive, deleg
    core.STATS.update(queries=0, time=0)
    drive.DEADLINE, drive.UNW = deadline, unw
    t = time.time()
    try:
        if kind == 'inner':
            import parts
            prog, m, T = drive.setup(path, fl, z == 'zst')
            r = parts.explore_inner(prog, m, fl, z == 'zst', T, what[1], what[0], tmax=tmax)
        elif kind == 'proot':
            import bparts, deque, deleg
            prog, m, T = drive.setup(path, fl, z == 'zst')
            rid = {n: prog.roots.get('h::%s::%s::h_%s' % (z, fl, n)) for n in bparts.SPEC}
            r = bparts.explore_root(prog, m, fl, z == 'zst', T, what, rid.get, tmax=tmax)
        elif kind == 'prov':
            prog = drive.load(path)[0]
            r = provided(prog, path, fl, z, what, tmax)
        elif kind == 'lemmas':
            import lemmas
            r = {'unsup': [], 'viol': {}, 'paths': 0, 'nobl': {}, 'fns': set(), 'contracts': set(), 'time': 0, 'lemmas': lemmas.lemmas(what)}
        elif kind == 'root':
            r = drive.run(path, fl, z == 'zst', what, tmax=tmax)
        else:
            r = drive.crun(path, fl, z == 'zst', what[0], what[1], tmax=tmax)
    except Exception as e:
        r = {'unsup': ['internal: %r' % e], 'viol': {}, 'paths': 0, 'nobl': {}, 'fns': set(), 'contracts': set(), 'time': 0}
    prog = drive.load(path)[0]
    r['fns'] = sorted({prog.fns[i]['name'] for i in r['fns'] if i in prog.fns})
    r['contracts'] = sorted(r['contracts'])
    r['queries'], r['solver'] = core.STATS['queries'], core.STATS['time']
    r['wall'] = time.time() - t
    if kind in ('croot', 'inner'):
        r['cname'] = prog.fns[what[1]]['name']
    return job, r


MROOTS = ['m_from_box', 'm_from_box_t', 'm_from_vec', 'm_from_vec_t', 'm_split_off_left', 'm_split_off_right', 'm_deref', 'm_deref_mut', 'm_drop']
IROOTS = ['m_into_iter', 'i_next', 'i_next_back', 'i_len', 'i_size_hint', 'i_count', 'i_as_slice', 'i_as_mut_slice', 'i_from', 'i_to', 'i_drop']
QROOTS = ['m_parts', 'q_next', 'q_next_back', 'q_len', 'q_size_hint', 'q_count', 'q_as_slice', 'q_as_mut_slice', 'q_drop']
PROOTS = ['p_new', 'p_next', 'p_next_back', 'p_len', 'p_size_hint', 'p_count', 'p_as_slice', 'p_clone', 'p_drop']
SROOTS = ['into_mut', 'drop', 'split_off_left', 'split_off_right', 'try_from', 'clone_left', 'clone_right', 'from_box', 'from_box_t', 'from_vec', 'from_vec_t', 'clone',
          'get_mut', 'downgrade', 'deref', 'w_new', 'w_clone', 'w_upgrade', 'w_drop', 'm_into_immut', 'm_from']
DROOTS = ['%s_%s' % (a, b) for a in ('d', 'dm') for b in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'pc', 'cmp', 'hash', 'fmt', 'as_ref', 'borrow')] + \
    ['dm_as_mut', 'dm_borrow_mut', 'i_fmt', 'q_fmt', 'p_fmt', 'deref', 'm_deref', 'm_deref_mut', 'i_as_slice', 'i_as_mut_slice', 'q_as_slice', 'q_as_mut_slice', 'p_as_slice', 'p_len', 'q_len']
IPROV = ['i_nth', 'i_nth_back', 'i_last', 'i_fold', 'i_rfold', 'i_for_each']
QPROV = ['q_nth', 'q_nth_back', 'q_last', 'q_fold', 'q_rfold', 'q_for_each']
PPROV = ['p_nth', 'p_nth_back', 'p_last', 'p_fold', 'p_rfold', 'p_for_each', 'p_clone_from']
SPROV = ['clone_from', 'w_clone_from']
PROV = IPROV + QPROV + PPROV + SPROV + ['m_clone_from']
RC, ARC, BOTH = ('rc',), ('arc',), ('rc', 'arc')
# property -> (flavours, roots).  The representation invariant that every postcondition assumes is an
# obligation of every operation on shared slices, so these are always discharged together.
PLAN = {
    'C01': (BOTH, SROOTS + SPROV + ['m_split_off_left', 'm_split_off_right', 'm_deref']),
    'C02': (BOTH, SROOTS + PROOTS + SPROV + PPROV),
    'C03': (BOTH, QROOTS + QPROV + ['m_split_off_left', 'm_split_off_right']),
    'C04': (BOTH, IROOTS + IPROV),
    'C05': (BOTH, SROOTS + SPROV + ['m_clone_from'] + ['m_from_box', 'm_from_box_t', 'm_from_vec', 'm_from_vec_t', 'm_deref', 'from_iter', 'm_from_iter', 'm_clone']),
    'C06': (RC, SROOTS + PROOTS + SPROV + PPROV),
    'C07': (BOTH, MROOTS + IROOTS + QROOTS + IPROV + QPROV + ['m_clone_from']),
    'C08': (BOTH, SROOTS + PROOTS + MROOTS + IROOTS + QROOTS + PROV),
    'C09': (RC, SROOTS + SPROV),
    'C10': (RC, SROOTS + SPROV),
    'C11': (RC, SROOTS + SPROV),
    'C12': (ARC, SROOTS + SPROV),
    'C13': (ARC, SROOTS + PROOTS + SPROV + PPROV),
    'C14': (BOTH, DROOTS),
    'C17': (BOTH, [r for r in SROOTS if r not in ('from_box_t', 'from_vec_t', 'try_from', 'm_from')] +
            ['m_split_off_left', 'm_split_off_right', 'm_drop', 'm_clone', 'from_iter', 'm_from_iter'] + IROOTS + QROOTS +
            ['p_new', 'p_count', 'p_drop', 'p_next', 'p_next_back'] + PROV),
}
# The clauses stated by a property itself; the invariant's own clauses belong to all of them.
UNWINDING = {'unwinding', 'unwound', 'contract'}
INVARIANT = {'laws', 'shape', 'counts', 'memory', 'contract', 'panic', 'storage', 'items', 'leak'}
OWN = {
    'C01': {'range', 'items'}, 'C02': {'range', 'len', 'panic', 'handles', 'capacity', 'items'}, 'C03': {'range', 'len', 'panic', 'items'}, 'C04': {'range', 'items', 'len', 'panic'}, 'C05': {'convert', 'items', 'storage'}, 'C06': {'items', 'memory', 'handles'},
    'C07': {'items', 'storage'}, 'C08': {'storage', 'leak', 'counts', 'memory', 'handles'}, 'C09': {'grant', 'range'}, 'C10': {'grant', 'convert', 'items'},
    'C11': {'upgrade'}, 'C12': {'grant', 'convert', 'items'}, 'C13': {'items', 'upgrade', 'memory', 'handles'}, 'C14': {'delegate', 'range', 'len'},
    'C17': {'unwinding', 'unwound'},
}
HEAVY = {'glue_D': 5, 'into_mut': 9, 'try_from': 9, 'drop': 8, 'split_off_left': 7, 'split_off_right': 7, 'm_parts': 9, 'p_next': 9, 'p_next_back': 9, 'p_new': 6}

TRUSTED = ['rustc (front end, MIR construction, monomorphisation) and the MIR reader /verif/vcg/driver/main.rs',
           'the obligation generator /verif/vcg/m (MIR semantics, ghost heap) and z3 4.8',
           'assumed contracts of std (vcg/m/models.py): Rc/Arc/Weak counts, Box, Vec::from_raw_parts/into_boxed_slice, Cell, Option/Result, ptr/NonNull/slice primitives, atomics',
           'assumed contracts of std (vcg/m/deque.py): VecDeque and iterators over it; (vcg/m/deleg.py): comparison, hashing and Debug of plain slices, debug builders, Vec::from_iter, Iterator::cloned']
ASSUME = ['item types are represented by one droppable type of symbolic non-zero size and one zero-sized droppable type: the code is parametric in T apart from size_of::<T>() == 0',
          'machine integers are mathematical integers with overflow obligations; slice lengths below 2^60, handle counts below 2^40',
          'atomics are executed sequentially (single-threaded histories; C16 covers schedules and is not applicable)',
          'item destructors and clones return (C17: or panic, at most one per operation, a second one aborts) and do not call back into the slice being dropped',
          'loops and recursion: partial correctness (termination is only exercised by the bounded search)']


def discharge(pid, tier, repo, build):
    meta = {'trusted': list(TRUSTED), 'assumptions': list(ASSUME), 'functions': [], 'details': {}}
    t0 = time.time()
    path, err = dump(repo, build)
    if path is None:
        return [dict(name='mir', status='unknown', detail=err, back_end='z3', time=0)], meta
    fls, roots = PLAN[pid]
    unw = pid == 'C17'
    tmax = (200, t0 + 480, unw) if tier == 'quick' else (800, t0 + 3600, unw)
    jobs = [(path, fl, z, 'prov' if n in PROV else 'proot' if n.startswith('p_') else 'root', n, tmax) for fl in fls for z in ('sized', 'zst') for n in roots]
    jobs.sort(key=lambda j: -HEAVY.get(j[4], 0) - (j[1] == 'arc') * 0.5 - (j[2] == 'zst') * 0.3)
    obls, fns, seen, done = [], set(), set(), {}
    try:
        with cf.ProcessPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
            pend = {ex.submit(work, j) for j in jobs}
            while pend:
                fin, pend = cf.wait(pend, return_when=cf.FIRST_COMPLETED)
                for f in fin:
                    j, r = f.result()
                    done[j] = r
                    if j[3] == 'proot' and 'plemmas' not in seen:
                        seen.add('plemmas')
                        pend.add(ex.submit(work, (path, '', '', 'lemmas', 'shared', tmax)))
                    for kind, fid in r['contracts']:
                        inner = kind.startswith('parts:')
                        k = (None if inner else j[1], j[2], kind, fid)
                        if k not in seen and inner:
                            seen.add(k)
                            pend.add(ex.submit(work, (path, j[1], j[2], 'inner', (kind[6:], fid), tmax)))
                            if 'lemmas' not in seen:
                                seen.add('lemmas')
                                pend.add(ex.submit(work, (path, '', '', 'lemmas', 'unique', tmax)))
                        elif k not in seen:
                            seen.add(k)
                            pend.add(ex.submit(work, (path, j[1], j[2], 'croot', (kind, fid), tmax)))
    except cf.process.BrokenProcessPool:
        obls.append(dict(name='workers', status='unknown', detail='a worker process died', back_end='z3', time=0))
    stat = {'paths': 0, 'queries': 0, 'conditions': 0, 'contracts': []}
    for j in sorted(done, key=str):
        _, fl, z, kind, what, _ = j
        r = done[j]
        if kind == 'lemmas':
            obls += [dict(name='lemma: ' + n, status=s, detail='', back_end='z3', time=0) for n, s in r.get('lemmas', [])]
        nm = '%s.%s.%s' % (fl, z, what if kind in ('root', 'proot', 'prov') else 'contract of ' + r.get('cname', '?'))
        fns |= set(r['fns'])
        stat['paths'] += r['paths']
        stat['queries'] += r.get('queries', 0)
        stat['conditions'] += sum(r['nobl'].values())
        if kind in ('croot', 'inner'):
            stat['contracts'].append(nm)
        tm = r.get('solver', 0)
        un = sorted(set(r['unsup']))
        if unw and kind in ('root', 'proot', 'prov') and 'std\'s provided method' not in r['nobl']:
            # the normal exits of the operations are the subject of C01-C14
            r['nobl'] = {k: v for k, v in r['nobl'].items() if k in UNWINDING}
            r['viol'] = {k: v for k, v in r['viol'].items() if k in UNWINDING}
            if not r['nobl'] and not r['viol'] and not un:
                obls.append(dict(name=nm + ': no unwinding exit', status='proved', back_end='z3', time=tm, detail=''))
        for cl in sorted(set(r['nobl']) | set(r['viol'])):
            v = r['viol'].get(cl)
            own = '' if cl in OWN[pid] or kind == 'prov' else ' (invariant)'
            o = dict(name='%s: %s%s' % (nm, cl, own), back_end='z3', time=tm, detail='')
            tm = 0
            if v:
                o['status'] = 'refuted'
                o['detail'] = '; '.join('%s [path %s]' % (m, ''.join('FT'[bool(x)] for x in s)) for m, s in sorted(v.items())[:4])
                if cl == 'contract' or unw and cl != 'unwinding':
                    o['status'] = 'unknown'
            elif un:
                o['status'] = 'unknown'
                o['detail'] = 'not all paths could be explored'
            else:
                o['status'] = 'proved'
            obls.append(o)
        if un:
            obls.append(dict(name=nm + ': reach', status='unknown', detail='; '.join(un[:4]), back_end='z3', time=0))
    meta['functions'] = sorted(n for n in fns if 'rc_slice::' in n or n.startswith('h::'))
    meta['details'] = {'slices': dict(stat, seconds=round(time.time() - t0, 1), inlined_std=len([n for n in fns if 'rc_slice::' not in n]))}
    return obls, meta
