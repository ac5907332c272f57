#!/usr/bin/env python3
"""Runner of every check: run.py <property> [quick|thorough].

Deciding step: the obligations of the property, generated from /repo's current source and
discharged by a deductive back end (layer 1).  Supporting step: a bounded search for a failing
history against the real code (layer 2), which supplies concrete counterexamples and stands in,
labelled bounded, for functions that layer 1 cannot currently reach."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.environ.get('VP_BUILD') or os.path.join(ROOT, '.build')
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)

NSH = 8
L2_SECS = {'quick': 12, 'thorough': 240}
DEEP_SECS = 60


def sh(cmd, timeout=None, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b'').decode('utf-8', 'replace')


class L2:
    def __init__(self):
        self.bin = None
        self.err = None

    def build(self):
        src = os.path.join(ROOT, 'search')
        tgt = os.path.join(BUILD, 'search')
        if REPO != '/repo':
            src2 = os.path.join(BUILD, 'search_src')
            shutil.rmtree(src2, ignore_errors=True)
            shutil.copytree(src, src2)
            t = open(os.path.join(src2, 'Cargo.toml')).read().replace('/repo', REPO)
            open(os.path.join(src2, 'Cargo.toml'), 'w').write(t)
            src = src2
        rc, out = sh(['cargo', 'build', '--offline', '--release', '--manifest-path', src + '/Cargo.toml'],
                     timeout=400, env={'CARGO_TARGET_DIR': tgt})
        b = os.path.join(tgt, 'release', 'search')
        if rc != 0 or not os.path.exists(b):
            self.err = 'search build failed: ' + out[-2000:]
            return False
        self.bin = b
        return True

    def run(self, pid, seed, secs):
        n = int(pid[1:])
        procs = [subprocess.Popen([self.bin, str(n), str(seed), str(secs), str(i), str(NSH)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL) for i in range(NSH)]
        r = {'walks': 0, 'exhaustive': 0, 'evaluations': 0, 'distinct': 0, 'other_failures': 0,
             'exhaustive_complete': True, 'fail': None, 'seconds': secs, 'incomplete': 0}
        for p in procs:
            try:
                out, _ = p.communicate(timeout=secs + 180)
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
            out = out.decode('utf-8', 'replace')
            m = re.search(r'^OK (.*)$', out, re.M)
            if p.returncode == 0 and m:
                for k, v in re.findall(r'(\w+)=(\w+)', m.group(1)):
                    if k == 'exhaustive_complete':
                        r[k] = r[k] and v == 'true'
                    elif k in r:
                        r[k] += int(v)
            elif p.returncode == 3 and re.search(r'^FAIL', out, re.M):
                if r['fail'] is None:
                    r['fail'] = out
            else:
                r['incomplete'] += 1
                r['exhaustive_complete'] = False
        return r


def write_replay(pid, obj):
    d = os.path.join(ROOT, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.json')
    json.dump(obj, open(p, 'w'), indent=1)
    return p


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known-findings')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    from props import PROPS
    spec = PROPS[pid]
    l2 = L2()
    with cf.ThreadPoolExecutor(4) as ex:
        fb = ex.submit(l2.build) if spec.get('l2', True) else None
        import l1
        obls, meta = l1.discharge(pid, tier, REPO, BUILD)
        if fb:
            fb.result()
    t1 = time.time()
    refuted = [o for o in obls if o['status'] == 'refuted']
    undecided = [o for o in obls if o['status'] == 'unknown']
    proved = [o for o in obls if o['status'] == 'proved']
    res = None
    fail = None
    if spec.get('l2', True):
        if l2.bin:
            secs = L2_SECS[tier]
            res = l2.run(pid, seed, secs)
            fail = res['fail']
            if not fail and (refuted or undecided) and tier == 'quick':
                # an obligation no longer goes through: look harder for a failing history
                deep = l2.run(pid, seed + 1, DEEP_SECS if refuted else 30)
                for k in ('walks', 'exhaustive', 'evaluations', 'distinct', 'other_failures', 'seconds', 'incomplete'):
                    res[k] += deep[k]
                fail = deep['fail']
        else:
            print('check: ' + (l2.err or 'search not built'), file=sys.stderr)
            if not obls:
                sys.exit(2)
    viol = None
    if fail:
        m = re.search(r'^CHOICES (\S+) (\S+) (\S+) (\S*)$', fail, re.M)
        obj = {'property': pid, 'kind': 'failing history on the real code', 'output': fail,
               'failed_obligations': refuted}
        if m:
            obj['replay_cmd'] = '%s replay %d %s' % (l2.bin, int(pid[1:]), ' '.join(m.groups()))
        viol = (write_replay(pid, obj), '')
    elif refuted:
        conc = [o for o in refuted if o.get('concrete')]
        obj = {'property': pid, 'kind': 'failed obligation', 'failed_obligations': refuted}
        viol = (write_replay(pid, obj), '' if conc else ' no-failing-input-found')
    cov = {
        'obligations': len(obls), 'discharged': len(proved),
        'refuted': len(refuted), 'undecided': [dict(name=o['name'], detail=str(o.get('detail', ''))[:400]) for o in undecided],
        'checker_cmd': 'bin/check %s' % pid,
        'trusted_base': meta.get('trusted', []),
        'by_back_end': meta.get('by_back_end', {}),
        'solver_seconds': round(sum(o.get('time', 0) for o in obls), 2),
        'functions_under_contract': meta.get('functions', []),
        'obligation_list': [o['name'] + ': ' + o['status'] for o in obls],
        'details': meta.get('details', {}),
    }
    if res:
        cov['bounded_support'] = {k: v for k, v in res.items() if k != 'fail'}
        cov['bounded_support']['label'] = 'bounded search of the real code; never counted as proved'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': meta.get('assumptions', []) + spec.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if viol else 0}
    if not obls:
        ev['level'] = 'exploration'
        cov['evaluations'] = res['evaluations'] if res else 0
        cov['distinct_nontrivial'] = res['distinct'] if res else 0
        cov['rule'] = 'histories of operations'
        cov['samples'] = []
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided; layer 1 %.1fs, total %.1fs%s' % (
        pid, len(obls), len(proved), len(refuted), len(undecided), t1 - t0, time.time() - t0,
        '; bounded search: %d histories' % res['evaluations'] if res else ''))
    for o in refuted:
        print('  refuted: %s: %s' % (o['name'], str(o.get('detail', ''))[:600]))
    for o in undecided:
        print('  undecided (bounded search stands in): %s: %s' % (o['name'], str(o.get('detail', ''))[:300]))
    for _m, t in known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, t))
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, viol[0], viol[1]))
        sys.exit(1)
    sys.exit(0)


main()
