#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current source (no code of /repo is run)."""
import sys, os, json, time, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(V, '.cache'))
VARIANTS = ('spec', 'subiot', 'subiot_v0_0', 'wizzilab')
sys.path.insert(0, os.path.join(V, 'analysis'))
META = json.load(open(os.path.join(V, 'analysis', 'meta.json')))

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def filehash(root, skip=('target', '.git')):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p): continue
            h.update(os.path.relpath(p, root).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:20]
class Lock:
    def __init__(s, name):
        os.makedirs(CACHE, exist_ok=True)
        s.f = open(os.path.join(CACHE, name + '.lock'), 'w')
    def __enter__(s): fcntl.flock(s.f, fcntl.LOCK_EX)
    def __exit__(s, *a): fcntl.flock(s.f, fcntl.LOCK_UN)
def sysroot(): return sh(['rustc', '+nightly', '--print', 'sysroot'], cwd=V).stdout.strip().splitlines()[-1]
def driver():
    """the MIR extractor (our own rustc driver)"""
    h = filehash(os.path.join(V, 'extractor'))
    d = os.path.join(CACHE, 'driver-' + h); exe = os.path.join(d, 'release', 'mirdump')
    with Lock('driver'):
        if not os.path.exists(exe):
            r = sh(['cargo', '+nightly', 'build', '--offline', '--release', '--target-dir', d], cwd=os.path.join(V, 'extractor'))
            if r.returncode: raise SystemExit2('extractor does not build:\n' + r.stdout[-3000:])
    return exe, h
class SystemExit2(Exception): pass
def dump(variant, what='lib'):
    """type-checked MIR of one variant -> (path, compiler output if it does not build)"""
    exe, h = driver()
    with Lock('dump-%s-%s' % (variant, what)):
        out = os.path.join(CACHE, 'dump', '%s-%s-%s-%s' % (filehash(REPO), h[:8], variant, what))
        p = os.path.join(out, what, 'dash7.json')
        if os.path.exists(p): return p, None
        for fresh in (False, True):
            tgt = os.path.join(CACHE, 'target-%s-%s' % (variant, what))
            if fresh: shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
            env = dict(os.environ, LD_LIBRARY_PATH=sysroot() + '/lib', MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TERM_COLOR='never',
                       RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings', CARGO_INCREMENTAL='0')
            sel = ['-p', 'dash7'] if what == 'lib' else ['--workspace']
            r = sh(['cargo', '+nightly', 'check', '--offline', '--locked', *sel, '--no-default-features', '-F', 'std,' + variant, '--target-dir', tgt], cwd=REPO, env=env)
            if r.returncode: shutil.rmtree(out, ignore_errors=True); return None, r.stdout[-4000:]
            if os.path.exists(p): break
        # keep only the newest few dumps
        dd = os.path.join(CACHE, 'dump')
        old = sorted((os.path.join(dd, e) for e in os.listdir(dd)), key=os.path.getmtime)
        for e in old[:-24]: shutil.rmtree(e, ignore_errors=True)
        if not os.path.exists(p): return None, 'extractor wrote nothing'
        return p, None
def analyse(pid, variant, tier):
    what = 'bin' if pid == 'C18' else 'lib'
    t0 = time.time()
    p, e = dump(variant, what)
    if p is None: return {'variant': variant, 'build': e, 'violations': [], 'undecided': [], 'stat': {}, 'error': None}
    t1 = time.time()
    out = os.path.join(CACHE, 'run-%d-%s-%s.json' % (os.getpid(), pid, variant))
    env = dict(os.environ, VERIF_TIER=tier, PYTHONHASHSEED='0', VERIF_REPO=REPO)
    r = sh([sys.executable, os.path.join(V, 'analysis', 'props.py'), pid, variant, p, os.path.join(V, 'ref', variant + '.json.gz'), out], env=env)
    if r.returncode or not os.path.exists(out):
        return {'variant': variant, 'violations': [], 'undecided': [('analysis', r.stdout[-1500:])], 'stat': {}, 'error': None, 'crash': r.stdout[-3000:]}
    d = json.load(open(out)); os.remove(out)
    d['t_dump'] = t1 - t0
    return d
def known():
    """exact keys of recorded findings: property -> key -> text"""
    K = {}
    for l in open(os.path.join(V, 'known_findings.txt')):
        l = l.strip()
        if not l.startswith('finding: property='): continue
        pid, rest = l[len('finding: property='):].split(' ', 1)
        key, what = rest.split(' :: ', 1)
        K.setdefault(pid, {})[key] = what
    return K
def main():
    pid = sys.argv[1]
    if pid == '--setup':
        driver()
        with ThreadPoolExecutor(4) as ex: r = list(ex.map(lambda v: dump(v)[1], VARIANTS))
        for v, e in zip(VARIANTS, r):
            if e: print(v, e[-1500:])
        return 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    vs = VARIANTS
    with ThreadPoolExecutor(8) as ex:
        if pid == 'C20':
            import features
            res = features.run(ex, sys.modules[__name__], tier)
        else:
            try: driver()
            except SystemExit2 as e: print(e); return 2
            res = list(ex.map(lambda v: analyse(pid, v, tier), vs))
    viol = {}; und = []; stat = {}
    for r in res:
        for o in r['violations']:
            q = viol.setdefault(o['key'], dict(o, variants=[]))
            q['variants'].append(o['variant'])
        und += [(r['variant'],) + tuple(u) for u in r['undecided']]
        for k, n in r['stat'].items(): stat[k] = stat.get(k, 0) + n
        if r.get('build'): und.append((r['variant'], 'build', 'variant does not build: ' + r['build'][-600:]))
        if r.get('error'): und.append((r['variant'], 'anchors', r['error']))
    K = known().get(pid, {})
    new = [o for k, o in sorted(viol.items()) if k not in K]
    old = [o for k, o in sorted(viol.items()) if k in K]
    for o in old: print('KNOWN-FINDING: property=%s %s [%s; %s]' % (pid, K[o['key']], o.get('where', '?'), ','.join(o['variants'])))
    for u in und[:12]: print('UNDECIDED: %s %s: %s' % (u[0], u[1][:140], str(u[2])[:200]))
    if len(und) > 12: print('UNDECIDED: ... %d in all' % len(und))
    m = META[pid]
    cov = {'explanation': m['explanation'], 'rule': m['rule'], 'variants': {r['variant']: r['stat'] for r in res}, 'totals': stat,
           'undecided': len(und), 'undecided_list': [list(map(str, u)) for u in und[:40]], 'known_findings': [o['key'] for o in old],
           'timing_s': {r['variant']: r.get('t') for r in res}}
    cov.update(proof_fields(m, stat, und, new, old))
    ok = [r for r in res if not r.get('build') and not r.get('crash') and not r.get('error')]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': m['level'], 'coverage': cov, 'assumptions': m['assumptions'] + META['_']['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if new:
        rp = os.path.join(V, 'evidence', 'replay-%s.json' % pid)
        json.dump({'property': pid, 'violations': new}, open(rp, 'w'), indent=1)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for o in new[:20]:
        print('  %s: %s\n    rule: %s; function: %s at %s; variants: %s' % (o['key'][:200], o['what'], o['rule'], o.get('fn', '-'), o.get('where', '-'), ','.join(o['variants'])))
        if o.get('witness'): print('    witness: ' + json.dumps(o['witness'])[:700])
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rp)); return 1
    if not ok:
        for r in res: print(r['variant'], (r.get('build') or r.get('crash') or r.get('error') or '')[-1500:])
        print('no variant could be analysed'); return 2
    if len(ok) < len(res):
        for r in res:
            if r.get('crash'): print('crash in %s: %s' % (r['variant'], r['crash'][-800:]))
    print('%s holds on everything analysed: %s' % (pid, json.dumps(stat))); return 0
def proof_fields(m, stat, und, new, old):
    return {}
if __name__ == '__main__': sys.exit(main())
