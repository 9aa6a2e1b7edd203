"""C20: which feature selections build (decided by the type checker), and which items exist in which variant."""
import os, json, itertools, time, sys
VERS = ('spec_v1_2', 'subiot_v0_0', 'subiot_v0_1', 'wizzilab_v5_3')
SHORT = ('spec', 'subiot', 'wizzilab')

def items(dump):
    """public items of one variant: types, alternatives, fields, functions, constants"""
    d = json.load(open(dump))
    out = set()
    for t in d['types']:
        if t.get('k') != 'adt' or not t.get('local') or not t.get('pub'): continue
        out.add('type ' + t['path'])
        for v in t['variants']:
            if t['adt'] == 'enum': out.add('alternative %s::%s' % (t['path'], v['n']))
            for f in v['f']:
                if t['adt'] == 'enum' or f.get('pub'):
                    out.add('field %s::%s.%s' % (t['path'], v['n'] if t['adt'] == 'enum' else '', f['n']))
    for r in d['roots']:
        if r['pub'] and '{closure' not in r['key']: out.add('function ' + r['path'])
    for c in d['consts']:
        if c.get('pub'): out.add('constant ' + c['path'])
    return out
def selections(tier):
    """(package, features, must build?, label)"""
    for n in range(5):
        for s in itertools.combinations(VERS, n):
            yield 'dash7', ('std',) + s, n == 1
            if n <= (2 if tier == 'quick' else 4): yield 'dash7-cli', s, n == 1
            if n == 1 or tier != 'quick': yield 'dash7', ('alloc',) + s, n == 1
    for s in SHORT:
        yield 'dash7', ('std', s), True
        yield 'dash7-cli', (s,), True
    for a, b in itertools.combinations(SHORT, 2): yield 'dash7', ('std', a, b), False
    yield 'dash7', ('std', 'subiot', 'subiot_v0_0'), False
    yield 'dash7-cli', ('subiot', 'subiot_v0_0'), False
    yield 'dash7', ('std', 'subiot', 'subiot_v0_1'), True
def run(ex, ck, tier):
    t0 = time.time()
    viol = []; und = []; stat = {}
    def inc(k, n=1): stat[k] = stat.get(k, 0) + n
    def add(rule, key, what, **kw): viol.append(dict(rule=rule, key=key, what=what, variant=kw.pop('variant', '-'), n=1, **kw))
    jobs = list(dict.fromkeys(selections(tier)))
    groups = [jobs[i::6] for i in range(6)]
    def work(i):
        res = []
        for pkg, fs, ok in groups[i]:
            tgt = os.path.join(ck.CACHE, 'features-%d' % i)
            env = dict(os.environ, CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_BUILD_JOBS='2', RUSTFLAGS='-Awarnings')
            for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'): env.pop(k, None)
            c = ['cargo', 'check', '--offline', '--locked', '-p', pkg, '--no-default-features', '-F', ','.join(fs), '--target-dir', tgt] if fs else ['cargo', 'check', '--offline', '--locked', '-p', pkg, '--no-default-features', '--target-dir', tgt]
            with ck.Lock('features-%d' % i): r = ck.sh(c, cwd=ck.REPO, env=env)
            res.append((pkg, fs, ok, r.returncode, r.stdout))
        return res
    fut = [ex.submit(work, i) for i in range(6)]
    done = [x for f in fut for x in f.result()]
    for pkg, fs, ok, rc, out in done:
        inc('selections')
        name = '%s[%s]' % (pkg, ','.join(fs))
        if rc == 0: inc('built')
        else:
            mine = 'could not compile `dash7' in out or 'does not contain this feature' in out or 'none of the selected packages contains' in out or "error: the package 'dash7" in out
            if not mine: und.append((name, 'toolchain: ' + out[-300:])); continue
            inc('refused')
        if ok and rc: add('advertised version does not build', 'build|' + name, 'the selection %s does not build' % name, where='dash7/Cargo.toml', witness={'compiler': errors(out)})
        if not ok and not rc: add('forbidden selection builds', 'accepts|' + name, 'the selection %s builds' % name, where='dash7/src/lib.rs')
    # items per variant
    ref = json.load(open(os.path.join(ck.V, 'ref', 'items.json')))
    fut = [(v, ex.submit(ck.dump, v)) for v in ck.VARIANTS]
    have = {}
    for v, f in fut:
        p, e = f.result()
        if p is None: und.append((v, 'does not build')); continue
        have[v] = items(p); inc('items', len(have[v]))
    if len(have) == len(ck.VARIANTS):
        for it, vs in ref.items():
            now = [v for v in ck.VARIANTS if it in have[v]]
            if now and now != vs:
                # a function or a field may move; only report when the item still exists and its set of variants changed
                add('variant of an item', 'item|' + it, '%s belongs to %s but now exists in %s' % (it, vs, now), where=it.split(' ', 1)[1])
            inc('items_compared')
        # alternatives of one enumeration that are new, but in some variants only, are a new feature and are not judged
    return [{'variant': 'all', 'violations': viol, 'undecided': und, 'stat': stat, 'error': None, 't': [0, time.time() - t0]}]
def errors(out): return [l for l in out.splitlines() if l.startswith('error')][:6]
if __name__ == '__main__':
    # features.py ref OUT DIR: frozen table from the four dumps
    V = ('spec', 'subiot', 'subiot_v0_0', 'wizzilab')
    h = {v: items('%s/%s/lib/dash7.json' % (sys.argv[3], v)) for v in V}
    json.dump({i: [v for v in V if i in h[v]] for i in sorted(set().union(*h.values()))}, open(sys.argv[2], 'w'), indent=0)
