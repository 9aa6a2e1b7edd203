"""Serialised function summaries (hash-consed): the frozen tables under ref/ and the in-memory form both sides are compared in."""
import json, gzip
from engine import *

SKIP_TRAITS = ('std::fmt::Debug', 'std::marker::StructuralPartialEq')
def mode_of(r):
    return 'all' if r['name'] in ('from_bytes', 'from_reader', 'try_from') and 'closure' not in r['key'] else ''
class SLeaf:
    """kind ret muts pos br ems text ev facts"""
    __slots__ = ('kind', 'ret', 'muts', 'pos', 'br', 'ems', 'text', 'ev', 'facts', 'src', '_f')
    def tup(s): return (s.kind, s.ret, s.muts, s.pos, s.br, s.ems, s.text, s.ev, tuple(sorted(s.facts.items(), key=repr)))
    @staticmethod
    def of(l):
        s = SLeaf(); s.kind = l.kind; s.ret = l.ret; s.muts = l.muts
        s.pos = l.pos[2:] if l.pos else None
        s.br = l.br; s.ems = l.ems; s.text = l.text; s.ev = l.ev; s.facts = l.facts; s.src = l
        return s
    @staticmethod
    def untup(t):
        s = SLeaf(); s.kind, s.ret, s.muts, s.pos, s.br, s.ems, s.text, s.ev, f = t
        s.facts = dict(f); s.src = None
        return s
    def failed(s):
        try: return s._f
        except AttributeError: s._f = any(e[0] == 'fail' for e in s.ev)
        return s._f
class Table:
    """root key -> leaves"""
    def __init__(s): s.roots = {}; s.long = {}; s.ph = {}; s.types = {}; s.dom = {}; s.tags = {}; s.consts = []
    def save(s, path):
        ids = {}; nodes = []
        def enc(x):
            if isinstance(x, tuple):
                i = ids.get(x)
                if i is None:
                    n = [enc(y) for y in x]
                    i = ids[x] = len(nodes); nodes.append(n)
                return [i]
            return x
        R = {}
        for k in sorted(s.roots):
            R[k] = [enc(l.tup())[0] for l in s.roots[k]]
        L = {k: [enc(l.tup())[0] for l in s.long[k]] for k in sorted(s.long)}
        P = {k: [enc(l.tup())[0] for l in s.ph[k]] for k in sorted(s.ph)}
        D = [[enc(k), enc(v)] for k, v in sorted(s.dom.items(), key=repr)]
        d = {'nodes': nodes, 'roots': R, 'long': L, 'ph': P, 'types': s.types, 'dom': D, 'tags': s.tags, 'consts': s.consts}
        with gzip.GzipFile(path, 'wb', mtime=0) as f: f.write(json.dumps(d, separators=(',', ':')).encode())
    @staticmethod
    def load(path):
        d = json.loads(gzip.open(path).read())
        nodes = []
        for n in d['nodes']:
            nodes.append(tuple(nodes[y[0]] if isinstance(y, list) else y for y in n))
        t = Table()
        t.types = d['types']; t.tags = d['tags']; t.consts = d['consts']
        t.roots = {k: [SLeaf.untup(nodes[i]) for i in v] for k, v in d['roots'].items()}
        t.long = {k: [SLeaf.untup(nodes[i]) for i in v] for k, v in d.get('long', {}).items()}
        t.ph = {k: [SLeaf.untup(nodes[i]) for i in v] for k, v in d.get('ph', {}).items()}
        t.dom = {nodes[k[0]]: nodes[v[0]] for k, v in d['dom']}
        DOM.update({k: v for k, v in t.dom.items() if k not in DOM})
        return t

def tyinfo(p, i):
    t = p.t(i); k = t['k']
    if k in ('int', 'uint'): return {'k': k, 'w': t['bits']}
    if k == 'bool': return {'k': 'bool', 'w': 1}
    if k == 'char': return {'k': 'char', 'w': 32}
    if k == 'tuple': return {'k': 'tuple', 't': [p.name(x) for x in t['tys']]}
    if k == 'array': return {'k': 'array', 'n': t['len'], 't': p.name(t['ty'])}
    if k == 'slice': return {'k': 'seq', 't': p.name(t['ty'])}
    if k in ('ref', 'ptr'): return {'k': 'ref', 't': p.name(t['ty'])}
    if k == 'str': return {'k': 'str'}
    if k == 'adt':
        if is_vec(t): return {'k': 'seq', 't': p.name(t['args'][0])}
        if is_string(t): return {'k': 'str'}
        if t['adt'] == 'union': return {'k': 'opaque'}
        en = t['adt'] == 'enum'
        vs = []
        for v in t['variants']:
            fs = [[(f['n'] if (en or f['pub'] or not t.get('local')) else '#%d' % j), p.name(f['ty'])] for j, f in enumerate(v['f'])]
            vs.append([v['n'] if en else '', int(v['d']) & mask(64), fs])
        return {'k': 'enum' if en else 'struct', 'v': vs}
    return {'k': 'opaque'}
def build(prog, keep=None, eng=None):
    e = eng or Engine(prog)
    t = Table()
    for r in prog.roots:
        if r.get('trait') in SKIP_TRAITS: continue
        if keep and not keep(r): continue
        t.roots[r['key']] = [SLeaf.of(l) for l in e.analyze(r['key'], mode_of(r))]
    for k, ls in list(t.roots.items()):
        if any(l.kind == 'cut' and str(l.ret).startswith('sequence longer') for l in ls):
            t.long[k] = [SLeaf.of(l) for l in e.analyze(k, 'long' + mode_of(e.rootby[k])) if not any(v[0] == 'fail' for v in l.ev)]
    t.types = {p_['name']: tyinfo(prog, i) for i, p_ in enumerate(prog.T)}
    t.eng = e
    return t
if __name__ == '__main__':
    import sys, os
    t0 = time.time()
    prog = Prog(sys.argv[1]); t = build(prog)
    t.dom = {k: v for k, v in DOM.items()}
    print('built', time.time() - t0, sum(len(v) for v in t.roots.values()))
    t0 = time.time(); t.save(sys.argv[2]); print('saved', time.time() - t0, os.path.getsize(sys.argv[2]))
    t0 = time.time(); u = Table.load(sys.argv[2]); print('loaded', time.time() - t0)
    bad = [k for k in t.roots if [l.tup() for l in t.roots[k]] != [l.tup() for l in u.roots[k]]]
    print('mismatch', len(bad), bad[:3])
