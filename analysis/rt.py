"""C01: what an encoder emits for a decoded value is what the decoder consumed."""
from engine import *
from summ import *
from compare import *

LENT, VART = 'app::operation::length::Length', 'types::VarInt'

def pairs(x):
    """(type, reader key, writer key) with the same context"""
    side = x.cmp.cur
    for T, rs in sorted(side.rd.items()):
        ws = side.wr.get(T)
        if not ws: continue
        for cx, rk in rs:
            wk = [k for c, k in ws if (c == '') == (cx == '')]
            if not wk:
                # a reader with a context whose writer needs none
                wk = [k for c, k in ws if c == '']
                if not wk: x.undec(rk, 'no encoder with this context'); continue
            yield T, rk, wk[0]
def observed(l):
    """stream bits that take part in the value or in the decision: base -> set of intervals"""
    out = {}
    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == 's': out.setdefault(v[1], set()).add((v[2], v[2] + v[3]))
            for y in v:
                if isinstance(y, tuple): walk(y)
    walk(l.ret); walk(tuple(l.facts.keys()))
    return out
def overlap(obs, base, a, b): return any(x < b and a < y for x, y in obs.get(base, ()))
class No(Exception): pass
def match(x, l, st, ems, final, obs, lens):
    """raises No(where, why) at the first emission that is not what was consumed; lens collects recomputed length prefixes"""
    f = st.f
    base, off = E0, 0
    reads = set(); rds_all(l.ret, reads); rds_all(tuple(l.facts.keys()), reads); rds_all(l.pos, reads)
    lengths = {(o[2], o[3]): o for o in reads if o[0] == 'rd' and o[1] == LENT}
    for n, e in enumerate(ems):
        if e[0] == 'bits':
            todo = list(f.norm(e[1])[2])
            while todo:
                p = todo.pop(0)
                w = plen(p)
                if p[0] == 's' and p[1] == base and p[2] == off: off += w; continue
                o = lengths.get((base, off))
                if o is not None and p[0] == 'k' and w >= 2:
                    # a length that is recomputed from the payload
                    z = 8 * ((p[2] >> (w - 2)) + 1)
                    got = [p]; k = w
                    while k < z and todo: got.append(todo.pop(0)); k += plen(got[-1])
                    if k < z: raise No(n, 'length')
                    if k > z:
                        q = got.pop(); r = k - z
                        if q[0] == 'k': got.append(('k', plen(q) - r, q[2] >> r)); todo.insert(0, ('k', r, q[2] & mask(r)))
                        elif q[0] == 's': got.append(('s', q[1], q[2], q[3] - r)); todo.insert(0, ('s', q[1], q[2] + q[3] - r, r))
                        else: raise No(n, 'length')
                    rest = ([('bits', ('I', sum(map(plen, todo)), tuple(todo)))] if todo else []) + list(ems[n + 1:])
                    lens.append((n, tuple(got), z, tuple(rest)))
                    base, off = ('aft', o), 0
                    continue
                if p[0] == 's': raise No(n, 'bits of another place')
                if p[0] == 'k':
                    # constant: bit by bit
                    for i in range(w):
                        b = (p[2] >> (w - 1 - i)) & 1
                        c = f.const(('I', 1, (('s', base, off + i, 1),)))
                        if c is None:
                            c = const_over(f, base, off + i)
                        if c == b: continue
                        if c is None and b == 0 and not overlap(obs, base, off + i, off + i + 1): continue
                        raise No(n, 'constant bits')
                    off += w; continue
                raise No(n, 'computed bits')
        elif e[0] in ('nt', 'seq'):
            v = e[2]
            if v[0] != 'Y': raise No(n, 'built value')
            o = v[2]
            if o[0] == 'rd' and e[0] == 'nt' and o[2] == base and o[3] == off and o[1] == e[1] and same_ctx(x, e[1], f, o[4], e[3]):
                z = size_of(x, o)
                if z is None: base, off = ('aft', o), 0
                else: off += z
                continue
            if o[0] == 'rv' and e[0] == 'seq' and o[1] == base and o[2] == off and o[4][1] == e[1]:
                base, off = ('aft', o), 0; continue
            raise No(n, 'value of another place')
        else: raise No(n, 'emission')
    if (base, off) != final: raise No(len(ems), 'ends elsewhere')
def right_length(x, rk, l, s, f, got, z, rest):
    """the recomputed length is the size of what follows: True, False (confirmed) or None"""
    last = got[-1]
    if last[0] == 'b' and last[1][0] == 'v' and last[1][1][0] == 'buflen':
        inner = last[1][1][1]
        if tuple(rest[:len(inner)]) == tuple(inner): return True
    n = 0
    for env, args, ea, eb in x.cmp.valuations(rk, l, l, f, 60):
        try:
            v = ea.pieces(got) & mask(z - 2)
            if v * 8 != len(ea.emit(rest)): return {'input_bits': bitstr(env), 'length': v, 'payload_bits': len(ea.emit(rest))}
        except (Fail, Skip): continue
        n += 1
        if n > 8: return True
    return True if n else None
def used_ctx(x, T, unit):
    """components of its context that the encoder of T looks at (None: the whole)"""
    memo = x.__dict__.setdefault('ctxmemo', {})
    if (T, unit) in memo: return memo[T, unit]
    side = x.cmp.cur; out = set()
    key = side.codec(side.wr, T, ('T', ()) if unit else ('T', (0,)))
    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == '.' and v[1] == ('a', 2): out.add(v[2]); return
            if v == ('a', 2): out.add(None); return
            for y in v:
                if isinstance(y, tuple): walk(y)
    for l in x.cur.roots[key]:
        if l.failed(): continue
        walk(l.ems); walk(tuple(l.facts.keys())); walk(opaque_err(l.ret) if l.kind == 'ret' else ())
    memo[T, unit] = out
    return out
def same_ctx(x, T, f, a, b):
    a, b = normtree(f, a), normtree(f, b)
    if a == b: return True
    if b == ('T', ()): return True
    u = used_ctx(x, T, b == ('T', ()))
    if not u: return True
    if a[0] == b[0] == 'T' and len(a[1]) == len(b[1]) and None not in u: return all(a[1][int(i)] == b[1][int(i)] for i in u)
    return False
def const_over(f, base, pos):
    """a bit of a word known to be constant or in a range that fixes it"""
    for k, s in f.f.items():
        t = sum(plen(p) for p in k); o = t
        for p in k:
            o -= plen(p)
            if p[0] == 's' and p[1] == base and p[2] <= pos < p[2] + p[3]:
                b = o + p[3] - 1 - (pos - p[2])
                v = {(lo >> b) & 1 for lo, hi in s} | {(hi >> b) & 1 for lo, hi in s}
                if len(v) == 1 and all(lo >> b == hi >> b for lo, hi in s): return v.pop()
    return None
def size_of(x, o):
    key = x.cmp.cur.codec(x.cmp.cur.rd, o[1], o[4])
    return x.eng.sizes.get(key)
def strip(v):
    if not isinstance(v, tuple) or not v: return v
    if v[0] == 'N' and len(v) == 2 and isinstance(v[1], tuple): return strip(v[1])
    if v[0] == 'L': return ('L', tuple(strip(y) for y in v[1]))
    if v[0] == 'A': return ('A', v[1], v[2], tuple(strip(y) for y in v[3]))
    return v
def runwriter(x, wk, l):
    """cases of the encoder on the value decoded in case l"""
    e = x.eng; I = e.interp(); st = l.src.st.copy(); st.ev = ()
    F = e.p.F[wk]
    v = strip(l.src.raw[3][0])
    cell = st.new(v)
    w = st.new(('O', 'wr', (), None))
    args = [('R', cell, (), None), ('R', w, (), None)]
    if F['argc'] > 2:
        c = I.sym(F['locals'][3], ('a', 1))
        # an operand takes its opcode from its context: the one it was decoded with
        if e.p.path(F['locals'][3]) == 'app::action::OpCode' and v[0] == 'A':
            t = e.p.t(v[1])
            for i, fd in enumerate(t['variants'][0]['f'] if t['adt'] == 'struct' else ()):
                if fd['n'] == 'opcode': c = v[3][i]
        args.append(c)
    return I, w, I.run(wk, args, st)
def expected(ev, l, obs, ems):
    """bits of the consumed stretch with ignored bits cleared and nested values re-encoded"""
    segs = {}
    final = (l.pos[0], l.pos[1])
    # chain of nested reads from the start to the final base
    reads = set(); rds_all(l.ret, reads); rds_all(tuple(l.facts.keys()), reads); rds_all(l.pos, reads)
    start = ev.base(E0); end = ev.base(final[0]) + final[1]
    cover = []
    for o in reads:
        if o[0] == 'rd': a = ev.base(o[2]) + o[3]
        elif o[0] == 'rv': a = ev.base(o[1]) + o[2]
        else: continue
        v, b = ev.read(o)
        if b > end: continue
        if o[0] == 'rd': s = ev.encode(o[1], v, ev.tree(o[4]), o[4])
        else:
            s = ''
            c = ev.tree(o[4][2])
            for y in v[1]: s += bin(y | 256)[3:] if isinstance(y, int) else ev.encode(o[4][1], y, c, o[4][2])
        cover.append((a, b, s))
    cover.sort()
    seen = [False] * (end - start)
    for b, ivs in obs.items():
        try: p = ev.base(b) - start
        except (Skip, Fail): continue
        for lo, hi in ivs:
            for i in range(max(0, p + lo), min(end - start, p + hi)): seen[i] = True
    out = ''; p = start
    for a, b, s in cover + [(end, end, '')]:
        if a < p: raise Skip('overlapping reads')
        while p < a: out += str(ev.e.bit(p)) if seen[p - start] else '0'; p += 1
        out += s; p = b
    return out
def rds_all(v, acc):
    if isinstance(v, tuple):
        if len(v) == 5 and v[0] in ('rd', 'rv') : acc.add(v)
        for y in v:
            if isinstance(y, tuple): rds_all(y, acc)
def describe(l):
    """which alternative was decoded"""
    v = l.ret[3][0][1]
    return v[2] if v[0] == 'A' and v[2] else ''
def check(x):
    for T, rk, wk in pairs(x):
        if not x.roots[rk]['pub']: continue
        x.inc('types')
        for l in x.cur.roots[rk]:
            if l.kind != 'ret' or l.failed() or l.ret[0] != 'A' or l.ret[2] != 'Ok': continue
            x.inc('decoded_cases')
            try: one(x, T, rk, wk, l)
            except (Undec, Skip, Cut) as e: x.undec(rk, 'round trip: %s' % (e,))
            except RecursionError: x.undec(rk, 'round trip: recursion')
def one(x, T, rk, wk, l):
    I, w, outs = runwriter(x, wk, l)
    obs = observed(l)
    for st, kind, v in outs:
        if kind == 'ret' and any(e[0] == 'fail' for e in st.ev): continue
        x.inc('encoded_cases')
        if kind == 'undec': x.undec(wk, 'round trip: %s' % (v,)); continue
        if kind == 'cut': x.inc('bounded'); continue
        s = SLeaf(); s.kind = kind; s.muts = (); s.pos = l.pos; s.br = None; s.text = None; s.ev = st.ev; s.facts = dict(st.f.f); s.src = None; s.ems = None; s.ret = None
        if kind == 'ret':
            try: s.ret = deep(I, st, v); s.ems = em_norm(st.f, st.c[w][2])
            except Undec as e: x.undec(wk, 'round trip: %s' % e); continue
        if any(len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] == 'buflen' and k[0][2] == 0 and ilo(iset) >= 1 << 30 for k, iset in s.facts.items()):
            x.inc('payload_over_2^30'); continue           # no accepted payload is that long
        if kind != 'ret' or s.ret[2] == 'Err':
            why = ('refused', 'the decoded value is refused by the encoder') if kind == 'ret' else ('panic', 'encoding the decoded value panics')
            wit = witness(x, rk, l, s, obs, refuse=True)
            if wit in (None, 'unknown') and T in (LENT, VART): x.inc('unreached_cases'); continue
            if wit in (None, 'unknown'): x.undec(rk, 'refusal not confirmed: %s' % describe(l)); continue
            x.add('round trip', 'rt|%s|%s|%s' % (T, describe(l), why[0]), why[1], fn=rk, where=x.where(rk), witness=wit); continue
        try:
            if T not in (LENT, VART):
                lens = []
                match(x, l, st, s.ems, (l.pos[0], l.pos[1]), obs, lens); x.inc('matched')
                for n, got, z, rest in lens:
                    x.inc('recomputed_lengths')
                    m = SLeaf(); m.kind = 'ret'; m.ret = l.ret; m.muts = (); m.pos = l.pos; m.br = l.br; m.ems = s.ems; m.text = None; m.ev = (); m.facts = s.facts; m.src = None
                    ok = right_length(x, rk, m, s, st.f, got, z, rest)
                    if ok is None: x.inc('length_unconfirmed')
                    elif ok is not True: x.add('round trip', 'rt|%s|%s|wrong length' % (T, describe(l)), 'the encoded length is not that of the payload', fn=rk, where=x.where(rk), witness=ok)
                    x.add('round trip', 'rt|%s|%s|length' % (T, describe(l)), 'the length before a typed payload is not kept: a message that announces another length than its payload has is re-encoded with the right one', fn=rk, where=x.where(rk))
                continue
        except No as e: why = e.args
        else: why = (0, 'number')
        x.inc('valuated')
        wit = witness(x, rk, l, s, obs, T=T)
        if wit is None: continue
        if wit == 'unknown': x.undec(rk, 'round trip not confirmed: %s at %s: %s' % (why[1], why[0], describe(l))); continue
        x.add('round trip', 'rt|%s|%s|%s' % (T, describe(l), 'bits' if wit['encoded'] else 'nothing written'), 'encoding the decoded value does not give back the bits (%s, item %s)' % (why[1], why[0]), fn=rk, where=x.where(rk), witness=wit)
def witness(x, rk, l, s, obs, refuse=False, T=None):
    f = facts_of(s.facts)
    if f is None: return None
    ok = 0
    m = SLeaf(); m.kind = 'ret'; m.ret = l.ret; m.muts = (); m.pos = l.pos; m.br = l.br; m.ems = s.ems; m.text = None; m.ev = (); m.facts = s.facts; m.src = None
    for env, args, ea, eb in x.cmp.valuations(rk, m, m, f, 200):
        try:
            v = ea.tree(l.ret)[3][0][1]
            end = ea.base(l.pos[0]) + l.pos[1]
            if refuse: return {'input_bits': bitstr(env), 'decoded': repr(v)[:300]}
            got = ea.emit(s.ems)
            if T in (LENT, VART):
                e2 = Env(env.rnd); e2.put(0, len(got), int(got, 2) if got else 0); e2.end = len(got)
                v2, p2 = Ev(x.cmp.cur, e2, Frame(0, {})).decode(T, 0, ('T', ()), ('T', ()))
                good = v2 == v and p2 == len(got); want = repr(v)
            else:
                want = expected(ea, l, obs, s.ems); good = want == got
        except Fail as e: continue
        except Skip as e: x.cmp.last = str(e); continue
        ok += 1
        if not good: return {'input_bits': bitstr(env), 'consumed_bits': end, 'decoded': repr(v)[:300], 'encoded': got, 'expected': want}
        if ok >= 12: return None
    return None if ok >= 3 else 'unknown'
