"""Product comparison of two case tables.  Two cases are compared where their guards overlap; equal normal forms under the merged
guards are equal for every input.  Other pairs count as different only if some valuation of the atoms tells them apart."""
import random, zlib, time
from dom import *
from engine import E0
from evalr import *

class Cons:
    """one object per structure, so that shared parts are looked at once and equality is identity"""
    def __init__(s): s.seen = {}; s.tab = {}
    def __call__(s, v):
        if not isinstance(v, tuple): return v
        r = s.seen.get(id(v))
        if r is not None and r[0] is v: return r[1]
        ch = [s(x) if isinstance(x, tuple) else x for x in v]
        k = tuple([id(x) if isinstance(x, tuple) else (type(x), x) for x in ch])
        c = s.tab.get(k)
        if c is None: c = s.tab[k] = tuple(ch); s.seen[id(c)] = (c, c)
        s.seen[id(v)] = (v, c)
        return c
def normtree(f, v, memo=None):
    """normal form under the guards f; memo: by object, for one f"""
    if not isinstance(v, tuple) or not v: return v
    if memo is None: memo = {}
    r = memo.get(id(v))
    if r is not None: return r[1]
    if v[0] == 'I' and len(v) == 3 and isinstance(v[2], tuple): o = f.norm(v)
    else:
        o = []; ch = False
        for x in v:
            y = normtree(f, x, memo) if isinstance(x, tuple) else x
            if y is not x: ch = True
            o.append(y)
        o = tuple(o) if ch else v
    memo[id(v)] = (v, o)
    return o
def implied(k, iset):
    """what a comparison says about the same two numbers the other way round"""
    if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'op' and k[0][2:] == (0, 1) and iset == ((1, 1),):
        _, n, w, a = k[0][1]
        if n == 'lt': return ((('b', ('op', 'lt', w, (a[1], a[0])), 0, 1),),)
    return ()
def facts_of(d):
    f = Facts()
    for k, iset in d.items():
        if not f.refine(('I', sum(plen(p) for p in k), k), iset): return None
        for j in implied(k, iset):
            if not f.refine(('I', 1, j), ((0, 0),)): return None
    return f
def merge(fa, db):
    f = fa.copy()
    for k, iset in db.items():
        if not f.refine(('I', sum(plen(p) for p in k), k), iset): return None
        for j in implied(k, iset):
            if not f.refine(('I', 1, j), ((0, 0),)): return None
    return f
def opaque_err(v):
    """DekuError payloads are text: only Err-ness counts"""
    if v and v[0] == 'A' and v[2] == 'Err' and v[3]:
        e = v[3][0][1]
        if (e[0] in ('Y', 'A') and 'DekuError' in str(e[1])) or e[0] == 'E' or (e[0] == 'Y' and e[2][0] == 'err') or 'DekuError' in str(v[1]):
            return ('A', v[1], 'Err', ())
    return v
def outputs(l, what):
    """the observable part of a case"""
    if l.kind in ('panic', 'stuck'): return (l.kind,)
    o = [l.kind, opaque_err(l.ret)]
    err = l.ret and l.ret[0] == 'A' and l.ret[2] == 'Err'
    if not err or 'eff' in what: pass
    if not err:
        if 'pos' in what and l.pos: o.append(('pos', l.pos[0], l.pos[1]))
        if 'br' in what and l.br: o.append(l.br)
        if l.ems is not None: o.append(('ems', l.ems))
        if l.text is not None: o.append(l.text)
        o.append(l.muts)
    return tuple(o)
def concrete(ev, l, what):
    if l.kind in ('panic', 'stuck'): return (l.kind,)
    r = l.ret
    err = r and r[0] == 'A' and r[2] == 'Err'
    r = opaque_err(r)
    o = [l.kind, ev.tree(r) if r != ('A', r[1], 'Err', ()) else 'Err']
    if not err:
        if 'pos' in what and l.pos: o.append(('pos', ev.base(l.pos[0]) + l.pos[1]))
        if 'br' in what and l.br: o.append(('br', ev.i(l.br)))
        if l.ems is not None:
            try: o.append(('bits', ev.emit(l.ems)))
            except Fail: o.append(('bits', 'refused'))
        if l.text is not None: o.append(('text', ev.tree(l.text)))
        o.append(tuple((i, ev.tree(v)) for i, v in l.muts))
    return tuple(o)
RDS = {}
def rds(v, acc):
    """the nested reads mentioned in a value"""
    if isinstance(v, tuple) and v: acc |= rds_(v)
NONE = frozenset()
def rds_(v):
    k = id(v); r = RDS.get(k)
    if r is None or r[0] is not v:
        o = NONE
        for x in v:
            if isinstance(x, tuple) and x:
                y = rds_(x)
                if y: o = o | y if o else y
        if len(v) == 5 and v[0] == 'rd': o = o | {v}
        r = RDS[k] = (v, o)
    return r[1]
def inputs(v, acc):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'in': acc.add(v[1])
        for x in v:
            if isinstance(x, tuple): inputs(x, acc)
SIZE = {}
def size(v):
    if not isinstance(v, tuple): return 1
    k = id(v); r = SIZE.get(k)
    if r is None or r[0] is not v: r = SIZE[k] = (v, sum(size(x) for x in v) + 1)
    return r[1]

def seqs_of(v, acc):
    """where the bytes in something written come from"""
    if isinstance(v, tuple):
        if len(v) >= 3 and v[0] in ('seq', 'nt') and isinstance(v[2], tuple) and v[2][0] == 'Y': acc.add(v[2][2])
        for x in v:
            if isinstance(x, tuple): seqs_of(x, acc)
def shifts(k):
    sh = sum(plen(q) for q in k)
    for q in k: sh -= plen(q); yield q, sh
def consts_of(v, acc):
    """numbers a value is combined or compared with"""
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == 'op':
            for a in v[3]:
                if a[0] == 'I' and len(a) == 3 and all(q[0] == 'k' for q in a[2]):
                    n = 0
                    for q in a[2]: n = n << plen(q) | q[2]
                    acc.add(n)
        for x in v:
            if isinstance(x, tuple): consts_of(x, acc)
def rooted(o):
    """a place inside a nested read -> (read, path)"""
    path = ()
    while isinstance(o, tuple) and len(o) == 3 and o[0] == '.': path = (o[2],) + path; o = o[1]
    if isinstance(o, tuple) and len(o) == 5 and o[0] == 'rd': return o, path
    return None
def wants_of(facts):
    """what the guards demand of nested reads: {read: [(path, 'num' | 'disc', set)]}"""
    w = {}
    for k, iset in facts.items():
        if len(k) != 1 or k[0][0] != 'b' or k[0][1][0] != 'v' or k[0][2] != 0: continue
        o = k[0][1][1]
        kind = 'num'
        if o[0] == 'disc': kind = 'disc'; o = o[1]
        elif k[0][3] != k[0][1][2]: continue
        r = rooted(o)
        if r and (r[1] or kind == 'disc'): w.setdefault(r[0], []).append((r[1], kind, iset))
    return w
def at(v, path):
    """-> (value, rest of the path that lies inside it)"""
    while path:
        if not isinstance(v, tuple) or v[0] != 'A': return v, path
        n = path[0]
        if v[2] and '.' in n:
            vn, n = n.split('.', 1)
            if vn != v[2]: return None, path
        for fn, y in v[3]:
            if fn == n: v = y; path = path[1:]; break
        else: return None, path
    return v, path
def unpiece(i, n):
    """pieces of number i for it to be n, or None"""
    out = []; sh = i[1]
    for q in i[2]:
        sh -= plen(q); x = (n >> sh) & mask(plen(q))
        if q[0] == 'k':
            if x != q[2]: return None
        elif q[0] == 's': out.append((q, x))
        else: return None
    return out
class Sampler:
    def __init__(s, seed): s.rnd = random.Random(seed); s.consts = ()
    def force(s, ev, facts, extra=(), depth=0, wants=None):
        """choose input bits that satisfy the stream facts and let every nested read succeed"""
        if depth > 6: return
        acc = set()
        for k in facts: rds(k, acc)
        for x in extra: rds(x, acc)
        w = wants_of(facts)
        for r, l in (wants or {}).items(): w[r] = w.get(r, []) + l
        items = [(size(o), 0, o) for o in acc]
        for k, iset in facts.items():
            if len(k) == 1 and k[0][0] == 's': items.append((size(k[0][1]), 1, (k[0], iset)))
            elif len(k) > 1 and all(p[0] in 'sk' for p in k): items.append((max(size(p[1]) for p in k if p[0] == 's'), 2, (k, iset)))
        items.sort(key=lambda x: (x[0], x[1]))
        for _, kind, x in items:
            if kind == 1:
                p, iset = x
                pos = ev.base(p[1]) + p[2]
                ev.e.put(pos, p[3], s.pick(iset))
            elif kind == 2:
                k, iset = x
                v = s.pick(iset)
                tot = sum(plen(p) for p in k)
                for p in k:
                    tot -= plen(p)
                    if p[0] == 's': ev.e.put(ev.base(p[1]) + p[2], p[3], (v >> tot) & mask(p[3]))
            else: s.nested(ev, x, w.get(x, []), depth)
    def nested(s, ev, o, want, depth):
        _, T, b, off, ctx = o
        key = ev.s.codec(ev.s.rd, T, ctx)
        p = ev.base(b) + off
        try: c = ev.tree(ctx)
        except (Skip, Fail): c = None
        sub = Ev(ev.s, ev.e, Frame(p, {1: c}))
        ls = ev.s.good.get(key)
        if ls is None: ls = ev.s.good[key] = sorted((l for l in ev.s.t.roots[key] if l.kind == 'ret' and not l.failed() and l.ret[0] == 'A' and l.ret[2] == 'Ok'), key=lambda l: size(l.ret) + size(tuple(l.facts)))
        ls = list(ls)
        x = s.rnd.random()
        if want: pass
        elif T.endswith('::Length'):
            if s.consts and x < .3: want = [(('#0',), 'num', ((n, n),)) for n in (max(0, s.rnd.choice(s.consts) + s.rnd.choice((-1, 0, 1))),)]
            elif x < .9: ls = ls[:1]          # mostly short payloads
        elif depth and x < .5: ls = ls[:max(3, len(ls) // 3)]
        s.rnd.shuffle(ls)
        for l in ls:
            v = l.ret[3][0][1]
            deep = {}; nums = []; ok = True
            for path, kind, iset in want:
                y, rest = at(v, path)
                if y is None: ok = False; break
                if rest or kind == 'disc' and y[0] == 'Y':
                    r = rooted(y[2]) if y[0] == 'Y' else None
                    if r: deep.setdefault(r[0], []).append((r[1] + rest, kind, iset))
                elif kind == 'disc':
                    try:
                        if y[0] == 'A' and not ihas(iset, ev.s.disc(y[1], y[2])): ok = False; break
                    except Skip: ok = False; break
                elif y[0] == 'I':
                    n = y[2][0][2] if len(y[2]) == 1 and y[2][0][0] == 'k' else None
                    if n is not None:
                        if not ihas(iset, n): ok = False; break
                    else: nums.append((y, iset))
            if not ok or not s.argok(sub, l): continue
            try: s.force(sub, l.facts, (l.ret,), depth + 1, deep)
            except Fail:
                if want: continue
                raise
            if nums:
                for _ in range(3):
                    for y, iset in nums:
                        u = unpiece(y, s.pick(iset))
                        for q, n in u or ():
                            ev.e.put(sub.base(q[1]) + q[2], q[3], n)
                    try: ok = sub.holds(l.facts)
                    except (Skip, Fail): ok = False
                    if ok: break
                if not ok: continue
            for k, v in l.facts.items():
                if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] == 'end' and ival(v) == 1 and ev.e.end is None:
                    e = k[0][1][1]; ev.e.end = sub.base(e[1]) + e[2]
                    ev.e.memo.clear()
            return
    def argok(s, ev, l):
        for k, iset in l.facts.items():
            if all(p[0] == 'k' or (p[0] == 'b' and p[1][0] == 'v' and s.fromarg(p[1][1])) for p in k):
                try:
                    if not ihas(iset, ev.pieces(k)): return False
                except (Skip, Fail): pass
        return True
    def fromarg(s, o):
        while isinstance(o, tuple) and o and o[0] in ('.', '*', 'disc', 'len', 'el'): o = o[1]
        return isinstance(o, tuple) and o and o[0] == 'a'
    def pick(s, iset):
        l, h = iset[s.rnd.randrange(len(iset))]
        x = s.rnd.random()
        return l if x < .2 else h if x < .4 else s.rnd.randint(l, h)

def lazy(v): return isinstance(v, BS) or isinstance(v, tuple) and (v[:1] == ('QB',) or any(lazy(x) for x in v))
def expand(ev, v):
    """long sequences of moderate size written out, so that two ways of arriving at one are comparable"""
    if isinstance(v, BS):
        return bits_of([''.join(bin(b | 256)[3:] for b in expand(ev, x)[1]) if not isinstance(x, str) and expand(ev, x)[0] == 'Q' else x if isinstance(x, str) else BS([x]) for x in v.g])
    if not isinstance(v, tuple): return v
    if v[:1] == ('QB',):
        if not isinstance(v[1], int) or v[2] > 4096: return v
        return ev.mat(v)
    return tuple(expand(ev, x) if isinstance(x, (tuple, BS)) else x for x in v)
def apart(ga, gb):
    """some guard of the one excludes the same guard of the other"""
    if len(gb) < len(ga): ga, gb = gb, ga
    for k, v in ga.items():
        w = gb.get(k)
        if w is not None and w != v and not iand(v, w): return True
    return False
class Comparer:
    def __init__(s, cur, ref, prog=None, tries=120, want=10):
        s.cur = Side(cur); s.ref = Side(ref); s.prog = prog; s.tries = tries; s.want = want
        s.stat = {'roots': 0, 'cases': 0, 'equal': 0, 'sampled': 0, 'undecided': 0, 'pairs': 0}
        s.und = []; s.per = 25; s.total = 240; s.spent = 0; s.hard = set(); s.cons = Cons()
    def argtys(s, key):
        f = s.prog.F.get(key.split('#')[0])
        if f is None: return []
        return [s.prog.name(f['locals'][i + 1]) for i in range(f['argc'])]
    def compare(s, key, what=('pos', 'br'), filt=None):
        """-> list of confirmed differences (key, curleaf, refleaf, description); stops at the first one.
        Pairs are tried in rounds of growing effort, so that one hard pair does not hide an easy one."""
        A = [l for l in s.cur.t.roots[key] if not l.failed()]
        B = [l for l in s.ref.t.roots[key] if not l.failed()]
        long_ = set()
        if key in s.cur.t.long and key in s.ref.t.long:     # very long sequences, compared among themselves
            for t, L in ((s.cur.t, A), (s.ref.t, B)):
                L += t.long[key]; long_ |= {id(l) for l in t.long[key]}
            s.stat['long'] = s.stat.get('long', 0) + len(s.cur.t.long[key])
        s.stat['roots'] += 1
        byf = {}
        for l in B: byf.setdefault(frozenset(l.facts.items()), []).append(l)
        open_ = []
        cons = s.cons; oc = {}
        def out(l):
            r = oc.get(id(l))
            if r is None: r = oc[id(l)] = cons(outputs(l, what))
            return r
        gs = {}
        def guards(l):
            r = gs.get(id(l))
            if r is None:
                r = gs[id(l)] = {id(cons(k)): v for k, v in l.facts.items()}
                for k, v in l.facts.items():
                    for j in implied(k, v): r.setdefault(id(cons(j)), ((0, 0),))
            return r
        t0 = time.time(); lim = min(s.per, s.total - s.spent)
        for a in sorted(A, key=lambda l: len(l.facts)):
            s.stat['cases'] += 1
            if time.time() - t0 > 60: s.note(key, 'effort spent on pairing'); continue
            if a.kind in ('undec', 'cut'):
                if a.kind == 'undec': s.note(key, 'undecided: ' + str(a.ret)[:150])
                continue
            bs = byf.get(frozenset(a.facts.items()))
            if bs is not None and any((id(a) in long_) == (id(b) in long_) and b.kind not in ('undec', 'cut') and out(b) is out(a) for b in bs): s.stat['equal'] += 1; s.stat['pairs'] += 1; continue
            fa = facts_of(a.facts)
            if fa is None: continue
            ga = guards(a)
            for b in (B if bs is None else bs):
                if b.kind in ('undec', 'cut') or (id(a) in long_) != (id(b) in long_): continue
                if apart(ga, guards(b)): continue
                if filt and not filt(a, b): continue
                fm = merge(fa, b.facts)
                if fm is None: continue
                s.stat['pairs'] += 1
                if out(a) is out(b): s.stat['equal'] += 1; continue
                memo = {}
                if cons(normtree(fm, out(a), memo)) is cons(normtree(fm, out(b), memo)): s.stat['equal'] += 1; continue
                s.stat['sampled'] += 1
                open_.append([a, b, fm, 0, ''])
        s.spent += time.time() - t0
        open_.sort(key=lambda p: len(p[2].f))
        t0 = time.time(); lim = min(s.per, s.total - s.spent)
        try:
            for n in (2, 6, 16, 40, s.tries):
                rest = []
                for p in open_:
                    if time.time() - t0 > lim: p[4] = p[4] or 'effort spent'; rest.append(p); continue
                    d = s.sample(key, p, what, n)
                    if d: return [d]
                    if p[3] < s.want: rest.append(p)
                open_ = rest
        finally: s.spent += time.time() - t0
        for p in open_:
            if p[3] < 3: s.note(key, 'unconfirmed: ' + p[4])
        return []
    def note(s, key, why):
        s.stat['undecided'] += 1
        if len(s.und) < 200: s.und.append((key, why))
    def sample(s, key, p, what, n):
        a, b, fm = p[:3]
        for env, args, ea, eb in s.valuations(key, a, b, fm, n, True):
            try: ca = concrete(ea, a, what); cb = concrete(eb, b, what)
            except Fail as x: s.last = 'fail ' + str(x); continue
            except Skip as x: s.last = str(x); continue
            if ca != cb and (lazy(ca) or lazy(cb)):
                try: ca, cb = expand(ea, ca), expand(eb, cb)
                except Skip as x: s.last = str(x); continue
            p[3] += 1
            if ca != cb: return (key, a, b, self_desc(env, args, ca, cb))
            if p[3] >= s.want: break
        p[4] = s.last
        return None
    def valuations(s, key, a, b, fm, tries=None, lazy=False, until=None):
        """assignments of the atoms under which both cases apply"""
        sm = Sampler(zlib.crc32(key.encode()) + (tries or 0))
        s.last = 'no valuation found'
        at = s.argtys(key)
        ins = set()
        for l in (a, b):
            inputs(l.ret, ins); inputs(tuple(l.facts), ins); inputs(l.muts, ins)
        cs = set()
        for l in (a, b): consts_of(l.ret, cs); consts_of(l.ems, cs); consts_of(tuple(l.facts), cs); consts_of(l.muts, cs)
        for v in fm.f.values():
            for lo, hi in v[:6]: cs.add(lo); cs.add(hi)
        cs = [c for c in sorted(cs) if 1 < c < 1 << 32][:40] + list(BIG)
        s.sizes = fm.f
        for i in range(tries or s.tries):
            if until and time.time() > until: return
            env = Env(sm.rnd, (.5, .1, .5, 0, .5, .9)[i % 6]); env.lazy = lazy
            sm.consts = cs if lazy and i % 3 == 1 else ()
            g = Gen(s.ref.types if not s.prog else s.cur.types, at, fm.f, sm.rnd, cs if lazy and i % 3 else (), lazy and i % 3 == 2)
            args = {}
            p0 = 8 * sm.rnd.randint(1, 9) if lazy and i % 4 == 1 and not ins else 0          # somewhere inside a stream
            if '#' in key: p0 += int(key.rsplit('#', 1)[1])
            ea = Ev(s.cur, env, Frame(p0, args, g)); eb = Ev(s.ref, env, Frame(p0, args, g))
            try:
                ends = [(k[0][1][1], ival(v)) for k, v in fm.f.items() if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] == 'end']
                try: sm.force(ea if i % 2 or a is b else eb, fm.f, (a.ret, b.ret, a.pos, b.pos, a.ems, b.ems) if a.kind == b.kind == 'ret' else ())
                except Fail: continue
                for o, v in ends:
                    if v == 1:
                        p = ea.base(o[1]) + o[2]
                        env.end = p if env.end is None else min(env.end, p)
                if ins:
                    env.input = next(iter(ins))
                    if env.end is None: env.end = (max(env.bits, default=-1) + 8) // 8 * 8 + sm.rnd.choice((0, 0, 8, 24))
                for _ in range(4):
                    if ea.holds(a.facts) and (a is b or eb.holds(b.facts)): break
                    if not s.repair(sm, ea, a.facts) and (a is b or not s.repair(sm, eb, b.facts)): s.last = 'guards'; break
                else: s.last = 'guards'
                if s.last == 'guards': s.last = 'guards '; continue
            except Fail as x: s.last = 'fail ' + str(x); continue
            except Skip as x: s.last = str(x); continue
            yield env, args, ea, eb
    def resize(s, sm, ev, facts, k, t):
        """a guard on the size of something written does not hold: choose a size that meets all of them, by the length of an argument"""
        try: L = ev.term(t)
        except (Skip, Fail): return False
        def ok(n):
            return all(ihas(iset, sum(((n if q[0] == 'b' else 0) >> q[2] & mask(q[3]) if q[0] == 'b' else q[2]) << sh for q, sh in shifts(j))) for j, iset in facts.items() if all(q[0] == 'k' or q[0] == 'b' and q[1] == t for q in j) and any(q[0] == 'b' for q in j))
        cand = [n for n in {c + d for j, iset in facts.items() if any(q[0] == 'b' and q[1] == t for q in j) for lo, hi in iset[:6] for c in (lo, hi) for b in (0,) + BIG for c in (c, c + b) for d in (-1, 0, 1)} if 0 <= n < 1 << 32 and ok(n)]
        if not cand: return False
        n = sm.rnd.choice(sorted(cand))
        acc = set(); seqs_of(t[1], acc)
        for o in sorted(acc, key=repr):
            path = []; r = o
            while isinstance(r, tuple) and r and r[0] in ('.', '*'):
                if r[0] == '.': path.append(r[2])
                r = r[1]
            if not (isinstance(r, tuple) and len(r) == 2 and r[0] == 'a') or r[1] not in ev.f.args: continue
            def put(v, p):
                if not p:
                    if v[0] in ('A', 'T'):          # the first bytes somewhere inside it
                        for j, y in enumerate(v[3] if v[0] == 'A' else v[1]):
                            y = y[1] if v[0] == 'A' else y
                            z = put(y, p) if not isinstance(y, int) else y
                            if z != y: return ('A', v[1], v[2], v[3][:j] + ((v[3][j][0], z),) + v[3][j + 1:]) if v[0] == 'A' else ('T', v[1][:j] + (z,) + v[1][j + 1:])
                        return v
                    if v[0] not in ('Q', 'QB') or v[0] == 'Q' and any(not isinstance(y, int) for y in v[1]): return v
                    m = (len(v[1]) if v[0] == 'Q' else v[2]) + n - L
                    if m < 0: return v
                    if m > LONG: return ('QB', o, m)
                    x = v[1] if v[0] == 'Q' else ()
                    return ('Q', (x + (7,) * m)[:m])
                if v[0] == 'T': return ('T', tuple(put(y, p[1:]) if str(j) == p[0] else y for j, y in enumerate(v[1])))
                if v[0] != 'A': return v
                f = p[0]
                if v[2] and '.' in f:
                    vn, f = f.split('.', 1)
                    if vn != v[2]: return v
                return ('A', v[1], v[2], tuple((fn, put(y, p[1:]) if fn == f else y) for fn, y in v[3]))
            v = put(ev.f.args[r[1]], path[::-1])
            if v != ev.f.args[r[1]]: ev.f.args[r[1]] = v; ev.e.memo.clear(); return True
        return False
    def repair(s, sm, ev, facts):
        """a guard that relates a number argument to something else does not hold: give the argument a value around that"""
        for k, iset in facts.items():
            try:
                if ihas(iset, ev.pieces(k)): continue
            except (Skip, Fail): continue
            ts = {q[1] for q in k if q[0] == 'b' and q[1][0] == 'v' and q[1][1][0] == 'buflen'}
            if len(ts) == 1 and s.resize(sm, ev, s.sizes, k, next(iter(ts))): return True
            if len(k) != 1 or k[0][0] != 'b' or k[0][1][0] != 'op' or k[0][1][1] not in ('lt', 'eq', 'sub', 'min', 'max'): continue
            x = k[0][1][3]
            for i in (0, 1):
                o = Gen.org(x[i])
                path = []
                while isinstance(o, tuple) and len(o) == 3 and o[0] == '.' and o[2].isdigit(): path.append(int(o[2])); o = o[1]
                if not (isinstance(o, tuple) and len(o) == 2 and o[0] == 'a') or o[1] not in ev.f.args: continue
                try: n = max(0, ev.i(x[1 - i]) + sm.rnd.choice((-1, 0, 0, 1)))
                except (Skip, Fail): continue
                def put(v, p):
                    if not p: return n & mask(x[i][1]) if isinstance(v, int) else v
                    return ('T', tuple(put(y, p[1:]) if j == p[0] else y for j, y in enumerate(v[1]))) if v[0] == 'T' else v
                v = put(ev.f.args[o[1]], path[::-1])
                if v != ev.f.args[o[1]]: ev.f.args[o[1]] = v; ev.e.memo.clear(); return True
        return False
    def witness(s, key, l):
        """a valuation under which the case applies -> description, or None"""
        f = facts_of(l.facts)
        if f is None: return None
        t0 = time.time(); lim = min(s.per, s.total - s.spent) if key not in s.hard else 1
        for env, args, ea, eb in s.valuations(key, l, l, f, 400, until=t0 + lim):
            s.spent += time.time() - t0
            return {'input_bits': bitstr(env), 'args': {str(k): repr(v)[:300] for k, v in args.items()}}
        s.spent += time.time() - t0
        s.hard.add(key)
        if all(len(k) == 1 and k[0][0] in 'sk' or len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] in ('.', 'a', 'disc', 'len', '*') for k in l.facts):
            return {'guards': repr(l.facts)[:600]}
        return None
def bitstr(env):
    n = max(env.bits) + 1 if env.bits else 0
    return ''.join(str(env.bits.get(i, 0)) for i in range(min(n, 400)))
def self_desc(env, args, ca, cb):
    n = max(env.bits) + 1 if env.bits else 0
    st = ''.join(str(env.bits.get(i, 0)) for i in range(min(n, 400)))
    return {'input_bits': st, 'args': {str(k): repr(v)[:300] for k, v in args.items()}, 'current': repr(ca)[:600], 'expected': repr(cb)[:600]}

if __name__ == '__main__':
    import sys, time
    from summ import *
    prog = Prog(sys.argv[1]); t0 = time.time()
    cur = build(prog); print('built', time.time() - t0)
    ref = Table.load(sys.argv[2]); print('loaded', time.time() - t0)
    c = Comparer(cur, ref, prog)
    t0 = time.time()
    n = 0
    for k in ref.roots:
        if k not in cur.roots: print('MISSING', k); continue
        if len(sys.argv) > 3 and sys.argv[3] not in k: continue
        for d in c.compare(k):
            n += 1
            if n < 25: print('DIFF', d[0][:140]); print('    ', {x: y[:250] if isinstance(y, str) else y for x, y in d[3].items()})
    print(c.stat, time.time() - t0)
    for u in c.und[:30]: print('UND', u)
