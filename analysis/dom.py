"""Abstract number domain: bit provenance (which input bit sits at which position of a machine word)
in reduced product with interval sets.  No solver: every transfer function below is closed-form."""
from functools import lru_cache

def mask(w): return (1 << w) - 1

# ---------------------------------------------------------------- interval sets
FULLC = {}
def full(w):
    r = FULLC.get(w)
    if r is None: r = FULLC[w] = ((0, mask(w)),)
    return r
def inorm(l):
    l = sorted(x for x in l if x[0] <= x[1])
    o = []
    for a, b in l:
        if o and a <= o[-1][1] + 1:
            if b > o[-1][1]: o[-1] = (o[-1][0], b)
        else: o.append((a, b))
    return tuple(o)
def iand(a, b):
    if a == b: return a
    o = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0]); hi = min(a[i][1], b[j][1])
        if lo <= hi: o.append((lo, hi))
        if a[i][1] < b[j][1]: i += 1
        else: j += 1
    return tuple(o)
def inot(a, w):
    o = []; p = 0
    for l, h in a:
        if l > p: o.append((p, l - 1))
        p = h + 1
    if p <= mask(w): o.append((p, mask(w)))
    return tuple(o)
def ihas(a, v): return any(l <= v <= h for l, h in a)
def isub(a, b): return iand(a, b) == a
def ilo(a): return a[0][0]
def ihi(a): return a[-1][1]
def isize(a): return sum(h - l + 1 for l, h in a)
def ival(a): return a[0][0] if len(a) == 1 and a[0][0] == a[0][1] else None
def ienum(a):
    for l, h in a:
        for v in range(l, h + 1): yield v
def ishift_mod(a, c, w):
    o = []
    m = 1 << w
    for l, h in a:
        if h - l + 1 >= m: return full(w)
        l2 = (l + c) % m; h2 = (h + c) % m
        if l2 <= h2: o.append((l2, h2))
        else: o.append((l2, m - 1)); o.append((0, h2))
    return inorm(o)
def cap(a, n=64):
    """hull when the set gets too fragmented (widening)"""
    return a if len(a) <= n else ((ilo(a), ihi(a)),)

# ---------------------------------------------------------------- words
def tw(t):
    return 64 if t[0] == 'br' else t[2]
def mk(w, ps):
    o = []
    for p in ps:
        n = plen(p)
        if n == 0: continue
        if o:
            q = o[-1]
            if q[0] == 'k' and p[0] == 'k':
                o[-1] = ('k', q[1] + n, (q[2] << n) | p[2]); continue
            if q[0] == 's' and p[0] == 's' and q[1] == p[1] and q[2] + q[3] == p[2]:
                o[-1] = ('s', q[1], q[2], q[3] + n); continue
            if q[0] == 'b' and p[0] == 'b' and q[1] == p[1] and q[2] == p[2] + n:
                o[-1] = ('b', q[1], p[2], q[3] + n); continue
        o.append(p)
    return ('I', w, tuple(o))
def plen(p): return p[1] if p[0] == 'k' else p[3]
def K(w, v): return ('I', w, (('k', w, v & mask(w)),))
def V(origin, w): return ('I', w, (('b', ('v', origin, w), 0, w),))
def S(base, off, n): return ('I', n, (('s', base, off, n),))
def T(term):
    w = tw(term)
    return ('I', w, (('b', term, 0, w),))
def kval(i):
    p = i[2]
    return p[0][2] if len(p) == 1 and p[0][0] == 'k' else None
def psl(p, lo, n):
    """n bits of piece p from bit lo (lsb = 0)"""
    if p[0] == 'k': return ('k', n, (p[2] >> lo) & mask(n))
    if p[0] == 's': return ('s', p[1], p[2] + p[3] - lo - n, n)
    return ('b', p[1], p[2] + lo, n)
def sl(i, lo, n):
    o = []; pos = i[1]
    for p in i[2]:
        l = plen(p); pos -= l
        a = max(lo, pos); b = min(lo + n, pos + l)
        if a < b: o.append(psl(p, a - pos, b - a))
    return mk(n, o)
def cat(*xs):
    ps = []; w = 0
    for x in xs: ps += x[2]; w += x[1]
    return mk(w, ps)
def zext(i, w):
    if w == i[1]: return i
    if w < i[1]: return sl(i, 0, w)
    return mk(w, (('k', w - i[1], 0),) + i[2])
def key(i):
    ps = i[2]
    if ps and ps[0][0] == 'k' and ps[0][2] == 0: ps = ps[1:]
    elif ps and ps[0][0] == 'k':
        n = ps[0][2].bit_length(); ps = (('k', n, ps[0][2]),) + ps[1:]
    return ps
TRUE = K(1, 1); FALSE = K(1, 0)

DOM = {}      # term -> base interval set (discriminants, lengths)

class Facts:
    __slots__ = ('f', 'known', 'nz', 'eqs')
    def __init__(s): s.f = {}; s.known = {}; s.nz = {}; s.eqs = ()
    def copy(s):
        n = Facts(); n.f = dict(s.f); n.known = dict(s.known); n.nz = dict(s.nz); n.eqs = s.eqs; return n
    # ---- substitution of known bits
    def norm(s, i):
        ps = i[2]
        if len(ps) == 1 and ps[0][0] == 'k': return i
        o = []; ch = False
        for p in ps:
            if p[0] == 'k': o.append(p); continue
            if p[0] == 's':
                kn = s.known.get(('s', p[1]))
                if kn:
                    r = s._over_s(p, kn)
                    if r is not None: o += r; ch = True; continue
                o.append(p); continue
            t = p[1]
            kn = s.known.get(t)
            if kn:
                r = s._over_b(p, kn)
                if r is not None: o += r; ch = True; continue
            if t[0] == 'op':
                args = tuple(s.norm(a) for a in t[3])
                if args != t[3]:
                    r = op(s, t[1], t[2], *args)
                    o += sl(r, p[2], p[3])[2]; ch = True; continue
            o.append(p)
        return s.norm(mk(i[1], o)) if ch else i
    def _over_s(s, p, kn):
        _, base, off, n = p
        for (ko, kn_, kv) in kn:
            a = max(off, ko); b = min(off + n, ko + kn_)
            if a < b:
                o = []
                if a > off: o.append(('s', base, off, a - off))
                o.append(('k', b - a, (kv >> (ko + kn_ - b)) & mask(b - a)))
                if b < off + n: o.append(('s', base, b, off + n - b))
                return o
        return None
    def _over_b(s, p, kn):
        _, t, lo, n = p
        for (kl, kn_, kv) in kn:
            a = max(lo, kl); b = min(lo + n, kl + kn_)
            if a < b:
                o = []
                if b < lo + n: o.append(('b', t, b, lo + n - b))
                o.append(('k', b - a, (kv >> (a - kl)) & mask(b - a)))
                if a > lo: o.append(('b', t, lo, a - lo))
                return o
        return None
    # ---- ranges
    def rterm(s, t):
        if t[0] == 'v':
            d = DOM.get(t)
            if d is None: d = full(t[2])
        elif t[0] == 'br': d = ((max(t[2], 0), 1 << 62),)
        else: d = oprng(s, t)
        w = tw(t)
        f = s.f.get((('b', t, 0, w),))
        if f is not None: d = iand(d, f)
        z = s.nz.get(t)
        if z and d:
            for k in z:
                m = 1 << k
                o = []
                for l, h in d:
                    if l % m == 0: l += 1
                    if h % m == 0: h -= 1
                    if l <= h: o.append((l, h))
                d = tuple(o)
                if not d: break
        return d
    def rpiece(s, p):
        if p[0] == 'k': return ((p[2], p[2]),)
        n = plen(p)
        d = full(n)
        if p[0] == 'b':
            t, lo = p[1], p[2]
            tr = s.rterm(t)
            if not tr: return ()
            if lo == 0 and n == tw(t): return tr
            if ihi(tr) <= mask(lo + n):
                d = inorm([(l >> lo, h >> lo) for l, h in tr])
            elif len(tr) < 20 and lo == 0 and all(l >> n == h >> n for l, h in tr):
                d = inorm([(l & mask(n), h & mask(n)) for l, h in tr])
        f = s.f.get((p,))
        if f is not None: d = iand(d, f)
        return d
    def rng(s, i):
        i = s.norm(i)
        v = kval(i)
        if v is not None: return ((v, v),)
        ps = i[2]
        vs = [p for p in ps if p[0] != 'k']
        if len(ps) == 1: return s.rpiece(ps[0])
        rs = []; tot = 1; hull = False
        for p in ps:
            r = s.rpiece(p)
            if not r: return ()
            rs.append((plen(p), r)); tot *= min(isize(r), 1 << 40)
        if len(vs) == 1 and vs[0] is ps[-1]:
            n, r = rs[-1]; b = 0
            for m, x in rs[:-1]: b = (b << m) | x[0][0]
            d = tuple((l + (b << n), h + (b << n)) for l, h in r)
        elif tot <= 128:
            vals = [0]
            for n, r in rs:
                vals = [(v << n) | x for v in vals for x in ienum(r)]
            d = inorm([(v, v) for v in vals])
        else:
            lo = hi = 0
            for n, r in rs: lo = (lo << n) | ilo(r); hi = (hi << n) | ihi(r)
            d = ((lo, hi),)
        f = s.f.get(key(i))
        if f is not None: d = iand(d, f)
        return d
    def const(s, i):
        v = kval(i)
        if v is not None: return v
        r = s.rng(i)
        return ival(r) if r else None
    # ---- refinement; False = contradiction
    def refine(s, i, S_):
        i = s.norm(i)
        v = kval(i)
        if v is not None: return ihas(S_, v)
        cur = s.rng(i)
        new = iand(cur, S_)
        if not new: return False
        if new == cur: return True
        ps = i[2]
        vs = [(k, p) for k, p in enumerate(ps) if p[0] != 'k']
        if len(vs) == 1:
            k, p = vs[0]
            lo = sum(plen(q) for q in ps[k + 1:])
            c = 0
            for q in ps: c = (c << plen(q)) | (q[2] if q[0] == 'k' else 0)
            o = []
            for l, h in new:
                a = -((c - l) >> lo) if l > c else 0      # ceil((l-c)/2^lo)
                b = (h - c) >> lo
                if b >= 0: o.append((max(a, 0), min(b, mask(plen(p)))))
            return s.setp(p, inorm(o))
        sv = ival(new)
        if sv is not None:
            pos = i[1]
            for p in ps:
                pos -= plen(p)
                if p[0] != 'k':
                    x = (sv >> pos) & mask(plen(p))
                    if not s.setp(p, ((x, x),)): return False
                elif ((sv >> pos) & mask(plen(p))) != p[2]: return False
            return True
        s.f[key(i)] = cap(new)
        # leading variable piece
        pos = i[1]
        for p in ps:
            pos -= plen(p)
            if p[0] == 'k':
                if p[2] == 0: continue
                break
            return s.setp(p, ((ilo(new) >> pos, ihi(new) >> pos),))
        return True
    def setp(s, p, S_):
        cur = s.rpiece(p)
        new = iand(cur, S_)
        if not new: return False
        if new == cur: return True
        n = plen(p)
        s.f[(p,)] = cap(new)
        v = ival(new)
        if v is not None:
            if p[0] == 's':
                k = ('s', p[1]); s.known[k] = s.known.get(k, ()) + ((p[2], n, v),)
            else:
                s.known[p[1]] = s.known.get(p[1], ()) + ((p[2], n, v),)
            for x, y in s.eqs:
                x, y = s.norm(x), s.norm(y)
                for u, w in ((x, y), (y, x)):
                    k = kval(u)
                    if k is not None and kval(w) is None and not s.refine(w, ((k, k),)): return False
                    if k is not None and kval(w) is not None and kval(w) != k: return False
        if p[0] == 'b':
            t, lo = p[1], p[2]
            w = tw(t)
            if not (lo == 0 and n == w):
                tr = s.rterm(t)
                if ihi(tr) <= mask(lo + n):
                    if not s.setp(('b', t, 0, w), inorm([(l << lo, (h << lo) | mask(lo)) for l, h in new])): return False
                if lo == 0 and not ihas(new, 0):
                    z = s.nz.get(t, ())
                    if n not in z: s.nz[t] = z + (n,)
                    if not s.rterm(t): return False
            elif t[0] == 'op': return s.inv(t, new)
        return True
    def inv(s, t, new):
        _, name, w, a = t
        if name == 'not':
            m = mask(w)
            return s.refine(a[0], inorm([(m - h, m - l) for l, h in new]))
        if name == 'add' and len(a) == 2:
            c = kval(a[1])
            if c is not None: return s.refine(a[0], ishift_mod(new, -c, w))
        if name == 'div':
            c = kval(a[1])
            if c: return s.refine(a[0], inorm([(l * c, min(h * c + c - 1, mask(w))) for l, h in new]))
        if name == 'mul':
            c = kval(a[1])
            if c and ihi(s.rng(a[0])) * c <= mask(w):
                return s.refine(a[0], inorm([(-(-l // c), h // c) for l, h in new]))
        if name == 'add' and len(a) == 2:
            r0, r1 = s.rng(a[0]), s.rng(a[1])
            if ihi(r0) + ihi(r1) <= mask(w):
                return (s.refine(a[0], ((max(0, ilo(new) - ihi(r1)), max(0, ihi(new) - ilo(r1))),)) and
                        s.refine(a[1], ((max(0, ilo(new) - ihi(r0)), max(0, ihi(new) - ilo(r0))),)))
        if w != 1: return True
        v = ival(new)
        if v is None: return True
        if name == 'eq':
            x, y = a
            c = kval(y)
            if v == 1:
                if c is not None: return s.refine(x, ((c, c),))
                if not (s.refine(x, s.rng(y)) and s.refine(y, s.rng(x))): return False
                s.eqs += ((x, y),)
                return True
            if c is not None: return s.refine(x, inot(((c, c),), x[1]))
            return True
        if name == 'lt':
            x, y = a
            W = x[1]
            rx, ry = s.rng(x), s.rng(y)
            if v == 1:
                if ihi(ry) == 0: return False
                return s.refine(x, ((0, ihi(ry) - 1),)) and s.refine(y, ((ilo(rx) + 1, mask(W)),) if ilo(rx) < mask(W) else ())
            return s.refine(x, ((ilo(ry), mask(W)),)) and s.refine(y, ((0, ihi(rx)),))
        if name == 'and' and v == 1: return s.refine(a[0], ((1, 1),)) and s.refine(a[1], ((1, 1),))
        if name == 'or' and v == 0: return s.refine(a[0], ((0, 0),)) and s.refine(a[1], ((0, 0),))
        return True
    def assume(s, b, v): return s.refine(b, ((v, v),))

def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v
COMM = {'add', 'mul', 'and', 'or', 'xor', 'eq'}
def oprng(s, t):
    _, name, w, a = t
    F = full(w)
    r = [s.rng(x) for x in a]
    if any(not x for x in r): return ()
    if name == 'add':
        c = kval(a[1]) if len(a) == 2 else None
        if c is not None: return ishift_mod(r[0], c, w)
        lo = sum(ilo(x) for x in r); hi = sum(ihi(x) for x in r)
        return ((lo, hi),) if hi <= mask(w) else F
    if name == 'sub':
        lo = ilo(r[0]) - ihi(r[1]); hi = ihi(r[0]) - ilo(r[1])
        if lo >= 0: return ((lo, hi),)
        if s.const(op(s, 'lt', 1, a[0], a[1])) == 0: return ((0, max(hi, 0)),)
        return F
    if name == 'mul':
        hi = ihi(r[0]) * ihi(r[1])
        return ((ilo(r[0]) * ilo(r[1]), hi),) if hi <= mask(w) else F
    if name == 'div':
        if ilo(r[1]) == 0: return F
        return ((ilo(r[0]) // ihi(r[1]), ihi(r[0]) // ilo(r[1])),)
    if name == 'rem':
        if ihi(r[1]) == 0: return F
        return ((0, min(ihi(r[0]), ihi(r[1]) - 1)),)
    if name == 'and': return ((0, min(ihi(x) for x in r)),)
    if name in ('or', 'xor'):
        return ((max(ilo(x) for x in r) if name == 'or' else 0, mask(max(ihi(x).bit_length() for x in r))),)
    if name == 'not':
        m = mask(w); return inorm([(m - h, m - l) for l, h in r[0]])
    if name == 'min': return ((min(ilo(x) for x in r), min(ihi(x) for x in r)),)
    if name == 'max': return ((max(ilo(x) for x in r), max(ihi(x) for x in r)),)
    if name == 'eq':
        if not iand(r[0], r[1]): return ((0, 0),)
        return F
    if name == 'lt':
        if ihi(r[0]) < ilo(r[1]): return ((1, 1),)
        if ilo(r[0]) >= ihi(r[1]): return ((0, 0),)
        return F
    return F

class Fork(Exception):
    """the analysis has to split on the value of a word (trace partitioning)"""
    def __init__(s, i, sets): s.i = i; s.sets = sets
def need(s, i, limit=72):
    """constant value of i, or split the state over its possible values"""
    v = s.const(i)
    if v is not None: return v
    r = s.rng(i)
    if r and isize(r) <= limit:
        raise Fork(i, [((x, x),) for x in ienum(r)])
    return None

def mkop(name, w, *a):
    if name in COMM and len(a) == 2:
        k0, k1 = kval(a[0]) is not None, kval(a[1]) is not None
        if k0 and not k1: a = (a[1], a[0])
        elif k0 == k1 and repr(a[0]) > repr(a[1]): a = (a[1], a[0])
    return T(('op', name, w, tuple(a)))

def op(s, name, w, *a):
    """w: result width"""
    a = tuple(s.norm(x) for x in a)
    c = [kval(x) for x in a]
    allc = all(x is not None for x in c)
    m = mask(w)
    if name == 'add':
        if allc: return K(w, c[0] + c[1])
        x, y = a
        if c[0] is not None: x, y = y, x
        cy = kval(y)
        if cy == 0: return x
        if cy is not None:
            p = x[2]
            if len(p) == 1 and p[0][0] == 'b' and p[0][2] == 0 and p[0][3] == w:
                t = p[0][1]
                if t[0] == 'br': return T(('br', t[1], t[2] + sgn(cy, w)))
                if t[0] == 'op' and t[1] == 'add' and len(t[3]) == 2 and kval(t[3][1]) is not None:
                    return op(s, 'add', w, t[3][0], K(w, kval(t[3][1]) + cy))
                if t[0] == 'op' and t[1] == 'sub' and kval(t[3][0]) is not None:
                    return op(s, 'sub', w, K(w, kval(t[3][0]) + cy), t[3][1])
        d = disjoint(x, y)
        if d is not None: return d
        # (x - y) + y
        for u, v in ((x, y), (y, x)):
            p = u[2]
            if len(p) == 1 and p[0][0] == 'b' and p[0][2] == 0 and p[0][3] == w and p[0][1][0] == 'op' and p[0][1][1] == 'sub' and p[0][1][3][1] == v:
                return p[0][1][3][0]
        return mkop('add', w, x, y)
    if name == 'sub':
        if allc: return K(w, c[0] - c[1])
        if c[1] is not None: return op(s, 'add', w, a[0], K(w, -c[1]))
        if a[0] == a[1]: return K(w, 0)
        x = a[0][2]
        if len(x) == 1 and x[0][0] == 'b' and x[0][1][0] == 'op' and x[0][1][1] == 'add' and x[0][2] == 0 and x[0][3] == w:
            u, v = x[0][1][3]
            if u == a[1]: return v
            if v == a[1]: return u
        # x - (x & mask)
        d = subbits(a[0], a[1])
        if d is not None: return d
        xb, yb = _brt(a[0]), _brt(a[1])
        if xb and yb and xb[1] == yb[1]: return K(w, xb[2] - yb[2])
        return mkop('sub', w, *a)
    if name == 'mul':
        if allc: return K(w, c[0] * c[1])
        x, y = a
        if c[0] is not None: x, y = y, x
        cy = kval(y)
        if cy == 0: return K(w, 0)
        if cy == 1: return x
        if cy is not None and cy & (cy - 1) == 0: return shl(x, cy.bit_length() - 1)
        return mkop('mul', w, x, y)
    if name == 'div':
        if c[1]:
            if c[0] is not None: return K(w, c[0] // c[1])
            if c[1] & (c[1] - 1) == 0: return shr(a[0], c[1].bit_length() - 1)
            if ihi(s.rng(a[0])) < c[1]: return K(w, 0)
        return mkop('div', w, *a)
    if name == 'rem':
        if c[1]:
            if c[0] is not None: return K(w, c[0] % c[1])
            if c[1] & (c[1] - 1) == 0:
                k = c[1].bit_length() - 1
                return zext(sl(a[0], 0, k), w) if k else K(w, 0)
            if ihi(s.rng(a[0])) < c[1]: return a[0]
        return mkop('rem', w, *a)
    if name in ('shl', 'shr', 'sar'):
        n = need(s, a[1])
        if n is None: return mkop(name, w, *a)
        n %= w
        if name == 'shl': return shl(a[0], n)
        if name == 'shr': return shr(a[0], n)
        if allc: return K(w, sgn(c[0], w) >> n)
        if ihi(s.rng(a[0])) < 1 << (w - 1): return shr(a[0], n)
        return mkop('sar', w, a[0], K(a[1][1], n))
    if name in ('and', 'or', 'xor'):
        if allc: return K(w, {'and': c[0] & c[1], 'or': c[0] | c[1], 'xor': c[0] ^ c[1]}[name] if w else 0)
        x, y = a
        if x == y: return K(w, 0) if name == 'xor' else x
        if kval(x) is not None: x, y = y, x
        r = bitwise(s, name, x, y)
        if r is not None: return r
        if name == 'or':
            d = disjoint(x, y)
            if d is not None: return d
        return mkop(name, w, x, y)
    if name == 'not':
        if allc: return K(w, ~c[0])
        p = a[0][2]
        if len(p) == 1 and p[0][0] == 'b' and p[0][1][0] == 'op' and p[0][1][1] == 'not' and p[0][2] == 0 and p[0][3] == w:
            return p[0][1][3][0]
        if len(p) > 1:
            return cat(*[op(s, 'not', plen(q), ('I', plen(q), (q,))) for q in p])
        return mkop('not', w, a[0])
    if name == 'eq':
        if allc: return K(1, c[0] == c[1])
        x, y = a
        if x == y: return TRUE
        rx, ry = s.rng(x), s.rng(y)
        if not iand(rx, ry): return FALSE
        if ival(rx) is not None and ival(rx) == ival(ry): return TRUE
        if x[1] == 1 and kval(y) is not None: return x if kval(y) else op(s, 'not', 1, x)
        if x[1] == 1 and kval(x) is not None: return y if kval(x) else op(s, 'not', 1, y)
        r = mkop('eq', 1, x, y)
        # constants: drop the bits that agree anyway
        if kval(r[2][0][1][3][1]) is not None:
            u, v = r[2][0][1][3]
            cv = kval(v); ps = u[2]
            if len(ps) > 1:
                pos = u[1]; o = []
                vb = 0; n = 0
                for q in ps:
                    pos -= plen(q)
                    b = (cv >> pos) & mask(plen(q))
                    if q[0] == 'k':
                        if q[2] != b: return FALSE
                    else: o.append(q); vb = (vb << plen(q)) | b; n += plen(q)
                u2 = mk(n, o)
                if n != u[1]: return op(s, 'eq', 1, u2, K(n, vb))
        # recorded order facts
        for z in (mkop('lt', 1, x, y), mkop('lt', 1, y, x)):
            f = s.f.get(key(z))
            if f is not None and ival(f) == 1: return FALSE
        f = s.f.get(key(r))
        if f is not None and ival(f) is not None: return K(1, ival(f))
        return r
    if name == 'lt':
        if allc: return K(1, c[0] < c[1])
        x, y = a
        if x == y: return FALSE
        r0 = T(('op', 'lt', 1, (x, y)))
        rg = oprng(s, ('op', 'lt', 1, (x, y)))
        if ival(rg) is not None: return K(1, ival(rg))
        f = s.f.get(key(r0))
        if f is not None and ival(f) is not None: return K(1, ival(f))
        f = s.f.get(key(T(('op', 'lt', 1, (y, x)))))
        if f is not None and ival(f) == 1: return FALSE
        f = s.f.get(key(mkop('eq', 1, x, y)))
        if f is not None and ival(f) == 1: return FALSE
        # 0 < x  and  x < 1  are (dis)equalities
        if subbits(x, y) is not None: return FALSE      # y's bits are a subset of x's: y <= x
        if c[0] == 0: return op(s, 'not', 1, op(s, 'eq', 1, y, K(y[1], 0)))
        if c[1] == 1: return op(s, 'eq', 1, x, K(x[1], 0))
        if c[0] is not None: return op(s, 'not', 1, op(s, 'lt', 1, y, K(y[1], c[0] + 1))) if c[0] < mask(y[1]) else FALSE
        # common high/low parts with zero tails
        return r0
    if name == 'slt':
        W = a[0][1]
        if allc: return K(1, sgn(c[0], W) < sgn(c[1], W))
        h = 1 << (W - 1)
        f = [op(s, 'xor', W, x, K(W, h)) for x in a]
        if ihi(s.rng(a[0])) < h and ihi(s.rng(a[1])) < h: return op(s, 'lt', 1, *a)
        fx = [op(s, 'add', W, x, K(W, h)) for x in a]
        return op(s, 'lt', 1, *fx)
    if name == 'min' or name == 'max':
        l = op(s, 'lt', 1, a[0], a[1])
        v = s.const(l)
        if v is None: raise Fork(l, [((0, 0),), ((1, 1),)])
        return a[0] if (v == 1) == (name == 'min') else a[1]
    return mkop(name, w, *a)

def _brt(i):
    p = i[2]
    return p[0][1] if len(p) == 1 and p[0][0] == 'b' and p[0][1][0] == 'br' and p[0][3] == 64 else None
def shl(x, n):
    w = x[1]
    if n == 0: return x
    if n >= w: return K(w, 0)
    return cat(sl(x, 0, w - n), K(n, 0))
def shr(x, n):
    w = x[1]
    if n == 0: return x
    if n >= w: return K(w, 0)
    return cat(K(n, 0), sl(x, n, w - n))
def cuts(x, y):
    """common refinement of two words into aligned parts"""
    def ends(i):
        pos = i[1]; o = set()
        for p in i[2]: o.add(pos); pos -= plen(p)
        return o
    e = sorted(ends(x) | ends(y) | {0}, reverse=True)
    return [(e[k + 1], e[k] - e[k + 1]) for k in range(len(e) - 1)]
def disjoint(x, y):
    """x + y = x | y when no bit position is used by both"""
    o = []
    for lo, n in cuts(x, y):
        a, b = sl(x, lo, n), sl(y, lo, n)
        ca, cb = kval(a), kval(b)
        if ca == 0: o.append(b)
        elif cb == 0: o.append(a)
        elif ca is not None and cb is not None and ca & cb == 0: o.append(K(n, ca | cb))
        else: return None
    return cat(*o)
def subbits(x, y):
    """x - y when every bit of y is zero or the same bit of x"""
    o = []
    for lo, n in cuts(x, y):
        a, b = sl(x, lo, n), sl(y, lo, n)
        if a == b: o.append(K(n, 0))
        elif kval(b) == 0: o.append(a)
        elif kval(a) is not None and kval(b) is not None and kval(b) & ~kval(a) == 0: o.append(K(n, kval(a) - kval(b)))
        else: return None
    return cat(*o)
def bitwise(s, name, x, y):
    """y constant: cut x along runs of equal bits; otherwise piecewise when trivial"""
    o = []
    for lo, n in cuts(x, y):
        a, b = sl(x, lo, n), sl(y, lo, n)
        ca, cb = kval(a), kval(b)
        if ca is not None and cb is not None:
            o.append(K(n, {'and': ca & cb, 'or': ca | cb, 'xor': ca ^ cb}[name])); continue
        if a == b: o.append(a if name != 'xor' else K(n, 0)); continue
        if cb is None:
            if ca is None: return None
            a, b, cb = b, a, ca
        # cb const, a variable: runs
        k = n
        while k > 0:
            bit = (cb >> (k - 1)) & 1
            j = k - 1
            while j > 0 and (cb >> (j - 1)) & 1 == bit: j -= 1
            part = sl(a, j, k - j)
            if name == 'and': o.append(part if bit else K(k - j, 0))
            elif name == 'or': o.append(K(k - j, mask(k - j)) if bit else part)
            else: o.append(op(s, 'not', k - j, part) if bit else part)
            k = j
    return cat(*o)
