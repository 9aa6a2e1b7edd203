"""Valuations: instantiate the atoms of two abstract case tables (input bits, argument fields) with one assignment and read off
what each table says for it.  Used only to confirm that two cases that are not structurally equal really differ (alarm filter)."""
import random
from dom import *
from engine import E0, LONGSEQ
from text import apply as textfn

class Skip(Exception): pass          # the valuation leaves the modelled part
class Fail(Exception): pass          # a nested read fails under this valuation

SGN = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}

# Long byte sequences stay unexpanded: ('QB', where, n) is n bytes of the stream from bit `where` on (or of an argument, where it is its
# origin).  Two of them agree iff both parts do, as their content is free.
LONG = 64
class BS:
    """bits that contain unexpanded byte sequences"""
    __slots__ = ('g',)
    def __init__(s, g):
        o = []
        for x in g:
            if x == '': continue
            if isinstance(x, str) and o and isinstance(o[-1], str): o[-1] += x
            else: o.append(x)
        s.g = tuple(o)
    def __len__(s): return sum(len(x) if isinstance(x, str) else 8 * x[2] for x in s.g)
    def head(s, n):
        o = []
        for x in s.g:
            m = len(x) if isinstance(x, str) else 8 * x[2]
            if m <= n: o.append(x)
            elif isinstance(x, str): o.append(x[:n])
            elif n >= 8: o.append((x[0], x[1], n // 8))
            n = max(0, n - m)
        return BS(o)
    def __eq__(s, o): return isinstance(o, BS) and s.g == o.g
    def __hash__(s): return hash(s.g)
    def __repr__(s): return repr(s.g)
def bits_of(g):
    f = []
    for x in g: f.extend(x.g if isinstance(x, BS) else (x,))
    return ''.join(f) if all(isinstance(x, str) for x in f) else BS(f)
class Side:
    """one table plus an index of its codecs"""
    def __init__(s, table):
        s.t = table; s.types = table.types
        s.rd = {}; s.wr = {}; s.good = {}
        for k in table.roots:
            if 'closure' in k: continue
            if k.endswith('>::from_reader_with_ctx::<std::io::Cursor<std::vec::Vec<u8>>>') and " as deku::DekuReader<'_" in k:
                T, rest = k[1:].split(" as deku::DekuReader<'_", 1)
                cx = rest.split('>>::from_reader_with_ctx')[0].lstrip(', ')
                s.rd.setdefault(T, []).append((cx, k))
            if k.endswith('>::to_writer::<std::io::Cursor<std::vec::Vec<u8>>>') and ' as deku::DekuWriter' in k:
                T, rest = k[1:].split(' as deku::DekuWriter', 1)
                cx = rest.split('>::to_writer')[0]
                cx = cx[1:-1] if cx.startswith('<') else ''
                s.wr.setdefault(T, []).append((cx, k))
    def codec(s, d, T, ctx):
        c = d.get(T)
        if not c: raise Skip('no codec of ' + T)
        unit = ctx == ('T', ())
        for cx, k in c:
            if unit == (cx == ''): return k
        return c[0][1]
    def disc(s, T, vn):
        t = s.types.get(T)
        if t:
            for v in t['v']:
                if v[0] == vn: return v[1]
        raise Skip('variant %s of %s' % (vn, T))

class Env:
    def __init__(s, rnd, dens=.5):
        s.rnd = rnd; s.dens = dens; s.bits = {}; s.end = None; s.memo = {}; s.depth = 0; s.input = None; s.lazy = False
    def bit(s, p):
        if s.end is not None and p >= s.end: raise Fail('end of input')
        b = s.bits.get(p)
        if b is None: b = s.bits[p] = int(s.rnd.random() < s.dens)
        return b
    def word(s, p, n):
        v = 0
        for i in range(n): v = v << 1 | s.bit(p + i)
        return v
    def bytes(s):
        if s.end is not None and s.lazy and s.end > 1 << 14: return ('QB', 0, s.end // 8)
        if s.end is None or s.end > 1 << 17: raise Skip('length of input')
        return ('Q', tuple(s.word(i, 8) for i in range(0, s.end - 7, 8)))
    def put(s, p, n, v):
        ch = False
        for i in range(n):
            b = (v >> (n - 1 - i)) & 1
            if s.bits.get(p + i, b) != b: ch = True          # what has not been read yet cannot have been remembered
            s.bits[p + i] = b
        if ch: s.memo.clear()
class Frame:
    __slots__ = ('p0', 'args', 'gen')
    def __init__(s, p0, args, gen=None): s.p0 = p0; s.args = args; s.gen = gen

class Ev:
    def __init__(s, side, env, frame): s.s = side; s.e = env; s.f = frame
    # -------- positions
    def base(s, b):
        if b == E0: return s.f.p0
        if b[0] == 'in': return s.f.p0
        if b[0] == 'aft': return s.read(b[1])[1]
        raise Skip('base %s' % (b,))
    def read(s, o):
        """-> (tree, end position)"""
        k = (id(s.s), id(s.f), o)
        r = s.e.memo.get(k)
        if r is None: r = s.e.memo[k] = (s._read(o), s.f)
        return r[0]
    def _read(s, o):
        if o[0] == 'rd':
            _, T, b, off, ctx = o
            return s.decode(T, s.base(b) + off, s.tree(ctx), ctx)
        if o[0] == 'rv':
            _, b, off, n, (_, el, ctx) = o
            n = s.i(n); p = s.base(b) + off
            w = {'u8': 8}.get(el)
            if w and s.e.lazy and LONG < n:
                if n >= 1 << 40: raise Fail('end of input')
                if s.e.end is not None and p + 8 * n > s.e.end: raise Fail('end of input')
                return ('QB', p, n), p + 8 * n
            if n > 4096: raise Skip('long vector')
            out = []
            c = s.tree(ctx)
            for _ in range(n):
                if w: out.append(s.e.word(p, w)); p += w
                else:
                    v, p = s.decode(el, p, c, ctx); out.append(v)
            return ('Q', tuple(out)), p
        if o[0] == 'skip':
            n = s.i(o[3])
            if n > 1 << 40: raise Skip('long skip')
            return None, s.base(o[1]) + o[2] + n
        if o[0] == 'rdc':
            _, T, w, ctx = o
            e = Env(s.e.rnd); e.put(0, w[1], s.i(w)); e.end = w[1]; e.depth = s.e.depth
            return Ev(s.s, e, Frame(0, {})).decode(T, 0, s.tree(ctx), ctx)
        raise Skip('read ' + str(o[0]))
    def decode(s, T, p, ctx, cx):
        key = s.s.codec(s.s.rd, T, cx)
        mk_ = (id(s.s), key, p, ctx)
        r = s.e.memo.get(mk_)
        if r is not None:
            if isinstance(r, Exception): raise r
            return r
        try: r = s.decode_(key, p, ctx)
        except (Fail, Skip) as x: s.e.memo[mk_] = x; raise
        s.e.memo[mk_] = r
        return r
    def decode_(s, key, p, ctx):
        ev = Ev(s.s, s.e, Frame(p, {1: ctx}))
        l = ev.pick(s.s.t.roots[key])
        if l.kind != 'ret': raise Skip('nested ' + l.kind)
        v = ev.tree(l.ret)
        if v[0] != 'A' or v[2] != 'Ok': raise Fail('nested rejection')
        return v[3][0][1], ev.base(l.pos[0]) + l.pos[1]
    def pick(s, leaves):
        s.e.depth += 1
        if s.e.depth > 40: raise Skip('depth')
        try:
            for l in leaves:
                if l.kind in ('ret', 'panic', 'stuck') and not l.failed() and s.holds(l.facts): return l
            for l in leaves:
                if l.kind not in ('ret', 'panic', 'stuck') and s.holds(l.facts): raise Skip('undecided case')
        finally: s.e.depth -= 1
        raise Fail('no case')
    def holds(s, facts):
        skip = None
        for k, iset in facts.items():
            try:
                if not ihas(iset, s.pieces(k)): return False
            except Skip as x: skip = x          # may not apply at all: let the other guards speak first
        if skip is not None: raise skip
        return True
    # -------- numbers
    def pieces(s, ps):
        v = 0
        for p in ps:
            n = plen(p)
            if p[0] == 'k': x = p[2]
            elif p[0] == 's': x = s.e.word(s.base(p[1]) + p[2], n)
            else: x = (s.term(p[1]) >> p[2]) & mask(n)
            v = v << n | x
        return v
    def i(s, w): return s.pieces(w[2])
    def term(s, t):
        if t[0] == 'br': return (s.base(t[1]) + t[2] - (s.f.p0 if t[1] == E0 or True else 0)) & mask(64)
        if t[0] == 'v': return s.var(t[1], t[2])
        _, name, w, a = t
        if name in ('and', 'or') and w == 1: pass
        x = [s.i(q) for q in a]
        m = mask(w)
        if name == 'add': return sum(x) & m
        if name == 'sub': return (x[0] - x[1]) & m
        if name == 'mul': return (x[0] * x[1]) & m
        if name == 'div': return x[0] // x[1] if x[1] else 0
        if name == 'rem': return x[0] % x[1] if x[1] else 0
        if name == 'and': return x[0] & x[1]
        if name == 'or': return x[0] | x[1]
        if name == 'xor': return x[0] ^ x[1]
        if name == 'not': return ~x[0] & m
        if name == 'eq': return int(x[0] == x[1])
        if name == 'lt': return int(x[0] < x[1])
        if name == 'slt': return int(sgn(x[0], a[0][1]) < sgn(x[1], a[0][1]))
        if name == 'shl': return (x[0] << (x[1] % w)) & m
        if name == 'shr': return x[0] >> (x[1] % w)
        if name == 'sar': return (sgn(x[0], w) >> (x[1] % w)) & m
        if name == 'min': return min(x)
        if name == 'max': return max(x)
        if name == 'sext': return sgn(x[0], a[0][1]) & m
        if name == 'ctpop': return bin(x[0]).count('1')
        if name in ('sdiv', 'srem'):
            u, v = sgn(x[0], w), sgn(x[1], w)
            if v == 0: return 0
            q = abs(u) // abs(v) * (1 if (u < 0) == (v < 0) else -1)
            return (q if name == 'sdiv' else u - q * v) & m
        if name.startswith('ovf_'):
            sg = name.endswith('s'); o = name[4:7]; W = a[0][1]
            u, v = (sgn(x[0], W), sgn(x[1], W)) if sg else x
            z = {'add': u + v, 'sub': u - v, 'mul': u * v}[o]
            return int(not (-(1 << (W - 1)) <= z < (1 << (W - 1)) if sg else 0 <= z <= mask(W)))
        raise Skip('op ' + name)
    def var(s, o, w):
        k = o[0]
        if k == 'disc':
            v = s.val(o[1])
            if v is None or v[0] != 'A': raise Skip('disc')
            return s.s.disc(o[2], v[2])
        if k == 'len':
            v = s.val(o[1])
            return s.seqlen(v)
        if k == 'end':
            p = s.base(o[1]) + o[2]
            return int(s.e.end is not None and p >= s.e.end)
        if k == 'eqv': return int(s.tree(o[1]) == s.tree(o[2]))
        if k == 'seqeq': return int(s.sub(*o[1]) == s.sub(*o[2]))
        if k == 'buflen': return (len(s.emit(o[1])) + 7) // 8
        if k == 'slen': return sum(len(s.sbytes(s.spart(q))) for q in o[1])
        if k == 'utf8ok':
            v = s.mat(s.tree(o[1]))
            try: bytes(v[1]).decode(); return 1
            except (UnicodeDecodeError, ValueError, TypeError): return 0
        if k == 'chb':
            b = s.sbytes(s.tree(o[1])); i = s.i(o[2])
            return int(i == 0 or i == len(b) or (i < len(b) and b[i] & 0xc0 != 0x80))
        if k == 'str': return int(textfn(o[1], s.text(o[2]), [s.i(x) if x[0] == 'I' else s.text(x) for x in o[3:]]))
        if k == 'utf8upto':
            v = s.mat(s.tree(o[1]))
            try: bytes(v[1]).decode()
            except UnicodeDecodeError as x: return x.start
            except (ValueError, TypeError): pass
            raise Skip('valid text')
        if k == 'utf8elen':
            v = s.mat(s.tree(o[1]))
            try: bytes(v[1]).decode()
            except UnicodeDecodeError as x: return 0 if x.reason == 'unexpected end of data' else x.end - x.start
            except (ValueError, TypeError): pass
            raise Skip('valid text')
        if k == 'cap': return s.seqlen(s.tree(o[1])) + 5          # any number that is not smaller
        if k == 'spos':
            p = s.base(o[1])
            if p % 8: raise Skip('atom spos')
            return p // 8 + o[2]
        if k == 'elx':
            v = s.tree(o[1]); i = s.i(o[2])
            if v[0] != 'Q' or i >= len(v[1]) or not isinstance(v[1][i], int): raise Skip('element')
            return v[1][i]
        if k in ('last', 'iokind', 'seekpos', 'kind'): raise Skip('atom ' + k)
        v = s.val(o)
        if not isinstance(v, int): raise Skip('not a number: %s' % (o,))
        return v
    def sub(s, v, m):
        x = s.mat(s.tree(v))
        if m and m != 'str': n = s.i(m[2]); return ('Q', x[1][m[1]:m[1] + n])
        return x
    def seqlen(s, v):
        if v is None: raise Skip('len')
        if v[0] == 'Q': return len(v[1])
        if v[0] == 'S': return len(s.sbytes(v))
        if v[0] == 'QB': return v[2]
        if v[0] == 'BS': return (len(v[1]) + 7) // 8
        raise Skip('len')
    def part(s, x, lo, n):
        if not isinstance(x[1], int): return ('QB', x[1], n)
        return ('QB', x[1] + 8 * lo, n) if n > LONG else ('Q', tuple(s.e.word(x[1] + 8 * (lo + i), 8) for i in range(n)))
    def mat(s, v):
        if v[0] == 'QB':
            if v[2] > 4096 or not isinstance(v[1], int): raise Skip('long sequence')
            return ('Q', tuple(s.e.word(v[1] + 8 * i, 8) for i in range(v[2])))
        if v[0] == 'BS': raise Skip('long sequence')
        return v
    # -------- values
    def val(s, o):
        k = o[0]
        if o == s.e.input: return s.e.bytes()
        if k == 'a':
            v = s.f.args.get(o[1])
            if v is None:
                if s.f.gen is None: raise Skip('missing argument')
                v = s.f.gen(s, o[1])
            return v
        if k == '*': return s.val(o[1])
        if k == '.':
            v = s.val(o[1])
            if v is None or isinstance(v, int): raise Skip('field')
            n = o[2]
            if v[0] == 'T': return v[1][int(n)]
            if v[0] != 'A': raise Skip('field')
            if v[2] and '.' in n:
                vn, n = n.split('.', 1)
                if vn != v[2]: raise Skip('field of another variant')
            for fn, x in v[3]:
                if fn == n: return x
            raise Skip('no field ' + n)
        if k == 'el':
            v = s.mat(s.val(o[1]))
            if v[0] == 'Q' and o[2] < len(v[1]): return v[1][o[2]]
            raise Skip('element')
        if k in ('rd', 'rv', 'rdc'): return s.read(o)[0]
        if k == 'err': return ('E',)
        if k == 'len?': 
            if o[1][0] == 'strbytes':
                v = s.tree(o[1][1]); return ('Q', tuple(s.sbytes(v)))
        raise Skip('origin ' + str(k))
    def tree(s, v):
        k = v[0]
        if k == 'I': return s.i(v)
        if k == 'A': return ('A', v[1], v[2], tuple((n, s.tree(x)) for n, x in v[3]))
        if k == 'T': return ('T', tuple(s.tree(x) for x in v[1]))
        if k == 'Q': return ('Q', tuple(s.tree(x) for x in v[1]))
        if k == 'Y': return s.val(v[2])
        if k == 'S':
            o = []
            for q in v[1]:
                x = s.spart(q)
                for y in x[1]:
                    if o and y[0] == 'l' and o[-1][0] == 'l': o[-1] = ('l', o[-1][1] + y[1])
                    else: o.append(y)
            return ('S', tuple(y for y in o if y != ('l', b'')))
        if k == 'sub':
            x = s.tree(v[1]); n = s.i(v[3])
            if x[0] == 'QB' and (v[2] == 0 or isinstance(x[1], int)) and n + v[2] <= x[2]: return s.part(x, v[2], n)
            if v[2] == 0 and x[0] == 'BS': return ('BS', x[1].head(8 * n))
            x = s.mat(x)
            if x[0] == 'S': x = ('Q', tuple(s.sbytes(x)))
            return ('Q', x[1][v[2]:v[2] + n])
        if k == 'W':
            b = s.emit(v[1]); z = '0' * (-len(b) % 8)
            if isinstance(b, BS): return ('BS', bits_of([b, z]))
            b += z
            return ('Q', tuple(int(b[i:i + 8], 2) for i in range(0, len(b), 8)))
        if k == 'O' and v[1] == 'tail':
            x = s.tree(v[2]); lo, hi = s.i(v[4]), s.i(v[5])
            if x[0] == 'QB' and (v[3] + lo == 0 or isinstance(x[1], int)) and lo <= hi and v[3] + hi <= x[2]: return s.part(x, v[3] + lo, hi - lo)
            x = s.mat(x)
            return ('Q', x[1][v[3] + lo:v[3] + hi])
        if k == 'O' and v[1] == 'tobits': return ('bits', s.tree(v[2]))
        if k in ('F', 'C'): return v
        raise Skip('value ' + str(v[:2]))
    def spart(s, q):
        k = q[0]
        if k == 'l': return ('S', (('l', q[1].encode() if isinstance(q[1], str) else q[1]),))
        if k == 'y':
            v = s.val(q[1])
            if v[0] != 'S': raise Skip('text')
            return v
        if k == 'utf8':
            v = s.mat(s.tree(q[1])); return ('S', (('l', bytes(v[1])),))
        if k == 'lossy':
            v = s.mat(s.tree(q[1])); return ('S', (('l', bytes(v[1]).decode(errors='replace').encode()),))
        if k == 'num':
            n = s.i(q[2])
            if q[1] in SGN: n = sgn(n, SGN[q[1]])
            if q[1] == 'bool': return ('S', (('l', b'true' if n else b'false'),))
            return ('S', (('l', str(n).encode()),))
        if k == 'fmt': return ('S', (('fmt', q[1], tuple(s.spart(x) for x in q[2])),))
        if k == 'substr':
            b = s.sbytes(s.tree(q[1])); return ('S', (('l', b[s.i(q[2]):s.i(q[3])]),))
        if k == 'sfn': return ('S', (('l', textfn(q[1], s.text(q[2]), [s.i(x) if x[0] == 'I' else s.text(x) for x in q[3]]).encode()),))
        if k in ('dbg', 'disp'):
            v = s.tree(q[2])
            # the text the standard derive gives for a variant without fields is the variant's name
            if k == 'dbg' and v[0] == 'A' and isinstance(v[2], str) and not v[3]: return ('S', (('l', v[2].encode()),))
            return ('S', ((k, q[1], v),))
        raise Skip('text part ' + str(k))
    def text(s, v):
        try: return s.sbytes(s.tree(v)).decode()
        except UnicodeDecodeError: raise Skip('not text')
    def sbytes(s, v):
        o = b''
        for q in v[1]:
            if q[0] != 'l': raise Skip('opaque text')
            o += q[1]
        return o
    # -------- emissions -> bit string
    def emit(s, ems):
        o = []
        for e in ems:
            if e[0] == 'bits':
                if e[1][1]: o.append(bin(s.i(e[1]) | 1 << e[1][1])[3:])
            elif e[0] == 'nt': o.append(s.encode(e[1], s.tree(e[2]), s.tree(e[3]), e[3]))
            elif e[0] == 'seq':
                v = s.tree(e[2]); c = s.tree(e[3])
                if v[0] == 'S': v = ('Q', tuple(s.sbytes(v)))
                if v[0] == 'QB' and e[1] == 'u8': o.append(BS([v])); continue
                if v[0] == 'BS' and e[1] == 'u8': o.append(v[1]); continue
                for x in v[1]:
                    if isinstance(x, int) and e[1] == 'u8': o.append(bin(x | 256)[3:])
                    elif isinstance(x, int): raise Skip('vector of ' + e[1])
                    else: o.append(s.encode(e[1], x, c, e[3]))
            else: raise Skip('emission')
        return bits_of(o)
    def encode(s, T, v, ctx, cx):
        key = s.s.codec(s.s.wr, T, cx)
        ev = Ev(s.s, s.e, Frame(0, {0: v, 2: ctx}))
        l = ev.pick(s.s.t.roots[key])
        if l.kind != 'ret': raise Skip('nested ' + l.kind)
        r = ev.tree(l.ret)
        if r[2] != 'Ok': raise Fail('nested write rejection')
        return ev.emit(l.ems)

# ------------------------------------------------------------------ guided generation of argument values
INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'char': 32}
BIG = (64, 100, 256, 16384, 65536, 1 << 22)
def els_of(v, acc):
    """sequences whose elements are looked at"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'el': acc.add(v[1])
        for x in v:
            if isinstance(x, tuple): els_of(x, acc)
class Gen:
    """argument trees of the declared type that respect single-atom facts"""
    def __init__(s, types, argtys, facts, rnd, consts=(), lazy=False):
        s.consts = consts; s.lazy = lazy; s.els = set()
        if lazy:
            for k in facts: els_of(k, s.els)
        s.ty = types; s.at = argtys; s.rnd = rnd
        s.full = {}; s.part = {}; s.neq = []
        for k, iset in facts.items():
            if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v':
                _, t, lo, n = k[0]
                if lo == 0 and n == t[2]: s.full[t] = iset
                else: s.part.setdefault(t, []).append((lo, n, iset))
        s.copy = {}; s.made = {}          # origin -> origin, for equalities
        for k, iset in facts.items():
            if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'op' and k[0][1][1] == 'eq' and ival(iset) == 1:
                x, y = k[0][1][3]
                ox, oy = s.org(x), s.org(y)
                if ox and oy: s.copy[ox] = oy; s.copy[oy] = ox
            if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] in ('eqv', 'seqeq') and ival(iset) == 1:
                x, y = k[0][1][1][1:3]
                if k[0][1][1][0] == 'seqeq': x, y = x[0], y[0]
                if x[0] == 'Y' and y[0] == 'Y': s.copy[x[2]] = y[2]; s.copy[y[2]] = x[2]
                if x[0] == 'S' and y[0] == 'S' and len(x[1]) == len(y[1]) == 1 and x[1][0][0] == y[1][0][0] == 'y':
                    s.copy[x[1][0][1]] = y[1][0][1]; s.copy[y[1][0][1]] = x[1][0][1]
    @staticmethod
    def org(i):
        ps = [p for p in i[2] if p[0] != 'k']
        if len(ps) == 1 and ps[0][0] == 'b' and ps[0][1][0] == 'v' and ps[0][2] == 0: return ps[0][1][1]
        return None
    def pick(s, iset, w):
        r = s.rnd
        l, h = iset[r.randrange(len(iset))]
        x = r.random()
        if x < .25: return l
        if x < .4: return h
        if x < .6: return r.randint(l, min(h, l + 7))
        if h - l > 1 << 20 and x < .6: return l + r.randrange(min(h - l, 300))
        return r.randint(l, h)
    def num(s, o, w):
        if o in s.copy and s.copy[o] in s.made: v = s.made[o] = s.made[s.copy[o]]; return v
        v = s.made[o] = s.num_(o, w)
        if s.consts and o not in s.copy and s.rnd.random() < .3:
            x = s.rnd.choice(s.consts) + s.rnd.choice((-1, 0, 0, 1))
            iset = s.full.get(('v', o, w)) or DOM.get(('v', o, w)) or ((0, mask(w)),)
            if ('v', o, w) not in s.part and ihas(iset, x): v = s.made[o] = x
        return v
    def num_(s, o, w):
        t = ('v', o, w)
        iset = s.full.get(t) or DOM.get(t)
        if iset: v = s.pick(iset, w)
        else: v = s.pick(((0, mask(w)),), w)
        for lo, n, st in s.part.get(t, ()):
            v = v & ~(mask(n) << lo) | s.pick(st, n) << lo
        return v
    def chars(s, n):
        al = ['abcXYZ09 -', 'a0 \0', 'a\xe9\u20ac\U0001f600'][int(s.rnd.random() * 5) // 2]
        b = b''
        while len(b) < n:
            x = s.rnd.choice(al).encode()
            if len(b) + len(x) <= n: b += x
        return b
    def make(s, tn, o, d=0):
        if o in s.copy and s.copy[o] in s.made: v = s.made[o] = s.made[s.copy[o]]; return v
        v = s.made[o] = s.make_(tn, o, d)
        return v
    def make_(s, tn, o, d=0):
        if d > 30: raise Skip('deep type')
        if tn in INTS: return s.num(o, INTS[tn])
        t = s.ty.get(tn)
        if t is None or t['k'] == 'opaque': return ('E',)
        k = t['k']
        if k == 'ref': return s.make(t['t'], ('*', o), d + 1)
        if k == 'tuple': return ('T', tuple(s.make(x, ('.', o, str(i)), d + 1) for i, x in enumerate(t['t'])))
        if k == 'array': return ('Q', tuple(s.make(t['t'], ('el', o, i), d + 1) for i in range(t['n'])))
        if k == 'seq':
            lt = ('v', ('len', o), 64)
            f = s.full.get(lt)
            n = s.rnd.randrange(4) if f is None else (ilo(f) + (s.rnd.randrange(3) if ihi(f) >= ilo(f) + 3 else s.rnd.randrange(ihi(f) - ilo(f) + 1)))
            if s.lazy and t['t'] == 'u8' and o not in s.els and (n > 300 or s.rnd.random() < .25):
                m = n if n > 300 else s.rnd.choice(s.consts or BIG) + s.rnd.choice((-1, 0, 1))
                if LONG < m < 1 << 32 and (f is None or ihas(f, m)): return ('QB', o, m)
            if n > 4096: raise Skip('long sequence')
            if n == LONGSEQ and s.ty.get(t['t'], {}).get('k') in ('struct', 'enum'): return ('Q', (s.make(t['t'], ('el', o, 0), d + 1),) * (n - 1) + (s.make(t['t'], ('el', o, n - 1), d + 1),))
            return ('Q', tuple(s.make(t['t'], ('el', o, i), d + 1) for i in range(n)))
        if k == 'str':
            n = s.rnd.choice([0, 1, 3, 6, 8, 20])
            f = s.full.get(('v', ('slen', (('y', o),)), 64))
            if f: n = min(s.pick(f, 64), ilo(f) + 40)
            return ('S', (('l', s.chars(n)),) if n else ())
        if k == 'struct':
            if tn.startswith(('deku::', 'std::')) and not tn.startswith('std::ops'): return ('E',)
            return ('A', tn, '', tuple((fn, s.make(ft, ('.', o, fn), d + 1)) for fn, ft in t['v'][0][2]))
        if k == 'enum':
            dt = ('v', ('disc', o, tn), 64)
            f = s.full.get(dt)
            vs = [v for v in t['v'] if f is None or ihas(f, v[1])]
            if not vs: raise Skip('no variant')
            v = s.rnd.choice(vs)
            do = ('disc', o, tn)
            if do in s.copy and s.copy[do] in s.made: v = [x for x in t['v'] if x[0] == s.made[s.copy[do]]][0]
            s.made[do] = v[0]
            return ('A', tn, v[0], tuple((fn, s.make(ft, ('.', o, v[0] + '.' + fn), d + 1)) for fn, ft in v[2]))
        raise Skip('type ' + tn)
    def __call__(s, ev, i):
        tn = s.at[i] if i < len(s.at) else None
        if tn is None: raise Skip('argument type')
        v = ev.f.args[i] = s.make(tn, ('a', i))
        return v
