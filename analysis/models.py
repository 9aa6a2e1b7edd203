"""Semantics of the library functions the analysed code calls and whose bodies are not interpreted:
the deku Reader/Writer and its primitive codecs, Vec/String/slice operations, fmt, intrinsics."""
import re
from dom import *
from interp import *

def strip_generics(p):
    """drop balanced <...> that follow '::' """
    o = []; i = 0
    while i < len(p):
        if p.startswith('::<', i):
            j = i + 2; d = 0
            while j < len(p):
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            if p.startswith('impl ', i + 3): o.append(p[i:j + 1])
            i = j + 1
        else: o.append(p[i]); i += 1
    return ''.join(o)

REG = {}
PRE = []          # (regex, fn)
def m(*names):
    def d(f):
        for n in names: REG[n] = f
        return f
    return d
def mr(rx):
    def d(f): PRE.append((re.compile(rx), f)); return f
    return d

class Ctx:
    """one modelled call"""
    __slots__ = ('I', 'st', 'ca', 'a', 'dty', 'sp', 'fr', 'mo', 'ip')
    def ret(c, v): return [(c.st, 'ret', v)]
    def p(c): return c.I.p
    def variant(c, name, *f, ty=None):
        ty = c.dty if ty is None else ty
        t = c.I.p.t(ty)
        for i, v in enumerate(t['variants']):
            if v['n'] == name: return ('A', ty, i, tuple(f))
        raise Undec('no variant %s in %s' % (name, t['name']))
    def ok(c, v=UNIT): return c.variant('Ok', v)
    def err(c, what, *data):
        t = c.I.p.t(c.dty)
        return c.variant('Err', c.I.sym(t['args'][1], ('err', what) + data))
    def fail(c, what):
        u = c.st.copy()
        u.ev += (('fail', what),)
        return (u, 'ret', c.err(what))
    def deref(c, v):
        while v[0] == 'R': v = c.I.load(c.st, v[1], v[2])
        return v
    def panic(c, msg, st=None): return (st or c.st, 'panic', (msg, c.sp, c.fr[1]['path'] if c.fr else '?'))

class Models:
    def __init__(s):
        s.cache = {}
        s.nt = None          # NT policy object
    def call(s, I, st, ca, a, dty, sp, fr):
        ip = ca.get('ipath') or ca['path']
        key_ = (ip, ca['path'])
        f = s.cache.get(key_, 0)
        if f == 0:
            f = None
            for n in (strip_generics(ip), strip_generics(ca['path'])):
                n = n.replace('core::', 'std::', 1) if n.startswith('core::') else n
                n = n.replace('alloc::', 'std::', 1) if n.startswith('alloc::') else n
                if n in REG: f = REG[n]; break
                if ca.get('ik') == 'Intrinsic':
                    nm = n.split('::')[-1]
                    f = INTR.get(nm)
                    if f: break
            if f is None:
                for rx, g in PRE:
                    if rx.search(ip): f = g; break
            s.cache[key_] = f
        c = Ctx(); c.I = I; c.st = st; c.ca = ca; c.a = a; c.dty = dty; c.sp = sp; c.fr = fr; c.mo = s; c.ip = ip
        nf = nfail(st)
        r = s.nt.call(c) if s.nt is not None else None
        if r is None:
            if f is None: return None
            r = f(c)
        if nf and len(r) > 1:
            # a path on which a step has failed already: a second failure adds nothing to what becomes of the first
            r = [o for o in r if nfail(o[0]) <= nf] or r
        return r
def nfail(st): return sum(e[0] == 'fail' for e in st.ev)

# ------------------------------------------------------------------ deep (reference-free) form
def deep(I, st, v, d=0):
    if d > 60: return ('…',)
    k = v[0]
    p = I.p
    if k == 'I': return st.f.norm(v)
    if k == 'A':
        t = p.t(v[1])
        vn = t['variants'][v[2]]
        fs = vn['f']
        en = t['adt'] == 'enum'
        names = []
        for i, f in enumerate(fs):
            n = f['n'] if (en or f['pub'] or not t.get('local')) else '#%d' % i
            names.append(n)
        return ('A', t['name'], vn['n'] if en else '', tuple((n, deep(I, st, x, d + 1)) for n, x in zip(names, v[3])))
    if k == 'T': return ('T', tuple(deep(I, st, x, d + 1) for x in v[1]))
    if k in ('L', 'Q'): return ('Q', tuple(deep(I, st, x, d + 1) for x in v[1]))
    if k == 'Y':
        o = v[2]
        if o[0] == 'rv': o = ('rv', o[1], o[2], st.f.norm(o[3]), o[4])
        return ('Y', seqname(p, v[1]), o)
    if k == 'R':
        if v[3] and v[3] != 'str':
            x = I.load(st, v[1], v[2])
            n = st.f.norm(v[3][2]); c = kval(n)
            if x[0] in ('L', 'Q') and c is not None:
                return ('Q', tuple(deep(I, st, y, d + 1) for y in x[1][v[3][1]:v[3][1] + c]))
            if x[0] == 'Y':
                if v[3][1] == 0 and n == st.f.norm(I.seqlen(x[2])): return deep(I, st, x, d + 1)
            return ('sub', deep(I, st, x, d + 1), v[3][1], n)
        return deep(I, st, I.load(st, v[1], v[2]), d + 1)
    if k == 'S': return ('S', sparts(v[1]))
    if k == 'N': return deep(I, st, v[1], d + 1)
    if k == 'U': return ('U',)
    if k == 'F': return ('F', p.name(v[1]))
    if k == 'C': return ('C',)
    if k == 'O':
        if v[1] == 'wbuf': return ('W', v[2])
        if v[1] == 'pos': return ('pos',) + v[2:]
        if v[1] == 'tobits': return v
        if v[1] == 'tail': return v
        return ('O', v[1])
    return v
def seqname(p, ty):
    t = p.t(ty)
    if t['k'] == 'slice' or is_vec(t): return '[%s]' % p.name(t['ty'] if t['k'] == 'slice' else t['args'][0])
    return t['name']
def sparts(ps):
    o = []
    for q in ps:
        if q[0] == 'l':
            if q[1] == '': continue
            if o and o[-1][0] == 'l': o[-1] = ('l', o[-1][1] + q[1]); continue
        o.append(q)
    return tuple(o)

# ------------------------------------------------------------------ reader
def pos(base, off, phase, kinds): return ('O', 'pos', base, off, phase, kinds)
def get_reader(c, r):
    while True:
        v = c.I.load(c.st, r[1], r[2])
        if v[0] == 'R': r = v; continue
        break
    if v[0] != 'A' or len(v[3]) != 4 or v[3][1][0] != 'O' or v[3][1][1] != 'pos': raise Undec('reader state')
    return r, v
def put_reader(c, st, r, v, ps, last, br):
    c.I.store(st, r[1], r[2], ('A', v[1], v[2], (v[3][0], ps, last, br)))
def bits_at(base, off, n):
    if base[0] == 'c':
        if off + n > base[1][1]: return None
        return sl(base[1], base[1][1] - off - n, n)
    return S(base, off, n)
def enough(c, base, nbits):
    """a successful read from a slice: the slice is at least that long"""
    if base[0] != 'in': return True
    return c.st.f.refine(c.I.seqlen(base[1]), (((nbits + 7) // 8, mask(64)),))
def do_read(c, n, mode):
    """advance the reader by n bits.  mode 'bits' | 'bytes'.  -> (reader_ref, word or None if short)"""
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, kinds = v[3][1]
    last, br = v[3][2], v[3][3]
    f = c.st.f
    w = bits_at(base, off, n)
    if w is None or not enough(c, base, off + n): return None
    np = (ph + n) % 8
    cnt = n
    if mode == 'bytes' and kinds == 'N': nk = 'N'; lastn = n
    elif mode == 'bytes' and kinds == 'Y': nk = 'N'; cnt = n - 8; lastn = 0
    elif mode == 'bytes' and 'Y' in kinds: raise Undec('look-ahead state')
    elif np: nk = 'B'; lastn = n
    else:
        lastn = n
        # exact use of the buffered bits -> None, otherwise an empty buffer stays behind
        if mode == 'bytes' and 'N' in kinds: nk = 'NE'      # both a plain and a buffered read are possible
        elif kinds == 'Y': nk = 'N' if n == 8 else 'E'
        elif ph: nk = 'N' if n == 8 - ph else 'E'
        else: nk = 'E'
    put_reader(c, c.st, r, v, pos(base, off + n, np, nk), op(f, 'add', 64, last, K(64, lastn)), op(f, 'add', 64, br, K(64, cnt)))
    return w
def read_outcomes(c, n, mode, conv, what):
    if n == 0: raise Undec('zero-size read')
    fl = None
    r, v = get_reader(c, c.a[0])
    base = v[3][1][2]
    if base[0] != 'c': fl = c.fail('read')
    w = do_read(c, n, mode)
    if w is None: return [c.fail('read')]
    outs = conv(w)
    return outs + ([fl] if fl else [])

PR = re.compile(r"deku::impls::primitive::<impl deku::DekuReader<'_(?:, (.*?))?> for (\w+)>::from_reader_with_ctx$")
PW = re.compile(r"deku::impls::primitive::<impl deku::DekuWriter(?:<(.*?)>)? for (\w+)>::to_writer$")
WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
def bswap(w):
    return cat(*[sl(w, i, 8) for i in range(0, w[1], 8)])
def prim_ctx(c, ctxname, v):
    """-> (endian, bits or None, native?)   endian 'B'|'L'"""
    def en(x):
        if x[0] != 'A': raise Undec('symbolic endianness')
        return c.I.p.vname(x[1], x[2])[0]
    def sz(x):
        n = need(c.st.f, x[3][0] if x[0] == 'A' else c.I.pget(c.st, x, ('f', 0)), 130)
        if n is None: raise Undec('symbolic bit size')
        return n
    if not ctxname or ctxname == '()': return 'L', None, True
    if ctxname == 'deku::ctx::Endian': return en(v), None, False
    if ctxname == 'deku::ctx::BitSize': return 'L', sz(v), True
    if ctxname == 'deku::ctx::ByteSize': return 'L', sz(v) * 8, True
    if ctxname.startswith('(deku::ctx::Endian'): 
        n = sz(v[1][1])
        return en(v[1][0]), n * 8 if 'ByteSize' in ctxname else n, False
    raise Undec('codec context ' + ctxname)
@mr(PR.pattern)
def prim_read(c):
    ctxn, ty = PR.search(c.ip).groups()
    W = WID.get(ty)
    if W is None: raise Undec('primitive ' + ty)
    e, n, native = prim_ctx(c, ctxn, c.a[1] if len(c.a) > 1 else UNIT)
    if n is None and ty in ('usize', 'isize'): c.st.ev += (('native', ty, W),)
    bits = n is not None
    mode = 'bytes' if (not bits or (ctxn and ctxn.startswith('deku::ctx::B') and n % 8 == 0) or (ctxn and 'ByteSize' in ctxn)) else 'bits'
    n = W if n is None else n
    if n > W or n == 0: return c.ret(c.err('size'))
    if native and n > 8: c.st.ev += (('native', ty, n),)
    def conv(w):
        if e == 'L' and n > 8:
            if n % 8: raise Undec('little-endian odd width')
            w = bswap(w)
        if ty[0] == 'i' and n < W: w = c.I.sext(c.st, w, W)
        return [(c.st, 'ret', c.ok(zext(w, W)))]
    return read_outcomes(c, n, mode, conv, ty)
@m('deku::prelude::Reader::skip_bits', 'deku::reader::Reader::skip_bits')
def skip_bits(c):
    n = need(c.st.f, c.a[1], 130)
    if n is None:
        r, v = get_reader(c, c.a[0])
        _, _, base, off, ph, k = v[3][1]
        fl = c.fail('read')
        if not c.st.f.refine(c.a[1], ((0, SEQMAX * 8),)): return [fl]      # cannot skip more bits than the input has
        nb = ('aft', ('skip', base, off, c.st.f.norm(c.a[1])))
        put_reader(c, c.st, r, v, pos(nb, 0, 0, 'NE'), v[3][2], T(('br', nb, brdelta(c, v, off))))
        return [(c.st, 'ret', c.ok()), fl]
    if n == 0: return c.ret(c.ok())
    return read_outcomes(c, n, 'bits', lambda w: [(c.st, 'ret', c.ok())], 'skip')
BR = re.compile(r"deku::impls::bool::<impl deku::DekuReader<'a, Ctx> for bool>::from_reader_with_ctx$")
@mr(BR.pattern)
def bool_read(c):
    ctxn = c.I.p.name(c.ca['args'][1])
    if ctxn.startswith('(deku::ctx::Endian'): pass
    e, n, native = prim_ctx(c, ctxn, c.a[1] if len(c.a) > 1 else UNIT)
    if n != 1: return None
    return read_outcomes(c, 1, 'bits', lambda w: [(c.st, 'ret', c.ok(w))], 'bool')
@mr(r"deku::impls::bool::<impl deku::DekuWriter<Ctx> for bool>::to_writer$")
def bool_write(c):
    ctxn = c.I.p.name(c.ca['args'][1])
    e, n, native = prim_ctx(c, ctxn, c.a[2] if len(c.a) > 2 else UNIT)
    v = c.deref(c.a[0])
    n = 8 if n is None else n
    if n > 8: return c.ret(c.err('size'))
    get_writer(c, c.a[1])
    fl = wfail(c)
    emit(c, c.a[1], ('bits', zext(v, n)))
    return [(c.st, 'ret', c.ok()), fl]
@m('deku::DekuContainerWrite::to_bits')
def to_bits(c):
    v = deep(c.I, c.st, c.a[0])
    return [(c.st, 'ret', c.ok(('O', 'tobits', v))), c.fail('write')]
@m('deku::prelude::Reader::read_bits')
def read_bits(c):
    n = need(c.st.f, c.a[1], 130)
    if n is None: raise Undec('symbolic read_bits')
    oty = c.I.p.t(c.dty)['args'][0]
    if n == 0: return c.ret(c.ok(c.variant('None', ty=oty)))
    return read_outcomes(c, n, 'bits', lambda w: [(c.st, 'ret', c.ok(c.variant('Some', ('O', 'bv', w), ty=oty)))], 'bits')
@m('deku::prelude::Reader::read_bytes')
def read_bytes(c):
    n = need(c.st.f, c.a[1], 200)
    if n is None: raise Undec('symbolic read_bytes')
    rty = c.I.p.t(c.dty)['args'][0]
    r, v = get_reader(c, c.a[0])
    k = v[3][1][5]
    if k not in ('N', 'Y') and k != 'NE' and k != 'B' and k != 'E': raise Undec('reader kind')
    def conv(w):
        if k in ('N', 'Y', 'NE'):
            b = c.a[2]
            for i in range(n): c.I.store(c.st, b[1], b[2] + (('e', b[3][1] + i),), sl(w, (n - 1 - i) * 8, 8))
            return [(c.st, 'ret', c.ok(c.variant('Bytes', ty=rty)))]
        oty = [x for x in c.I.p.t(rty)['variants'] if x['n'] == 'Bits'][0]['f'][0]['ty']
        return [(c.st, 'ret', c.ok(c.variant('Bits', c.variant('Some', ('O', 'bv', w), ty=oty), ty=rty)))]
    return read_outcomes(c, n * 8, 'bytes', conv, 'bytes')
@m('deku::prelude::Reader::new')
def reader_new(c):
    inner = c.a[0]
    cur = c.deref(inner)
    if cur[0] == 'O' and cur[1] == 'cur':
        data = cur[2]
        n = None
        if data[0] == 'R' and data[3] and data[3] != 'str':
            x = c.I.load(c.st, data[1], data[2])
            if x[0] in ('L', 'Q'):
                k = c.st.f.const(data[3][2])
                el = x[1][data[3][1]:data[3][1] + k]
                base = ('c', cat(*el)) if el else ('c', K(0, 0))
            elif x[0] == 'Y': base = ('in', x[2])
            else: raise Undec('reader input')
        elif data[0] in ('L', 'Q'): base = ('c', cat(*data[1]) if data[1] else ('I', 0, ()))
        elif data[0] == 'Y': base = ('in', data[2])
        else: raise Undec('reader input')
    elif cur[0] == 'Y': base = ('in', cur[2])
    else: raise Undec('reader source')
    return c.ret(('A', c.dty, 0, (inner, pos(base, 0, 0, 'N'), K(64, 0), K(64, 0))))
@m('deku::prelude::Reader::rest')
def reader_rest(c):
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, k = v[3][1]
    if set(k) <= {'N', 'E'}: return c.ret(('Q', ()))
    if k == 'B': return c.ret(('Q', tuple(bits_at(base, off + i, 1) for i in range(8 - ph))))
    if k == 'Y': return c.ret(('Q', tuple(bits_at(base, off + i, 1) for i in range(8))))
    raise Undec('rest in mixed state')
@m('deku::prelude::Reader::end')
def reader_end(c):
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, k = v[3][1]
    if k in ('E', 'B', 'Y'): return c.ret(FALSE)
    if k != 'N':
        outs = []
        for x in k:
            u = c.st.copy()
            c2 = Ctx(); c2.I = c.I; c2.st = u; c2.ca = c.ca; c2.a = c.a; c2.dty = c.dty; c2.sp = c.sp; c2.fr = c.fr; c2.mo = c.mo; c2.ip = c.ip
            put_reader(c2, u, r, v, pos(base, off, ph, x), v[3][2], v[3][3])
            outs += reader_end(c2)
        return outs
    if base[0] == 'c':
        if off >= base[1][1]: return c.ret(TRUE)
        put_reader(c, c.st, r, v, pos(base, off, ph, 'Y'), v[3][2], op(c.st.f, 'add', 64, v[3][3], K(64, 8)))
        return c.ret(FALSE)
    e = V(('end', base, off), 1)
    outs = []
    u = c.st.copy()
    if u.f.refine(e, ((1, 1),)): outs.append((u, 'ret', TRUE))
    u = c.st.copy()
    if u.f.refine(e, ((0, 0),)):
        put_reader(c, u, r, v, pos(base, off, ph, 'Y'), v[3][2], op(c.st.f, 'add', 64, v[3][3], K(64, 8)))
        outs.append((u, 'ret', FALSE))
    return outs
def phys(v):
    _, _, base, off, ph, k = v[3][1]
    if k == 'Y': return off + 8
    if ph: return off + 8 - ph
    return off
def seek_by(c, nbytes):
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, k = v[3][1]
    if 'Y' in k and k != 'Y': raise Undec('seek in mixed state')
    o = phys(v) + nbytes * 8
    if base[0] == 'aft' and o < 0: raise Undec('seek before a variable-length item')
    put_reader(c, c.st, r, v, pos(base, o, 0, 'N'), v[3][2], v[3][3])
@m('std::io::Seek::seek_relative')
def seek_relative(c):
    n = c.st.f.const(c.a[1])
    if n is None: raise Undec('symbolic seek')
    fl = c.fail('seek')
    seek_by(c, sgn(n, 64))
    return [(c.st, 'ret', c.ok()), fl]
@mr(r"<deku::prelude::Reader<.*> as .*Seek>::seek$")
def reader_seek(c):
    f = c.a[1]
    if f[0] != 'A' or c.I.p.vname(f[1], f[2]) != 'Current': raise Undec('absolute seek')
    n = c.st.f.const(f[3][0])
    if n is None: raise Undec('symbolic seek')
    fl = c.fail('seek')
    seek_by(c, sgn(n, 64))
    return [(c.st, 'ret', c.ok(V(('seekpos',), 64))), fl]
@m('std::io::Seek::stream_position')
def stream_position(c):
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, k = v[3][1]
    if 'Y' in k and k != 'Y': raise Undec('position in mixed state')
    return [(c.st, 'ret', c.ok(V(('spos', base, phys(v) // 8), 64))), c.fail('seek')]
@m('deku::prelude::Reader::seek_last_read')
def seek_last(c):
    r, v = get_reader(c, c.a[0])
    n = need(c.st.f, v[3][2], 200)
    if n is None: raise Undec('seek_last_read distance')
    fl = c.fail('seek')
    seek_by(c, -((n + 7) // 8))
    v2 = c.I.load(c.st, r[1], r[2])
    put_reader(c, c.st, r, v2, v2[3][1], v2[3][2], op(c.st.f, 'sub', 64, v2[3][3], v[3][2]))
    return [(c.st, 'ret', c.ok()), fl]
VR = re.compile(r"deku::impls::vec::<impl deku::DekuReader<'a, (\(deku::ctx::Limit<T, Predicate>, Ctx\)|deku::ctx::Limit<T, Predicate>)> for (?:std|alloc)::vec::Vec<T>>::from_reader_with_ctx$")
@mr(VR.pattern)
def vec_read(c):
    both = 'Ctx)' in VR.search(c.ip).group(1)
    lim, ctx = (c.a[1][1][0], c.a[1][1][1]) if both else (c.a[1], UNIT)
    if lim[0] != 'A': raise Undec('limit')
    kind = c.I.p.vname(lim[1], lim[2])
    vt = c.I.p.t(c.dty)['args'][0]
    et = c.I.p.t(vt)['args'][0]
    if kind == 'Count': n = lim[3][0]; unit = 'n'
    elif kind == 'ByteSize': n = lim[3][0][3][0]; unit = 'bytes'
    elif kind == 'BitSize': n = lim[3][0][3][0]; unit = 'bits'
    else: raise Undec('limit ' + kind)
    k = c.st.f.const(n)
    w = c.I.p.w(et)
    if k == 0: return c.ret(c.ok(('Q', ())))
    if k is not None and w and unit in ('n', 'bytes') and k <= 512 and ctx in (UNIT,) and w == 8:
        def conv(x): return [(c.st, 'ret', c.ok(('Q', tuple(sl(x, (k - 1 - i) * 8, 8) for i in range(k)))))]
        fl = c.fail('read')
        r, v = get_reader(c, c.a[0])
        for i in range(k):
            if i == 0: ws = [do_read(c, 8, 'bytes')]
            else: ws.append(do_read(c, 8, 'bytes'))
            if ws[-1] is None: return [fl]
        return [(c.st, 'ret', c.ok(('Q', tuple(ws)))), fl]
    if k is not None and k <= 4 and unit == 'n': return None
    if unit != 'n' and w != 8: raise Undec('byte-limited vector of %s' % c.I.p.name(et))
    # symbolic count
    r, v = get_reader(c, c.a[0])
    _, _, base, off, ph, kk = v[3][1]
    if base[0] == 'c': raise Undec('vector from bytes')
    fl = c.fail('read')
    cx = deep(c.I, c.st, ctx)
    n = c.st.f.norm(n)
    org = ('rv', base, off, n, ('vec', c.I.p.name(et), cx))
    nb = ('aft', org)
    brk = brdelta(c, v, off)
    z = c.st.f.const(op(c.st.f, 'eq', 1, n, K(64, 0)))
    put_reader(c, c.st, r, v, pos(nb, 0, ph, 'B' if ph else 'NE' if kk not in ('N',) or w is None else 'N'), v[3][2], T(('br', nb, brk)))
    return [(c.st, 'ret', c.ok(('Y', vt, org))), fl]
def brdelta(c, v, off):
    br = c.st.f.norm(v[3][3])
    if kval(br) is not None and v[3][1][2][0] in ('in', 'c'): return sgn(kval(br), 64) - off
    t = br[2][0][1] if len(br[2]) == 1 and br[2][0][0] == 'b' else None
    if not t or t[0] != 'br' or t[1] != v[3][1][2]: raise Undec('bit accounting')
    return t[2] - off

# ------------------------------------------------------------------ writer
def get_writer(c, r):
    while True:
        v = c.I.load(c.st, r[1], r[2])
        if v[0] == 'R': r = v; continue
        break
    if v[0] != 'O' or v[1] != 'wr': raise Undec('writer state')
    return r, v
def em_size(e):
    """bits, or None"""
    if e[0] == 'bits': return e[1][1]
    return None
def em_push(ems, e):
    if e[0] == 'bits' and ems and ems[-1][0] == 'bits':
        x = ems[-1][1]
        return ems[:-1] + (('bits', cat(x, e[1])),)
    return ems + (e,)
def em_norm(f, ems):
    return tuple(('bits', f.norm(e[1])) if e[0] == 'bits' else e for e in ems)
def emit(c, wref, e):
    r, v = get_writer(c, wref)
    ems = em_push(v[2], e)
    c.I.store(c.st, r[1], r[2], ('O', 'wr', ems, v[3]))
    sync(c, ems, v[3], False)
def sync(c, ems, tgt, fin):
    if tgt is None: return
    r = tgt
    while True:
        v = c.I.load(c.st, r[1], r[2])
        if v[0] == 'R': r = v; continue
        break
    if v[0] == 'O' and v[1] == 'cur':
        if v[2][0] == 'R':
            t = v[2]
            c.I.store(c.st, t[1], t[2], ('O', 'wbuf', ems, fin))
        else: c.I.store(c.st, r[1], r[2], ('O', 'cur', ('O', 'wbuf', ems, fin)))
def wfail(c): return c.fail('write')
@mr(PW.pattern)
def prim_write(c):
    ctxn, ty = PW.search(c.ip).groups()
    W = WID.get(ty)
    if W is None: raise Undec('primitive ' + ty)
    v = c.deref(c.a[0])
    if v[0] != 'I': raise Undec('primitive value')
    e, n, native = prim_ctx(c, ctxn, c.a[2] if len(c.a) > 2 else UNIT)
    if n is not None and n > W: return c.ret(c.err('size'))
    get_writer(c, c.a[1])
    if n is not None and n < W:
        if ty[0] == 'i': raise Undec('signed bit field')
        if 'ByteSize' not in ctxn:
            fit = op(c.st.f, 'eq', 1, sl(v, n, W - n), K(W - n, 0))
            k = c.st.f.const(fit)
            if k is None: raise Fork(fit, [((0, 0),), ((1, 1),)])
            if k == 0:
                c.st.ev += (('reject', 'value wider than its bit field'),)
                return c.ret(c.err('bits'))
    if n is None and ty in ('usize', 'isize'): c.st.ev += (('native', ty, W),)
    n = W if n is None else n
    if native and n > 8: c.st.ev += (('native', ty, n),)
    fl = wfail(c)
    w = sl(v, 0, n)
    if e == 'L' and n > 8:
        if n % 8: raise Undec('little-endian odd width')
        w = bswap(w)
    emit(c, c.a[1], ('bits', w))
    return [(c.st, 'ret', c.ok()), fl]
@m('deku::prelude::Writer::new')
def writer_new(c): return c.ret(('O', 'wr', (), c.a[0]))
@m('deku::prelude::Writer::write_bits')
def write_bits(c):
    b = c.deref(c.a[1])
    if b[0] != 'O' or b[1] != 'bv': raise Undec('bit slice')
    if b[2][1] == 0: return c.ret(c.ok())
    fl = wfail(c)
    emit(c, c.a[0], ('bits', b[2]))
    return [(c.st, 'ret', c.ok()), fl]
@m('deku::prelude::Writer::write_bytes')
def write_bytes(c):
    fl = wfail(c)
    seq_write(c, c.a[1], c.a[0], UNIT, None)
    return [(c.st, 'ret', c.ok()), fl]
@m('deku::bitvec::BitVec::repeat')
def bv_repeat(c):
    n = need(c.st.f, c.a[1], 130); b = c.st.f.const(c.a[0])
    if n is None or b is None: raise Undec('bit padding')
    return c.ret(('O', 'bv', K(n, mask(n) if b else 0) if n else ('I', 0, ())))
@m('deku::bitvec::BitVec::as_bitslice', '<deku::bitvec::BitVec as std::ops::Deref>::deref')
def bv_slice(c): return c.ret(c.a[0])
def aligned(ems):
    n = 0
    for e in ems:
        if e[0] == 'bits': n += e[1][1]
        elif e[0] == 'nt' and e[4] is not None: n += e[4]
    return n % 8
@m('deku::prelude::Writer::finalize')
def finalize(c):
    r, v = get_writer(c, c.a[0])
    fl = wfail(c)
    ems = v[2]; a = aligned(ems)
    if a: ems = em_push(ems, ('bits', K(8 - a, 0)))
    c.I.store(c.st, r[1], r[2], ('O', 'wr', ems, v[3]))
    sync(c, ems, v[3], True)
    return [(c.st, 'ret', c.ok()), fl]
def seq_write(c, ref, wref, ctx, ty):
    """write a sequence opaquely; True if done, False if it has to be interpreted element-wise"""
    r = ref; meta = None
    while r[0] == 'R':
        meta = r[3] if r[3] and r[3] != 'str' else meta
        r = c.I.load(c.st, r[1], r[2])
    if r[0] == 'S':       # bytes of a string
        emit(c, wref, ('seq', 'u8', deep(c.I, c.st, r), deep(c.I, c.st, ctx))); return True
    if r[0] == 'O' and r[1] == 'wbuf':
        ems = r[2]
        if not r[3] and aligned(ems): raise Undec('unfinished buffer')
        if meta and (meta[1] != 0 or c.st.f.norm(meta[2]) != c.st.f.norm(seq_len(c, r))):
            if c.st.f.const(meta[2]) != 0: emit(c, wref, ('seq', 'u8', ('sub', deep(c.I, c.st, r), meta[1], c.st.f.norm(meta[2])), deep(c.I, c.st, ctx)))
            return True
        for e in ems: emit(c, wref, e)
        return True
    if r[0] == 'O' and r[1] == 'tail':
        if meta and meta[1] != 0: raise Undec('part of a tail')
        d = deep(c.I, c.st, r)
        if meta: d = ('sub', d, 0, c.st.f.norm(meta[2]))
        emit(c, wref, ('seq', 'u8', d, deep(c.I, c.st, ctx)))
        return True
    if r[0] == 'Y':
        t = c.I.p.t(r[1])
        if t['k'] == 'array': return False
        if t['k'] == 'slice' or is_vec(t):
            et = c.I.elemty(r[1])
            n = c.I.seqlen(r[2])
            if c.st.f.const(n) == 0: return True
            d = deep(c.I, c.st, r)
            if meta and (meta[1] != 0 or c.st.f.norm(meta[2]) != c.st.f.norm(n)): d = ('sub', d, meta[1], c.st.f.norm(meta[2]))
            emit(c, wref, ('seq', c.I.p.name(et), d, deep(c.I, c.st, ctx)))
            return True
    if r[0] in ('L', 'Q') and all(x[0] == 'I' and x[1] == 8 for x in r[1]) and ctx == UNIT:
        k = len(r[1]); s0 = 0
        if meta:
            k = c.st.f.const(meta[2]); s0 = meta[1]
            if k is None: raise Undec('slice length')
        if k: emit(c, wref, ('bits', cat(*r[1][s0:s0 + k])))
        return True
    return False
SW = r"deku::impls::(vec|slice)::<impl deku::DekuWriter<Ctx> for (.*)>::to_writer$"
@mr(SW)
def vec_write(c):
    get_writer(c, c.a[1])
    fl = wfail(c)
    if seq_write(c, c.a[0], c.a[1], c.a[2] if len(c.a) > 2 else UNIT, None): return [(c.st, 'ret', c.ok()), fl]
    return None
@mr(r"<&T as deku::DekuWriter<Ctx>>::to_writer$|deku::<impl deku::DekuWriter<Ctx> for &T>::to_writer$")
def ref_write(c):
    x = c.a[0]
    y = c.I.load(c.st, x[1], x[2])
    if y[0] == 'R' and y[3] and y[3] != 'str':
        fl = wfail(c)
        if seq_write(c, y, c.a[1], c.a[2] if len(c.a) > 2 else UNIT, None): return [(c.st, 'ret', c.ok()), fl]
    return None
@m('std::io::Cursor::new', 'deku::no_std_io::Cursor::new')
def cursor_new(c): return c.ret(('O', 'cur', c.a[0]))
@m('std::io::Cursor::get_mut', 'std::io::Cursor::get_ref')
def cursor_get(c):
    r = c.a[0]; v = c.I.load(c.st, r[1], r[2])
    if v[0] != 'O' or v[1] != 'cur': raise Undec('cursor')
    if v[2][0] == 'R': return c.ret(('R', r[1], r[2] + (('cur',),), None))
    cell = c.st.new(v[2])
    return c.ret(('R', cell, (), None))
@m('std::io::Cursor::into_inner')
def cursor_into(c):
    v = c.a[0]
    if v[0] != 'O' or v[1] != 'cur': raise Undec('cursor')
    return c.ret(v[2])

# ------------------------------------------------------------------ vec / slice
def blen(c, v):
    ems = v[2]
    if not v[3] and aligned(ems): raise Undec('unfinished buffer length')
    if all(e[0] == 'bits' for e in ems): return K(64, sum(e[1][1] for e in ems) // 8)
    k = ('buflen', em_norm(c.st.f, ems))
    DOM[('v', k, 64)] = ((0, SEQMAX),)
    return V(k, 64)
def seq_len(c, v, meta=None):
    if meta and meta != 'str': return meta[2]
    if v[0] in ('L', 'Q'): return K(64, len(v[1]))
    if v[0] == 'O' and v[1] == 'wbuf': return blen(c, v)
    if v[0] == 'Y': return c.I.seqlen(v[2])
    if v[0] == 'S': return slen(c, v)
    raise Undec('length of %s' % (v[:2],))
def slen(c, v):
    d = deep(c.I, c.st, v)
    n = 0; sy = []
    for q in d[1]:
        if q[0] == 'l': n += len(q[1].encode())
        else: sy.append(q)
    if not sy: return K(64, n)
    k = ('slen', tuple(sy))
    if len(sy) == 1 and sy[0][0] == 'substr' and not n: return op(c.st.f, 'sub', 64, sy[0][3], sy[0][2])
    if len(sy) == 1 and sy[0][0] == 'utf8': 
        x = sy[0][1]
        if x[0] == 'Q' and not n: return K(64, len(x[1]))
    DOM[('v', k, 64)] = ((0, SEQMAX),)
    return op(c.st.f, 'add', 64, V(k, 64), K(64, n))
def tgt(c, r):
    """follow references to the sequence itself -> (ref to it, value, slice meta)"""
    meta = None
    while True:
        v = c.I.load(c.st, r[1], r[2])
        if r[3] and r[3] != 'str': meta = r[3]
        if v[0] == 'R': r = v; continue
        return r, v, meta
@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def vec_new(c): return c.ret(('Q', ()))
@m('std::vec::Vec::len', 'std::slice::<impl [T]>::len', 'core::slice::<impl [T]>::len', 'std::str::<impl str>::len', 'core::str::<impl str>::len', 'std::string::String::len')
def vlen(c):
    r, v, meta = tgt(c, c.a[0])
    return c.ret(seq_len(c, v, meta))
@m('std::vec::Vec::is_empty', 'std::slice::<impl [T]>::is_empty', 'std::str::<impl str>::is_empty', 'std::string::String::is_empty')
def vempty(c):
    r, v, meta = tgt(c, c.a[0])
    n = seq_len(c, v, meta)
    return c.ret(op(c.st.f, 'eq', 1, n, K(64, 0)))
def vec_conc(c, r, v):
    if v[0] == 'Q': return v
    if v[0] == 'L': return ('Q', v[1])
    if v[0] == 'Y': return c.I.conc(c.st, v)
    if v[0] == 'O' and v[1] == 'wbuf' and all(e[0] == 'bits' for e in v[2]):
        w = cat(*[e[1] for e in v[2]]) if v[2] else ('I', 0, ())
        return ('Q', tuple(sl(w, w[1] - 8 - i, 8) for i in range(0, w[1], 8)))
    raise Undec('vector value %s' % (v[:2],))
@m('std::vec::Vec::push')
def vpush(c):
    r, v, meta = tgt(c, c.a[0])
    v = vec_conc(c, r, v)
    c.I.store(c.st, r[1], r[2], ('Q', v[1] + (c.a[1],)))
    return c.ret(UNIT)
@m('std::vec::Vec::pop')
def vpop(c):
    r, v, meta = tgt(c, c.a[0])
    v = vec_conc(c, r, v)
    if not v[1]: return c.ret(c.variant('None'))
    c.I.store(c.st, r[1], r[2], ('Q', v[1][:-1]))
    return c.ret(c.variant('Some', v[1][-1]))
@m('std::vec::Vec::truncate')
def vtrunc(c):
    r, v, meta = tgt(c, c.a[0])
    n = need(c.st.f, c.a[1], 70)
    if n is None:
        sh = op(c.st.f, 'lt', 1, c.a[1], seq_len(c, v)); b = c.st.f.const(sh)
        if b is None: raise Fork(sh, [((0, 0),), ((1, 1),)])
        if b == 0: return c.ret(UNIT)
        n = seqneed(c.I, c.st, c.a[1])
    v = vec_conc(c, r, v)
    c.I.store(c.st, r[1], r[2], ('Q', v[1][:n]))
    return c.ret(UNIT)
@m('std::vec::Vec::extend_from_slice')
def vextend(c):
    r, v, meta = tgt(c, c.a[0])
    v = vec_conc(c, r, v)
    r2, v2, m2 = tgt(c, c.a[1])
    v2 = slice_conc(c, v2, m2)
    c.I.store(c.st, r[1], r[2], ('Q', v[1] + v2[1]))
    return c.ret(UNIT)
def slice_conc(c, v, meta):
    if v[0] == 'Y':
        n = meta[2] if meta else c.I.seqlen(v[2])
        k = seqneed(c.I, c.st, n)
        et = c.I.elemty(v[1]); s0 = meta[1] if meta else 0
        return ('Q', tuple(c.I.elem(v, et, s0 + i) for i in range(k)))
    if v[0] in ('L', 'Q'):
        if meta:
            k = seqneed(c.I, c.st, meta[2])
            return ('Q', v[1][meta[1]:meta[1] + k])
        return ('Q', v[1])
    return vec_conc(c, None, v)
def seqneed(I, st, n):
    """small constant value of a length, splitting on 0..seqk; longer sequences are cut"""
    v = st.f.const(n)
    if v is not None:
        if v > 300: raise Cut('long sequence')
        return v
    r = st.f.rng(n); k = I.seqk
    sets = [((x, x),) for x in range(0, k + 1) if ihas(r, x)]
    big = iand(r, ((k + 1, mask(64)),))
    if not sets: raise Cut('sequence longer than %d' % k)
    if big: sets.append(big)
    raise Fork(n, sets)
@m('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice',
   '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def vderef(c):
    r, v, meta = tgt(c, c.a[0])
    return c.ret(('R', r[1], r[2], ('sl', 0, seq_len(c, v, None))))
@m('<std::string::String as std::ops::Deref>::deref', 'std::string::String::as_str', '<std::string::String as std::convert::AsRef<str>>::as_ref', '<std::string::String as std::borrow::Borrow<str>>::borrow')
def sderef(c):
    r, v, meta = tgt(c, c.a[0])
    return c.ret(('R', r[1], r[2], 'str'))
@m('core::str::<impl str>::as_bytes', 'std::str::<impl str>::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes')
def as_bytes(c):
    if c.a[0][0] == 'S': v = c.a[0]; r = ('R', c.st.new(v), (), None)
    else: r, v, meta = tgt(c, c.a[0])
    if v[0] != 'S': raise Undec('as_bytes')
    bs = str_bytes(c, v)
    if 'into' in c.ip: 
        if bs is None: raise Undec('into_bytes')
        return c.ret(('Q', bs))
    if bs is not None: return c.ret(('R', ('kc', ('L', bs)), (), ('sl', 0, K(64, len(bs)))))
    d = deep(c.I, c.st, v)
    n = slen(c, v)
    return c.ret(('R', ('kc', ('Y', u8slice(c), ('len?', ('strbytes', d), n))), (), ('sl', 0, n)))
def u8slice(c):
    for i, t in enumerate(c.I.p.T):
        if t['k'] == 'slice' and c.I.p.name(t['ty']) == 'u8': return i
    raise Undec('no [u8]')
def str_bytes(c, v):
    o = []
    for q in v[1]:
        if q[0] == 'l': o += [K(8, x) for x in q[1].encode()]
        elif q[0] == 'utf8' and q[1][0] == 'Q': o += list(q[1][1])
        else: return None
    return tuple(o)
@m('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned')
def vclone(c):
    r, v, meta = tgt(c, c.a[0])
    if meta and v[0] in ('L', 'Q'):
        n = need(c.st.f, meta[2], 70)
        if n is None: raise Undec('clone of slice')
        return c.ret(('Q', v[1][meta[1]:meta[1] + n]))
    if v[0] == 'L': v = ('Q', v[1])
    if meta and v[0] == 'Y' and not (meta[1] == 0 and c.st.f.norm(meta[2]) == c.st.f.norm(c.I.seqlen(v[2]))): return c.ret(slice_conc(c, v, meta))
    if v[0] == 'Y' and not is_vec(c.I.p.t(v[1])):
        v = ('Y', c.dty, v[2])
    return c.ret(v)
@m('std::vec::from_elem')
def from_elem(c):
    n = need(c.st.f, c.a[1], 70)
    if n is None: n = seqneed(c.I, c.st, c.a[1])
    return c.ret(('Q', (c.a[0],) * n))
@mr(r"std::vec::partial_eq::<impl .*PartialEq.*>::eq$")
def vec_eq(c):
    r1, v1, m1 = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    return seq_eq(c, v1, m1, v2, m2)
def seq_eq(c, v1, m1, v2, m2):
    d1, d2 = deep(c.I, c.st, v1), deep(c.I, c.st, v2)
    n1, n2 = seq_len(c, v1, m1), seq_len(c, v2, m2)
    if v1[0] in ('L', 'Q') and v2[0] in ('L', 'Q') and all(x[0] == 'I' for x in v1[1] + v2[1]):
        a, b = slice_conc(c, v1, m1), slice_conc(c, v2, m2)
        if len(a[1]) != len(b[1]): return c.ret(FALSE)
        if not a[1]: return c.ret(TRUE)
        return c.ret(op(c.st.f, 'eq', 1, cat(*a[1]), cat(*b[1])))
    if d1 == d2 and m1 == m2: return c.ret(TRUE)
    return c.ret(V(('seqeq',) + tuple(sorted([(d1, m1), (d2, m2)], key=repr)), 1))
# iterators
@m('std::slice::<impl [T]>::iter', 'std::slice::<impl [T]>::iter_mut', "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
   "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter", "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
   "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter")
def slice_iter(c):
    r, v, meta = tgt(c, c.a[0])
    s0, n = (meta[1], meta[2]) if meta else (0, seq_len(c, v))
    return c.ret(('O', 'it', r, s0, n, 0))
@m("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next")
def iter_next(c):
    r = c.a[0]; it = c.I.load(c.st, r[1], r[2])
    if it[0] != 'O' or it[1] != 'it': raise Undec('iterator')
    _, _, q, s0, n, i = it
    k = seqneed(c.I, c.st, n)
    if i >= k: return c.ret(c.variant('None'))
    c.I.store(c.st, r[1], r[2], ('O', 'it', q, s0, n, i + 1))
    return c.ret(c.variant('Some', ('R', q[1], q[2] + (('e', s0 + i),), None)))
@m("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back", "<std::slice::IterMut<'a, T> as std::iter::DoubleEndedIterator>::next_back")
def iter_next_back(c):
    r = c.a[0]; it = c.I.load(c.st, r[1], r[2])
    if it[0] != 'O' or it[1] != 'it': raise Undec('iterator')
    _, _, q, s0, n, i = it
    k = seqneed(c.I, c.st, n)
    if i >= k: return c.ret(c.variant('None'))
    c.I.store(c.st, r[1], r[2], ('O', 'it', q, s0, K(64, k - 1), i))
    return c.ret(c.variant('Some', ('R', q[1], q[2] + (('e', s0 + k - 1),), None)))
@m("<std::slice::Iter<T> as std::clone::Clone>::clone", "<std::slice::Iter<'_, T> as std::clone::Clone>::clone")
def iter_clone(c): return c.ret(c.deref(c.a[0]))
@m('std::slice::<impl [T]>::last')
def slice_last(c):
    r, v, meta = tgt(c, c.a[0])
    n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    k = seqneed(c.I, c.st, n)
    if k == 0: return c.ret(c.variant('None'))
    return c.ret(c.variant('Some', ('R', r[1], r[2] + (('e', s0 + k - 1),), None)))
@m('std::slice::<impl [T]>::first')
def slice_first(c):
    r, v, meta = tgt(c, c.a[0])
    n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    z = c.st.f.const(op(c.st.f, 'eq', 1, n, K(64, 0)))
    if z is None: raise Fork(n, [((0, 0),), ((1, mask(64)),)])
    if z: return c.ret(c.variant('None'))
    return c.ret(c.variant('Some', ('R', r[1], r[2] + (('e', s0),), None)))
def usz(c, v): return v
def range_of(c, ty, v, n):
    """index value -> (lo, hi) words, or None"""
    nm = c.I.p.t(ty)['path'].split('::')[-1] if c.I.p.t(ty)['k'] == 'adt' else None
    if v[0] == 'Y': v = c.I.expand(c.st, v)
    if nm == 'Range': return v[3][0], v[3][1]
    if nm == 'RangeFrom': return v[3][0], n
    if nm == 'RangeTo': return K(64, 0), v[3][0]
    if nm == 'RangeFull': return K(64, 0), n
    if nm == 'RangeInclusive': return v[3][0], op(c.st.f, 'add', 64, v[3][1], K(64, 1))
    if nm == 'RangeToInclusive': return K(64, 0), op(c.st.f, 'add', 64, v[3][0], K(64, 1))
    return None
@mr(r"(std|core)::slice::index::<impl .*Index(Mut)?<I> for \[T\]>::index(_mut)?$|(std|core)::array::<impl .*Index(Mut)?<I> for \[T; N\]>::index(_mut)?$|<(std|alloc)::vec::Vec<T, A> as .*Index(Mut)?<I>>::index(_mut)?$")
def slice_index(c):
    r, v, meta = tgt(c, c.a[0])
    n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    ity = c.ca['args'][1]
    f = c.st.f
    if c.a[1][0] == 'I':
        inb = op(f, 'lt', 1, c.a[1], n); b = f.const(inb)
        if b is None: raise Fork(inb, [((0, 0),), ((1, 1),)])
        if b == 0: return [c.panic('index out of bounds')]
        i = need(f, c.a[1], 70)
        if i is None: raise Undec('symbolic index')
        return c.ret(('R', r[1], r[2] + (('e', s0 + i),), None))
    rg = range_of(c, ity, c.a[1], n)
    if rg is None: raise Undec('index type')
    lo, hi = f.norm(rg[0]), f.norm(rg[1])
    for bad in (op(f, 'lt', 1, hi, lo), op(f, 'lt', 1, n, hi)):
        if brbound(c, bad, lo, hi, n): continue
        b = f.const(bad)
        if b is None: raise Fork(bad, [((0, 0),), ((1, 1),)])
        if b == 1: return [c.panic('slice index out of range')]
    l = f.const(lo)
    if l is None:
        return c.ret(('R', ('kc', ('O', 'tail', deep(c.I, c.st, v), s0, lo, hi)), (), ('sl', 0, op(f, 'sub', 64, hi, lo))))
    return c.ret(('R', r[1], r[2], ('sl', s0 + l, op(f, 'sub', 64, hi, lo))))
def brbound(c, bad, lo, hi, n):
    """bits_read / 8 never exceeds the length of the slice the reader reads from"""
    def isbr(x):
        ps = [q for q in x[2] if q[0] != 'k']
        return len(ps) == 1 and ps[0][0] == 'b' and ps[0][1][0] == 'br'
    return isbr(lo) and (hi == n)
@mr(r"(std|core)::slice::<impl \[T\]>::get(_mut)?$|(std|core)::slice::<impl \[T\]>::get::<I>$")
def slice_get(c):
    r, v, meta = tgt(c, c.a[0])
    n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    f = c.st.f
    if c.a[1][0] == 'I':
        inb = op(f, 'lt', 1, c.a[1], n); b = f.const(inb)
        if b is None: raise Fork(inb, [((0, 0),), ((1, 1),)])
        if b == 0: return c.ret(c.variant('None'))
        i = need(f, c.a[1], 70)
        if i is None: raise Undec('symbolic index')
        return c.ret(c.variant('Some', ('R', r[1], r[2] + (('e', s0 + i),), None)))
    rg = range_of(c, c.ca['args'][1], c.a[1], n)
    if rg is None: raise Undec('get index')
    lo, hi = rg
    for bad in (op(f, 'lt', 1, hi, lo), op(f, 'lt', 1, n, hi)):
        b = f.const(bad)
        if b is None: raise Fork(bad, [((0, 0),), ((1, 1),)])
        if b == 1: return c.ret(c.variant('None'))
    l = f.const(lo)
    if l is None:
        return c.ret(c.variant('Some', ('R', ('kc', ('O', 'tail', deep(c.I, c.st, v), s0, f.norm(lo), f.norm(hi))), (), ('sl', 0, op(f, 'sub', 64, hi, lo)))))
    return c.ret(c.variant('Some', ('R', r[1], r[2], ('sl', s0 + l, op(f, 'sub', 64, hi, lo)))))
@m('std::slice::<impl [T]>::clone_from_slice', 'std::slice::<impl [T]>::copy_from_slice')
def copy_slice(c):
    r, v, meta = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    f = c.st.f
    n = meta[2] if meta else seq_len(c, v); n2 = m2[2] if m2 else seq_len(c, v2)
    e = op(f, 'eq', 1, n, n2); b = f.const(e)
    if b is None: raise Fork(e, [((0, 0),), ((1, 1),)])
    if b == 0: return [c.panic('slice lengths differ')]
    k = f.const(n)
    if k is None: k = f.const(n2)
    if k is None:
        hi = ihi(f.rng(n))
        if hi <= 64: raise Fork(n, [((x, x),) for x in ienum(f.rng(n))])
        raise Undec('symbolic copy')
    src = slice_conc_n(c, v2, m2, k)
    s0 = meta[1] if meta else 0
    for i in range(k): c.I.store(c.st, r[1], r[2] + (('e', s0 + i),), src[i])
    return c.ret(UNIT)
def slice_conc_n(c, v, meta, k):
    s0 = meta[1] if meta else 0
    if v[0] in ('L', 'Q'): return v[1][s0:s0 + k]
    if v[0] == 'Y':
        et = c.I.elemty(v[1])
        return tuple(c.I.elem(v, et, s0 + i) for i in range(k))
    raise Undec('copy source')
@m('std::slice::<impl [T]>::as_mut_ptr', 'std::slice::<impl [T]>::as_ptr')
def as_ptr(c):
    r, v, meta = tgt(c, c.a[0])
    return c.ret(('R', r[1], r[2] + (('e', meta[1] if meta else 0),), None))
@m('std::slice::from_raw_parts_mut', 'std::slice::from_raw_parts')
def raw_parts(c):
    p = c.a[0]
    if p[0] != 'R' or not p[2] or p[2][-1][0] != 'e': raise Undec('raw slice')
    return c.ret(('R', p[1], p[2][:-1], ('sl', p[2][-1][1], c.a[1])))
@m('std::ptr::drop_in_place')
def drop_in_place(c):
    r = c.a[0]
    x = c.I.load(c.st, r[1], r[2])
    if r[3]:
        n = c.st.f.const(r[3][2])
        if n is None: raise Undec('drop count')
        el = x[1]
        bad = [i for i in range(r[3][1], r[3][1] + n) if i >= len(el) or uninit(el[i])]
        c.st.ev += (('dropped', r[1], r[3][1], n, tuple(bad), sum(1 for y in el if not uninit(y))),)
    else: slot_drop(c, r)
    return c.ret(UNIT)
def slot_drop(c, r):
    q = r[2]
    if q and q[-1] == ('f', 1): q = q[:-1]
    if q and q[-1][0] == 'e':
        arr = c.I.load(c.st, r[1], q[:-1]); i = q[-1][1]
        while arr[0] == 'N': arr = arr[1]
        if arr[0] == 'L' and arr[1] and any(y[0] == 'N' for y in arr[1]):
            c.st.ev += (('dropped', r[1], i, 1, (i,) if i >= len(arr[1]) or uninit(arr[1][i]) else (), sum(1 for y in arr[1] if not uninit(y))),)
@m('std::mem::MaybeUninit::assume_init_drop')
def mu_drop(c): slot_drop(c, c.a[0]); return c.ret(UNIT)
@m('std::mem::MaybeUninit::uninit_array')
def mu_arr(c):
    t = c.I.p.t(c.dty); return c.ret(('L', (('N', U),) * t['len']))
def uninit(v): return v[0] == 'U' or (v[0] == 'N' and uninit(v[1]))
@m('std::mem::forget', 'core::mem::forget')
def forget(c):
    c.st.ev += (('forget',),)
    return c.ret(UNIT)
@m('std::mem::drop')
def mdrop(c): return c.ret(UNIT)
@m('std::mem::MaybeUninit::uninit')
def mu_uninit(c):
    t = c.I.p.t(c.I.p.t(c.dty)['args'][0])
    if t['k'] == 'array': return c.ret(('N', ('L', (('N', U),) * t['len'])))
    return c.ret(('N', U))
@m('std::mem::MaybeUninit::new')
def mu_new(c): return c.ret(('N', c.a[0]))
@m('std::mem::MaybeUninit::write')
def mu_write(c):
    r = c.a[0]
    c.I.store(c.st, r[1], r[2], ('N', c.a[1]))
    return c.ret(('R', r[1], r[2] + (('f', 1),), None))
@m('std::mem::MaybeUninit::assume_init')
def mu_assume(c):
    v = c.a[0]
    if v[0] != 'N': raise Undec('assume_init')
    if uninit(v):
        c.st.ev += (('uninit-read', c.sp),)
        return c.ret(U)
    return c.ret(v[1])
@m('std::mem::MaybeUninit::as_mut_ptr', 'std::mem::MaybeUninit::as_ptr', 'std::mem::MaybeUninit::assume_init_mut', 'std::mem::MaybeUninit::assume_init_ref')
def mu_ptr(c):
    r = c.a[0]
    return c.ret(('R', r[1], r[2] + (('f', 1),), None))
@m('std::mem::replace', 'std::ptr::replace')
def mem_replace(c):
    r = c.a[0]; old = c.I.load(c.st, r[1], r[2])
    c.I.store(c.st, r[1], r[2], c.a[1])
    return c.ret(old)
@m('std::mem::swap')
def mem_swap(c):
    r, q = c.a; x, y = c.I.load(c.st, r[1], r[2]), c.I.load(c.st, q[1], q[2])
    c.I.store(c.st, r[1], r[2], y); c.I.store(c.st, q[1], q[2], x)
    return c.ret(UNIT)
@m('std::mem::take')
def mem_take(c):
    r = c.a[0]; old = c.I.load(c.st, r[1], r[2])
    t = c.I.p.t(c.dty)
    if is_vec(t): new = ('Q', ())
    elif is_string(t): new = ('S', ())
    elif c.I.p.w(c.dty): new = K(c.I.p.w(c.dty), 0)
    elif t['k'] == 'adt' and t['path'].endswith('option::Option'): new = ('A', c.dty, 0, ())
    else: return None
    c.I.store(c.st, r[1], r[2], new)
    return c.ret(old)
@m('std::ptr::read', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def ptr_read(c):
    r = c.a[0]; v = c.I.load(c.st, r[1], r[2])
    if uninit(v): c.st.ev += (('uninit-read', c.sp),)
    return c.ret(v)
@m('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def ptr_write(c):
    r = c.a[0]; c.I.store(c.st, r[1], r[2], c.a[1]); return c.ret(UNIT)
@mr(r"(std|core)::ptr::(const_ptr|mut_ptr)::<impl .*>::(cast|cast_mut|cast_const)$")
def ptr_cast(c): return c.ret(c.I.ptrcast(c.a[0], c.I.p.t(c.dty)))
@mr(r"(std|core)::ptr::(const_ptr|mut_ptr)::<impl .*>::(add|offset)$")
def ptr_add(c):
    n = need(c.st.f, c.a[1], 300); a = c.a[0]
    if n is None or a[0] != 'R' or not a[2] or a[2][-1][0] != 'e': raise Undec('pointer offset')
    return c.ret(('R', a[1], a[2][:-1] + (('e', a[2][-1][1] + n),), a[3]))
@m('std::array::<impl [T; N]>::map')
def arr_map(c):
    arr, f = c.a
    if arr[0] != 'L': raise Undec('array map')
    outs = [(c.st, ())]; bad = []
    for x in arr[1]:
        nxt = []
        for st, acc in outs:
            for o in c.I.callv(st, f, [x], c.I.p.t(c.dty)['ty'], c.sp, c.fr):
                if o[1] == 'ret': nxt.append((o[0], acc + (o[2],)))
                else: bad.append(o)
        outs = nxt
    return [(st, 'ret', ('L', acc)) for st, acc in outs] + bad
@m('std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice', 'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref')
def arr_slice(c):
    r = c.a[0]; v = c.I.load(c.st, r[1], r[2])
    return c.ret(('R', r[1], r[2], ('sl', 0, seq_len(c, v) if v[0] != 'Y' else K(64, c.I.p.t(v[1])['len']))))
@mr(r"std::array::<impl .*Default for \[T; .*\]>::default$")
def arr_default(c):
    t = c.I.p.t(c.dty); w = c.I.p.w(t['ty'])
    if w is None: return None
    return c.ret(('L', (K(w, 0),) * t['len']))
@mr(r"std::array::<impl .*Clone for \[T; N\]>::clone$|<T as std::array::SpecArrayClone>::clone$")
def arr_clone(c): return c.ret(c.deref(c.a[0]))
@mr(r"(std|core)::array::equality::<impl .*PartialEq.*>::eq$")
def arr_eq(c):
    r1, v1, m1 = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    return seq_eq(c, v1, m1, v2, m2)
@mr(r"(std|core)::slice::cmp::<impl .*PartialEq<\[U\]> for \[T\]>::eq$")
def sl_eq(c):
    r1, v1, m1 = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    return seq_eq(c, v1, m1, v2, m2)
@m('std::boxed::Box::new')
def box_new(c): return c.ret(('BX', c.st.new(c.a[0]), ()))
@m('std::boxed::Box::new_uninit')
def box_uninit(c):
    return c.ret(('BX', c.st.new(('N', U)), ()))
@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c):
    b = c.a[0]
    v = c.I.load(c.st, b[1], b[2])
    while v[0] == 'N': v = v[1]
    if v[0] == 'A': v = v[3][-1]
    if v[0] != 'L': raise Undec('vec! contents')
    return c.ret(('Q', v[1]))
@mr(r"(std|core)::iter::range::<impl .*Iterator for (std|core)::ops::Range<A>>::next$")
def range_next(c):
    r = c.a[0]; v = c.I.load(c.st, r[1], r[2])
    if v[0] == 'Y': v = c.I.expand(c.st, v)
    a, b = v[3]
    f = c.st.f
    l = op(f, 'lt', 1, a, b); k = f.const(l)
    if k is None:
        if kval(f.norm(a)) is not None: 
            d = op(f, 'sub', 64, zext(b, 64), zext(a, 64))
            seqneed(c.I, c.st, zext(b, 64))
        raise Fork(l, [((0, 0),), ((1, 1),)])
    if k == 0: return c.ret(c.variant('None'))
    c.I.store(c.st, r[1], r[2], ('A', v[1], v[2], (op(f, 'add', a[1], a, K(a[1], 1)), b)))
    return c.ret(c.variant('Some', a))
# collecting
@mr(r"<(std|alloc)::vec::Vec<T> as .*FromIterator<T>>::from_iter$")
def vec_from_iter(c): return collect(c, c.a[0], lambda el: ('Q', el))
def collect(c, it, wrap):
    ity = c.ca['args'][-1]
    key_ = '<%s as std::iter::Iterator>::next' % c.I.p.name(ity)
    cell = c.st.new(it)
    outs = [(c.st, ())]; done = []; n = 0
    oty = None
    while outs and n < 70:
        n += 1; nxt = []
        for st, acc in outs:
            rs = iter_call(c, st, cell, ity)
            for o in rs:
                if o[1] != 'ret': done.append(o); continue
                v = o[2]
                if v[0] == 'A' and c.I.p.vname(v[1], v[2]) == 'None': done.append((o[0], 'ret', wrap(acc)))
                elif v[0] == 'A': nxt.append((o[0], acc + (v[3][0],)))
                else: done.append((o[0], 'undec', 'iterator item'))
        outs = nxt
    return done
def iter_call(c, st, cell, ity):
    """Iterator::next on a value whose static type is ity"""
    nm = c.I.p.name(ity)
    cand = [k for k in c.I.p.F if k.endswith('as std::iter::Iterator>::next') and k.startswith('<' + nm)]
    it = st.c[cell]
    if it[0] == 'O' and it[1] == 'it': 
        raise Undec('collect over slice iterator')
    if not cand: return [(st, 'undec', 'next of ' + nm[:80])]
    return c.I.run(cand[0], [('R', cell, (), None)], st)

# ------------------------------------------------------------------ text
@m('std::fmt::Arguments::new')
def args_new(c):
    t = c.deref(c.a[0]); av = c.a[1]
    args = c.I.load(c.st, av[1], av[2])
    if t[0] != 'L' or args[0] != 'L': raise Undec('format template')
    bs = [kval(x) for x in t[1]]
    if any(b is None for b in bs): raise Undec('format template')
    bs = bytes(bs); i = 0; nxt = 0; ps = []
    while i < len(bs):
        n = bs[i]; i += 1
        if n == 0: break
        if n < 0x80: ps.append(('l', bs[i:i + n].decode())); i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8; i += 2
            ps.append(('l', bs[i:i + k].decode())); i += k
        elif n == 0xC0: ps.append(args[1][nxt]); nxt += 1
        else:
            fl = n & 0x3f; spec = []
            if fl & 1: spec.append(('flags', int.from_bytes(bs[i:i + 4], 'little'))); i += 4
            if fl & 2: spec.append(('width', int.from_bytes(bs[i:i + 2], 'little'))); i += 2
            if fl & 4: spec.append(('prec', int.from_bytes(bs[i:i + 2], 'little'))); i += 2
            if fl & 8: nxt = int.from_bytes(bs[i:i + 2], 'little'); i += 2
            ps.append(('spec', args[1][nxt], tuple(spec))); nxt += 1
    return [(st, 'ret', ('O', 'fa', x)) for st, x in render(c, c.st, ps)]
def render(c, st, ps):
    outs = [(st, ())]
    for q in ps:
        nxt = []
        for s_, acc in outs:
            if q[0] == 'l': nxt.append((s_, acc + (q,)))
            elif q[0] == 'O': nxt += [(s2, acc + x) for s2, x in render1(c, s_, q)]
            else: nxt += [(s2, acc + ((('fmt', q[2], x)),)) for s2, x in render1(c, s_, q[1])]
        outs = nxt
    return [(s_, sparts(a)) for s_, a in outs]
def render1(c, st, q):
    _, _, kind, ref, ty = q
    v = ref
    p = c.I.p
    while v[0] == 'R':
        v = c.I.load(st, v[1], v[2])
    t = ty
    while p.t(t)['k'] == 'ref': t = p.t(t)['ty']
    if v[0] == 'S' and kind == 'd': return [(st, v[1])]
    if v[0] == 'I':
        if kval(v) is not None and not p.signed(t) and p.t(t)['k'] == 'uint': return [(st, (('l', str(kval(v))),))]
        return [(st, (('num', p.name(t), deep(c.I, st, v)),))]
    if kind == 'd' and p.t(t)['k'] == 'adt' and p.t(t).get('local') and c.mo.o.get('display', True):
        key_ = '<%s as std::fmt::Display>::fmt' % p.name(t)
        if key_ in p.F:
            cell = st.new(('O', 'fmt', ()))
            r = ref
            while True:
                x = c.I.load(st, r[1], r[2])
                if x[0] == 'R': r = x
                else: break
            outs = []
            for o in c.I.run(key_, [r, ('R', cell, (), None)], st):
                if o[1] != 'ret': outs.append((o[0], (('opaque', o[1]),))); continue
                x = o[2]
                if x[0] == 'A' and p.vname(x[1], x[2]) == 'Err': continue
                outs.append((o[0], o[0].c[cell][2]))
            return outs
    return [(st, (('dbg' if kind == '?' else 'disp', p.name(t), deep(c.I, st, v)),))]
@m('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst')
def args_str(c): return c.ret(('O', 'fa', c.deref(c.a[0])[1]))
@m('std::fmt::rt::Argument::new_debug')
def arg_dbg(c): return c.ret(('O', 'arg', '?', c.a[0], c.ca['args'][0]))
@m('std::fmt::rt::Argument::new_display')
def arg_disp(c): return c.ret(('O', 'arg', 'd', c.a[0], c.ca['args'][0]))
@mr(r"fmt::rt::Argument::<'_>::new_(\w+)$")
def arg_other(c): return c.ret(('O', 'arg', c.ip.split('new_')[-1], c.a[0], c.ca['args'][0]))
@m('std::fmt::format', 'std::fmt::format::format_inner')
def fmt_format(c): return c.ret(('S', c.a[0][2]))
@m('std::fmt::Formatter::write_str')
def f_write_str(c): return fmt_out(c, c.a[0], c.deref(c.a[1])[1])
@m('std::fmt::Formatter::write_fmt')
def f_write_fmt(c): return fmt_out(c, c.a[0], c.a[1][2])
@m('std::fmt::Formatter::pad')
def f_pad(c): return fmt_out(c, c.a[0], c.deref(c.a[1])[1])
@m('std::fmt::Formatter::write_char', '<std::fmt::Formatter<\'_> as std::fmt::Write>::write_char')
def f_write_char(c):
    k = c.st.f.const(c.a[1])
    return fmt_out(c, c.a[0], (('l', chr(k)),) if k is not None else (('chr', c.a[1]),))
def fmt_out(c, r, parts):
    while True:
        v = c.I.load(c.st, r[1], r[2])
        if v[0] == 'R': r = v
        else: break
    if v[0] != 'O' or v[1] != 'fmt': raise Undec('formatter')
    fl = c.st.copy(); fl.ev += (('fail', 'fmt'),)
    c.I.store(c.st, r[1], r[2], ('O', 'fmt', sparts(v[2] + tuple(parts))))
    return [(c.st, 'ret', c.ok()), (fl, 'ret', c.variant('Err', UNIT))]
@mr(r"fmt::Formatter::<'a>::debug_|fmt::Formatter::debug_|fmt::builders::Debug")
def f_debug(c):
    r = c.a[0]
    return fmt_out(c, r, (('dbgbuild',) + tuple(deep(c.I, c.st, x) for x in c.a[1:] if x[0] in 'IASRTQLY'),))
@mr(r"<(T|str|std::string::String|alloc::string::String) as .*(ToString|ToOwned|SpecToString)>::(to_string|to_owned|spec_to_string)$|(std|alloc)::str::<impl .*ToOwned for str>::to_owned$|<(std|alloc)::string::String as .*From<&str>>::from$|(std|core)::str::<impl str>::to_string$|<(std|alloc)::string::String as .*From<.*Cow.*>>::from$|<(std|alloc)::string::String as (std|core)::str::FromStr>::from_str$")
def to_string(c):
    v = c.deref(c.a[0])
    if v[0] == 'A' and len(v[3]) == 1: v = c.deref(v[3][0])
    if v[0] == 'S': return c.ret(v)
    if v[0] == 'I' and 'ToString' in c.ip:
        ty = c.ca['args'][0]
        return c.ret(('S', (('num', c.I.p.name(ty), deep(c.I, c.st, v)),)))
    if c.ip.endswith('to_string'):
        return [(st, 'ret', ('S', x)) for st, x in render1(c, c.st, ('O', 'arg', 'd', c.a[0], c.ca['args'][0]))]
    return None
@m('std::string::String::new', '<std::string::String as std::default::Default>::default', 'std::string::String::with_capacity')
def s_new(c): return c.ret(('S', ()))
@m('std::string::String::push_str')
def push_str(c):
    r, v, meta = tgt(c, c.a[0])
    c.I.store(c.st, r[1], r[2], ('S', sparts(v[1] + c.deref(c.a[1])[1])))
    return c.ret(UNIT)
@m('std::string::String::push')
def s_push(c):
    r, v, meta = tgt(c, c.a[0]); k = c.st.f.const(c.a[1])
    if k is None: raise Undec('push of char')
    c.I.store(c.st, r[1], r[2], ('S', sparts(v[1] + (('l', chr(k)),))))
    return c.ret(UNIT)
@mr(r"<(std|alloc)::string::String as (std|core)::fmt::Write>::write_(str|fmt)$")
def s_write(c):
    r, v, meta = tgt(c, c.a[0])
    parts = c.a[1][2] if c.a[1][0] == 'O' else c.deref(c.a[1])[1]
    c.I.store(c.st, r[1], r[2], ('S', sparts(v[1] + parts)))
    return c.ret(c.ok())
@mr(r"<(std|alloc)::string::String as .*PartialEq.*>::eq$|(std|core)::str::traits::<impl .*PartialEq for str>::eq$|<str as .*PartialEq>::eq$|(std|alloc)::string::<impl .*PartialEq.*>::eq$|<(std|alloc)::string::String as .*PartialEq.*>::ne$")
def s_eq(c):
    a, b = deep(c.I, c.st, c.deref(c.a[0])), deep(c.I, c.st, c.deref(c.a[1]))
    ne = c.ip.endswith('ne')
    if a == b: return c.ret(K(1, not ne))
    if all(q[0] == 'l' for q in a[1] + b[1]): return c.ret(K(1, (''.join(q[1] for q in a[1]) == ''.join(q[1] for q in b[1])) != ne))
    e = V(('seqeq',) + tuple(sorted([(a, None), (b, None)], key=repr)), 1)
    return c.ret(op(c.st.f, 'not', 1, e) if ne else e)
@m('std::string::String::from_utf8', 'std::str::from_utf8', 'std::str::converts::from_utf8')
def from_utf8(c):
    v = c.a[0]
    byref = v[0] == 'R'
    if byref:
        r, x, meta = tgt(c, v); v = slice_conc(c, x, meta)
    d = deep(c.I, c.st, v)
    if d[0] == 'Q' and all(kval(x) is not None for x in d[1]):
        try: s_ = bytes(kval(x) for x in d[1]).decode(); return c.ret(c.ok(('S', (('l', s_),))))
        except UnicodeDecodeError: return c.ret(c.err('utf8', d))
    cond = V(('utf8ok', d), 1)
    outs = []
    u = c.st.copy()
    if u.f.refine(cond, ((1, 1),)):
        sv = ('S', (('utf8', d),))
        outs.append((u, 'ret', c.ok(('R', ('kc', sv), (), 'str') if byref else sv)))
    u = c.st.copy()
    if u.f.refine(cond, ((0, 0),)):
        u.ev += (('reject', 'utf8'),)
        outs.append((u, 'ret', c.err('utf8', d)))
    return outs
@mr(r"(std|alloc)::string::String::from_utf8_lossy$")
def utf8_lossy(c):
    r, x, meta = tgt(c, c.a[0])
    d = deep(c.I, c.st, slice_conc(c, x, meta))
    cond = V(('utf8ok', d), 1)
    outs = []
    u = c.st.copy()
    if u.f.refine(cond, ((1, 1),)): outs.append((u, 'ret', c.variant('Borrowed', ('R', ('kc', ('S', (('utf8', d),))), (), 'str'))))
    u = c.st.copy()
    if u.f.refine(cond, ((0, 0),)): outs.append((u, 'ret', c.variant('Owned', ('S', (('lossy', d),)))))
    return outs
@mr(r"(std|alloc)::vec::Vec::<T, A>::capacity$|(std|alloc)::string::String::capacity$")
def capacity(c):
    r, x, meta = tgt(c, c.a[0])
    return c.ret(V(('cap', deep(c.I, c.st, x)), 64))
@m('std::io::Error::kind')
def io_kind(c): return c.ret(c.I.sym(c.dty, ('iokind',)))
@m('std::hint::must_use', 'std::hint::black_box')
def must_use(c): return c.ret(c.a[0])
@m('<T as std::convert::From<T>>::from', '<T as std::borrow::Borrow<T>>::borrow', '<T as std::borrow::BorrowMut<T>>::borrow_mut')
def ident(c): return c.ret(c.a[0])

# ------------------------------------------------------------------ panics
@mr(r"(std|core)::panicking::|overflow_panic::|::panic_for_nonpositive_argument|(std|core|alloc)::rt::(begin_panic|panic_)|(std|core)::(option|result)::(unwrap|expect)_failed|(std|core)::slice::.*(_fail|_fail_rt)$|(std|core)::str::slice_error_fail|(std|alloc)::raw_vec::(capacity_overflow|handle_error)|std::process::abort|(std|core)::cell::panic_")
def panicking(c):
    msg = ''
    for x in c.a:
        try:
            y = c.deref(x)
            if y[0] == 'S' and y[1] and y[1][0][0] == 'l': msg = y[1][0][1]
            elif y[0] == 'O' and y[1] == 'fa' and y[2]: msg = str(y[2][0][1])
        except Undec: pass
    return [c.panic('%s %s' % (strip_generics(c.ip), msg))]

# ------------------------------------------------------------------ intrinsics
@mr(r"(std|core)::num::<impl (u8|u16|u32|u64|usize)>::pow$")
def num_pow(c):
    b = c.st.f.const(c.a[0]); w = c.a[0][1]
    if b is None: return None
    e = need(c.st.f, c.a[1], 64)
    if e is None: return None
    if e > 4096: e = 4096
    r = b ** e
    if r > mask(w): return [c.panic('attempt to multiply with overflow (pow)')]
    return c.ret(K(w, r))
INTR = {}
def intr(*n):
    def d(f):
        for x in n: INTR[x] = f
        return f
    return d
def sg(c): return c.I.p.signed(c.ca['args'][0])
@intr('wrapping_add')
def _wa(c): return c.ret(op(c.st.f, 'add', c.a[0][1], *c.a))
@intr('wrapping_sub')
def _ws(c): return c.ret(op(c.st.f, 'sub', c.a[0][1], *c.a))
@intr('wrapping_mul')
def _wm(c): return c.ret(op(c.st.f, 'mul', c.a[0][1], *c.a))
def ovop(nm):
    def f(c):
        r = c.I.arith(c.st, nm + 'WithOverflow', c.a[0], c.a[1], c.a[0][1], sg(c))
        return c.ret(r)
    return f
for _n, _k in (('add_with_overflow', 'Add'), ('sub_with_overflow', 'Sub'), ('mul_with_overflow', 'Mul')): INTR[_n] = ovop(_k)
def plain(nm):
    def f(c): return c.ret(c.I.arith(c.st, nm, c.a[0], c.a[1], c.a[0][1], sg(c)))
    return f
for _n, _k in (('unchecked_add', 'Add'), ('unchecked_sub', 'Sub'), ('unchecked_mul', 'Mul'), ('unchecked_div', 'Div'), ('unchecked_rem', 'Rem'),
               ('exact_div', 'Div'), ('unchecked_shl', 'Shl'), ('unchecked_shr', 'Shr')): INTR[_n] = plain(_k)
@intr('saturating_add')
def _sa(c):
    if sg(c): raise Undec('signed saturation')
    w = c.a[0][1]
    o = c.I.ovf(c.st, 'add', c.a[0], c.a[1], w, False, None); k = c.st.f.const(o)
    if k is None: raise Fork(o, [((0, 0),), ((1, 1),)])
    return c.ret(K(w, mask(w)) if k else op(c.st.f, 'add', w, *c.a))
@intr('saturating_sub')
def _ss(c):
    if sg(c): raise Undec('signed saturation')
    w = c.a[0][1]
    o = op(c.st.f, 'lt', 1, c.a[0], c.a[1]); k = c.st.f.const(o)
    if k is None: raise Fork(o, [((0, 0),), ((1, 1),)])
    return c.ret(K(w, 0) if k else op(c.st.f, 'sub', w, *c.a))
@intr('ctlz', 'ctlz_nonzero', 'cttz', 'cttz_nonzero', 'ctpop')
def _ct(c):
    nm = c.ip.split('::')[-1]; a = c.a[0]; w = a[1]
    k = c.st.f.const(a)
    if k is not None:
        r = {'ctlz': w - k.bit_length(), 'ctlz_nonzero': w - k.bit_length(), 'ctpop': bin(k).count('1')}.get(nm)
        if r is None: r = (k & -k).bit_length() - 1 if k else w
        return c.ret(K(32, r))
    if nm.startswith('ctlz'):
        # split on the position of the leading bit
        r = c.st.f.rng(a); sets = []
        for b in range(w + 1):
            lo, hi = (0, 0) if b == 0 else (1 << (b - 1), (1 << b) - 1)
            x = iand(r, ((lo, hi),))
            if x: sets.append(x)
        if len(sets) == 1:
            return c.ret(K(32, w - ihi(sets[0]).bit_length()))
        raise Fork(a, sets)
    if nm.startswith('cttz'):
        for i in range(w):
            b = c.st.f.const(sl(a, i, 1))
            if b is None: raise Fork(sl(a, i, 1), [((0, 0),), ((1, 1),)])
            if b == 1: return c.ret(K(32, i))
        return c.ret(K(32, w))
    return c.ret(mkop('ctpop', 32, a))
@intr('bswap')
def _bs(c): return c.ret(bswap(c.a[0]))
@intr('bitreverse')
def _br(c): return c.ret(cat(*[sl(c.a[0], i, 1) for i in range(c.a[0][1])]))
@intr('likely', 'unlikely', 'black_box')
def _lk(c): return c.ret(c.a[0])
@intr('assume', 'cold_path', 'assert_inhabited', 'assert_zero_valid')
def _as(c): return c.ret(UNIT)
@intr('transmute', 'transmute_unchecked')
def _tm(c): return c.ret(c.I.transmute(c.st, c.a[0], c.dty))
@intr('size_of', 'min_align_of', 'align_of')
def _so(c):
    w = c.I.p.w(c.ca['args'][0])
    if w is None: raise Undec('size_of')
    return c.ret(K(64, max(w // 8, 1)))
@intr('integer_min')
def _imin(c): return c.ret(op(c.st.f, 'min', c.a[0][1], *c.a))
@intr('integer_max')
def _imax(c): return c.ret(op(c.st.f, 'max', c.a[0][1], *c.a))
@intr('rotate_left', 'rotate_right')
def _rot(c):
    n = need(c.st.f, c.a[1], 130); a = c.a[0]; w = a[1]
    if n is None: raise Undec('rotate')
    n %= w
    if 'right' in c.ip: n = (w - n) % w
    return c.ret(cat(sl(a, 0, w - n), sl(a, w - n, n)) if n else a)
@intr('discriminant_value')
def _dv(c):
    v = c.deref(c.a[0]); w = c.I.p.w(c.dty)
    if v[0] == 'A':
        t = c.I.p.t(v[1])
        return c.ret(K(w, int(t['variants'][v[2]]['d']) if t['adt'] == 'enum' else 0))
    if v[0] == 'Y': return c.ret(zext(c.I.discw(v), w))
    raise Undec('discriminant_value')
@intr('three_way_compare')
def _tw(c): return c.ret(c.I.arith(c.st, 'Cmp', c.a[0], c.a[1], c.a[0][1], sg(c), c.dty))
@intr('ub_checks', 'overflow_checks', 'contract_checks')
def _uc(c): return c.ret(FALSE)
@intr('read_via_copy', 'volatile_load')
def _rvc(c): return ptr_read(c)
@intr('write_via_move')
def _wvm(c): return ptr_write(c)
@intr('abort', 'unreachable')
def _ab(c): return [c.panic('abort')]
@intr('raw_eq')
def _re(c):
    r1, v1, m1 = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    return seq_eq(c, v1, m1, v2, m2)
@intr('ptr_metadata')
def _pm(c):
    if c.a[0][0] == 'R' and c.a[0][3] and c.a[0][3] != 'str': return c.ret(c.a[0][3][2])
    return c.ret(UNIT)
@intr('needs_drop')
def _nd(c): return c.ret(FALSE)
@intr('is_val_statically_known')
def _ivk(c): return c.ret(FALSE)
@intr('disjoint_bitor')
def _db(c): return c.ret(op(c.st.f, 'or', c.a[0][1], *c.a))
@intr('select_unpredictable')
def _su(c):
    k = c.st.f.const(c.a[0])
    if k is None: raise Fork(c.a[0], [((0, 0),), ((1, 1),)])
    return c.ret(c.a[1] if k else c.a[2])
