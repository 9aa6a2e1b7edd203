"""Text operations as pure functions of their arguments: a piece of text stays a term ('substr' / 'sfn' part), a question about it an
atom, until both are compared.  `apply` is what they mean on concrete text (used by evalr)."""
from models import *

def apply(nm, s, a):
    """s: text; a: arguments (text or numbers)"""
    def pred(x): return x if isinstance(x, str) else chr(x)
    if nm in WS: return getattr(s, WS[nm])(WHITE)
    p = pred(a[0]) if a else None
    if nm in ('trim_start_matches', 'trim_matches', 'strip_prefix', 'trim_prefix'):
        if p == '': return s
        once = nm in ('strip_prefix', 'trim_prefix')
        while s.startswith(p):
            s = s[len(p):]
            if once: break
    if nm in ('trim_end_matches', 'trim_matches', 'strip_suffix', 'trim_suffix'):
        if p == '': return s
        once = nm in ('strip_suffix', 'trim_suffix')
        while s.endswith(p):
            s = s[:-len(p)]
            if once: break
    if nm == 'replace': return s.replace(p, pred(a[1]))
    if nm == 'to_lowercase': return s.lower()
    if nm == 'to_uppercase': return s.upper()
    if nm == 'to_ascii_lowercase': return ''.join(chr(ord(x) + 32) if 'A' <= x <= 'Z' else x for x in s)
    if nm == 'to_ascii_uppercase': return ''.join(chr(ord(x) - 32) if 'a' <= x <= 'z' else x for x in s)
    if nm == 'starts_with': return s.startswith(p)
    if nm == 'ends_with': return s.endswith(p)
    if nm == 'contains': return p in s
    if nm == 'eq_ignore_ascii_case': return apply('to_ascii_lowercase', s, ()) == apply('to_ascii_lowercase', p, ())
    if nm == 'is_ascii': return s.isascii()
    if nm == 'find': i = s.find(p); return len(s[:i].encode()) if i >= 0 else 0
    if nm == 'rfind': i = s.rfind(p); return len(s[:i].encode()) if i >= 0 else 0
    if nm == 'repeat': return s * a[0]
    if nm == 'nchars': return len(s)
    return s
WHITE = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
WS = {'trim': 'strip', 'trim_start': 'lstrip', 'trim_end': 'rstrip', 'trim_left': 'lstrip', 'trim_right': 'rstrip'}

def txt(c, x):
    d = deep(c.I, c.st, c.deref(x))
    if d[0] != 'S': raise Undec('text')
    return d
def lit(d):
    if d[0] == 'S' and not d[1]: return ''
    if d[0] == 'S' and len(d[1]) == 1 and d[1][0][0] == 'l': return d[1][0][1]
    if d[0] == 'I': k = kval(d); return k if k is None else chr(k)
    return None
def nm(c): return strip_generics(c.ip).split('::')[-1]
def sref(s): return ('R', ('kc', s), (), 'str')
def args(c):
    a = []
    for x in c.a[1:]:
        d = deep(c.I, c.st, c.deref(x))
        if d[0] not in ('S', 'I'): raise Undec('pattern')
        a.append(d)
    return tuple(a)
def fn(c, name, s, a):
    l = [lit(x) for x in (s,) + a]
    if all(x is not None for x in l): return ('S', sparts((('l', apply(name, l[0], l[1:])),)))
    return ('S', (('sfn', name, s, a),))
def boundary(c, s, i, n):
    """is byte i of s (of length n) the start of a character: TRUE or an atom"""
    f = c.st.f; i = f.norm(i)
    if f.const(i) == 0 or i == f.norm(n): return TRUE
    l = lit(s); k = f.const(i)
    if l is not None and k is not None:
        b = l.encode()
        return TRUE if k == len(b) or (k < len(b) and b[k] & 0xc0 != 0x80) else FALSE
    if all(q[0] == 'num' for q in s[1]): return op(f, 'not', 1, op(f, 'lt', 1, n, i))
    return V(('chb', s, i), 1)
def decided(c, w):
    b = c.st.f.const(w)
    if b is None: raise Fork(w, [((0, 0),), ((1, 1),)])
    return b
def cut(c, s, lo, hi, n):
    """the part of s, or None where it does not exist"""
    f = c.st.f
    lo, hi = f.norm(lo), f.norm(hi)
    if decided(c, op(f, 'lt', 1, hi, lo)) or decided(c, op(f, 'lt', 1, n, hi)): return None
    if not decided(c, boundary(c, s, lo, n)) or not decided(c, boundary(c, s, hi, n)): return None
    a, b = f.const(lo), f.const(hi)
    l = lit(s)
    if l is not None and a is not None and b is not None: return ('S', sparts((('l', l.encode()[a:b].decode()),)))
    if a == 0 and hi == f.norm(n): return s
    if lo == hi: return ('S', ())
    return ('S', (('substr', s, lo, hi),))

STR = r"(std|core|alloc)::str::<impl str>::"
@mr(STR + r"(is_char_boundary)$")
def is_char_boundary(c):
    s = txt(c, c.a[0]); n = slen(c, s)
    if decided(c, op(c.st.f, 'lt', 1, n, c.a[1])): return c.ret(FALSE)
    return c.ret(boundary(c, s, c.a[1], n))
@mr(r"(std|core)::str::traits::<impl .*Index(Mut)?<I> for str>::index(_mut)?$|<(std|alloc)::string::String as .*Index(Mut)?<I>>::index(_mut)?$")
def str_index(c):
    s = txt(c, c.a[0]); n = slen(c, s)
    rg = range_of(c, c.ca['args'][-1], c.a[1], n)
    if rg is None: raise Undec('text index')
    x = cut(c, s, rg[0], rg[1], n)
    if x is None: return [c.panic('text index out of range or not at a character boundary')]
    return c.ret(sref(x))
@mr(STR + r"get(::<I>)?$")
def str_get(c):
    s = txt(c, c.a[0]); n = slen(c, s)
    rg = range_of(c, c.ca['args'][-1], c.a[1], n)
    if rg is None: raise Undec('text index')
    x = cut(c, s, rg[0], rg[1], n)
    return c.ret(c.variant('None') if x is None else c.variant('Some', sref(x)))
@mr(STR + r"split_at(_checked)?$")
def str_split_at(c):
    s = txt(c, c.a[0]); n = slen(c, s); ck = c.ip.endswith('checked')
    x = cut(c, s, K(64, 0), c.a[1], n)
    if x is None: return c.ret(c.variant('None')) if ck else [c.panic('split_at out of range or not at a character boundary')]
    y = cut(c, s, c.a[1], n, n)
    r = ('T', (sref(x), sref(y)))
    return c.ret(c.variant('Some', r) if ck else r)
@mr(r"(std|alloc)::string::String::truncate$")
def s_trunc(c):
    r, v, meta = tgt(c, c.a[0])
    s = txt(c, v); n = slen(c, s)
    if decided(c, op(c.st.f, 'lt', 1, n, c.a[1])): return c.ret(UNIT)
    x = cut(c, s, K(64, 0), c.a[1], n)
    if x is None: return [c.panic('truncate not at a character boundary')]
    c.I.store(c.st, r[1], r[2], x)
    return c.ret(UNIT)
@mr(r"(std|alloc)::string::String::clear$")
def s_clear(c):
    r, v, meta = tgt(c, c.a[0])
    c.I.store(c.st, r[1], r[2], ('S', ())); return c.ret(UNIT)
@mr(STR + r"(trim|trim_start|trim_end|trim_left|trim_right)$")
def s_trim(c): return c.ret(sref(fn(c, nm(c), txt(c, c.a[0]), ())))
@mr(STR + r"(trim_matches|trim_start_matches|trim_end_matches|trim_prefix|trim_suffix)(::<.*>)?$")
def s_trimm(c): return c.ret(sref(fn(c, nm(c), txt(c, c.a[0]), args(c))))
@mr(STR + r"(strip_prefix|strip_suffix)(::<.*>)?$")
def s_strip(c):
    s = txt(c, c.a[0]); a = args(c); n = nm(c)
    if not decided(c, pred(c, {'strip_prefix': 'starts_with', 'strip_suffix': 'ends_with'}[n], (s,) + a)): return c.ret(c.variant('None'))
    return c.ret(c.variant('Some', sref(fn(c, n, s, a))))
@mr(STR + r"(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase|replace(::<.*>)?)$|(std|alloc)::slice::<impl str>::to_ascii_(lower|upper)case$")
def s_map(c): return c.ret(fn(c, nm(c), txt(c, c.a[0]), args(c)))
@mr(STR + r"(find|rfind)(::<.*>)?$")
def s_find(c):
    s = txt(c, c.a[0]); a = args(c); n = nm(c)
    l = [lit(x) for x in (s,) + a]
    if not decided(c, pred(c, 'contains', (s,) + a)): return c.ret(c.variant('None'))
    if all(x is not None for x in l): return c.ret(c.variant('Some', K(64, apply(n, l[0], l[1:]))))
    k = ('str', n, s) + a
    DOM[('v', k, 64)] = ((0, SEQMAX),)
    return c.ret(c.variant('Some', V(k, 64)))
def pred(c, name, a):
    l = [lit(x) for x in a]
    if all(x is not None for x in l): return TRUE if apply(name, l[0], l[1:]) else FALSE
    return V(('str', name) + tuple(a), 1)
# ------------------------------------------------------------------ text predicates: pure functions of their arguments
@mr(STR + r"(starts_with|ends_with|contains|eq_ignore_ascii_case|is_ascii)(::<.*>)?$")
def strpred(c): return c.ret(pred(c, nm(c), (txt(c, c.a[0]),) + args(c)))
# ------------------------------------------------------------------ what a failed conversion keeps
def utf8src(v):
    """bytes behind a conversion error"""
    if v[0] == 'Y' and v[2][0] == 'err' and len(v[2]) > 2 and v[2][1] == 'utf8': return v[2][2]
    if v[0] == 'A': raise Undec('conversion error')
    raise Undec('conversion error')
@mr(r"(std|alloc)::string::FromUtf8Error::(into_bytes|as_bytes)$")
def utf8_bytes(c):
    d = utf8src(c.deref(c.a[0]))
    if c.ip.endswith('into_bytes'): return c.ret(d)
    return c.ret(('R', ('kc', d), (), ('sl', 0, seq_len(c, d))))
@mr(r"(std|alloc)::string::FromUtf8Error::utf8_error$")
def utf8_error(c): return c.ret(c.I.sym(c.dty, ('err', 'utf8', utf8src(c.deref(c.a[0])))))
@mr(r"(std|core)::str::Utf8Error::valid_up_to$")
def utf8_upto(c):
    d = utf8src(c.deref(c.a[0]))
    k = ('utf8upto', d)
    n = seq_len(c, d); h = ihi(c.st.f.rng(n))
    DOM[('v', k, 64)] = ((0, max(0, h - 1)),)
    return c.ret(V(k, 64))

@mr(r"(std|core)::str::Utf8Error::error_len$")
def utf8_elen(c):
    d = utf8src(c.deref(c.a[0]))
    k = ('utf8elen', d)
    DOM[('v', k, 64)] = ((0, 3),)
    w = V(k, 64)
    if not decided(c, op(c.st.f, 'lt', 1, K(64, 0), w)): return c.ret(c.variant('None'))
    return c.ret(c.variant('Some', w))
@mr(STR + r"bytes$")
def s_bytes(c):
    s = txt(c, c.a[0]); bs = str_bytes(c, s)
    if bs is not None: return c.ret(('O', 'vit', ('Q', bs), 0, K(64, len(bs))))
    n = slen(c, s)
    return c.ret(('O', 'vit', ('Y', u8slice(c), ('len?', ('strbytes', s), n)), 0, n))
@mr(STR + r"chars$")
def s_chars(c):
    return c.ret(('O', 'tchars', txt(c, c.a[0])))
def s_count(c):
    o = c.a[0]
    if o[0] != 'O' or o[1] != 'tchars': return count0(c)
    s = o[2]; l = lit(s)
    if l is not None: return c.ret(K(64, len(l)))
    n = slen(c, s)
    if all(q[0] == 'num' for q in s[1]): return c.ret(n)
    k = ('str', 'nchars', s)
    DOM[('v', k, 64)] = ((0, ihi(c.st.f.rng(n))),)
    return c.ret(V(k, 64))
import iters
count0 = REG['std::iter::Iterator::count']
REG['std::iter::Iterator::count'] = s_count
