"""Disjunctive abstract interpreter over dumped MIR.

Abstract values (hash-consed by structure, never mutated):
  ('I',w,pieces)            machine word, bit-provenance domain (dom.py)
  ('A',ty,variant,fields)   struct / enum aggregate      ('T',fields) tuple   ('L',elems) array
  ('Q',elems)               vector of known length       ('Y',ty,origin)      value named by its origin
  ('R',cell,path,meta)      reference / raw pointer      meta: None | ('sl',start,n) | 'str'
  ('S',parts)               text                         ('C',ty,upvars) closure   ('F',ty) function item
  ('N',v)                   union (MaybeUninit) payload  ('U',) uninitialised
  ('O',kind,...)            modelled library object
State = (cells, Facts, events).  A function maps a state to a finite set of outcome states.
"""
import json, sys
from dom import *
sys.setrecursionlimit(20000)

U = ('U',)
UNIT = ('T', ())
SEQMAX = (1 << 48)

class Undec(Exception): pass

def unin(v): return v[0] == 'U' or (v[0] == 'N' and unin(v[1]))
class St:
    __slots__ = ('c', 'f', 'n', 'ev')
    def __init__(s): s.c = {}; s.f = Facts(); s.n = 0; s.ev = ()
    def copy(s):
        t = St(); t.c = dict(s.c); t.f = s.f.copy(); t.n = s.n; t.ev = s.ev; return t
    def new(s, v):
        s.n += 1; k = s.n; s.c[k] = v; return k

class Prog:
    def __init__(p, path):
        d = json.load(open(path))
        p.d = d; p.T = d['types']; p.F = d['fns']; p.roots = d['roots']; p.consts = d['consts']
        p.unsafe = d['unsafe_blocks']; p.skipped = d['skipped']; p.nobody = d['nobody']
        p.byname = {}
        for i, t in enumerate(p.T): p.byname.setdefault(t['name'], i)
        p._nd = {}
    def t(p, i): return p.T[i]
    def name(p, i): return p.T[i]['name']
    def path(p, i): return p.T[i].get('path', '')
    def w(p, i):
        t = p.T[i]; k = t['k']
        if k in ('int', 'uint'): return t['bits']
        if k == 'bool': return 1
        if k == 'char': return 32
        return None
    def signed(p, i): return p.T[i]['k'] == 'int'
    def fields(p, ty, variant=0): return p.T[ty]['variants'][variant]['f']
    def vname(p, ty, v):
        t = p.T[ty]
        return t['variants'][v]['n']
    def needs_drop(p, ty):
        r = p._nd.get(ty)
        if r is not None: return r
        p._nd[ty] = False
        t = p.T[ty]; k = t['k']
        if k == 'adt':
            if t.get('drop') and t.get('drop') in p.F and t.get('local'): r = True
            elif t['path'].startswith(('std::vec::Vec', 'std::boxed')): r = False
            elif t.get('adt') == 'union': r = False
            else: r = any(p.needs_drop(f['ty']) for v in t['variants'] for f in v['f'])
        elif k == 'tuple': r = any(p.needs_drop(x) for x in t['tys'])
        elif k == 'array': r = p.needs_drop(t['ty'])
        elif k == 'closure': r = any(p.needs_drop(x) for x in t['upvars'])
        else: r = False
        p._nd[ty] = r
        return r

def disc_dom(t):
    key_ = t
    vs = []
    for v in t['variants']:
        vs.append(int(v['d']) & mask(64))
    return inorm([(x, x) for x in vs])

VEC = 'std::vec::Vec'
STRING = 'std::string::String'
def is_vec(t): return t['k'] == 'adt' and t['path'] == VEC
def is_string(t): return t['k'] == 'adt' and t['path'] == STRING

class Interp:
    def __init__(s, prog, models, opts=None):
        s.p = prog; s.models = models; s.o = opts or {}
        s.depth = 0; s.budget = 0; s.fnstack = []
        s.told = {}; s.seen_fns = set(); s.calls = 0
        s.maxleaves = s.o.get('maxleaves', 12000)
        s.seqk = s.o.get('seqk', 3)
        s.long = 0; s.longs = set()
        s.bykey = {}; s.local = prog.d['crate']
    # ------------------------------------------------------------ symbolic inputs
    def sym(s, ty, o):
        t = s.p.t(ty); k = t['k']
        if k in ('int', 'uint'): return V(o, t['bits'])
        if k == 'bool': return V(o, 1)
        if k == 'char': return V(o, 32)
        if k == 'tuple': return ('T', tuple(s.sym(x, ('.', o, str(i))) for i, x in enumerate(t['tys'])))
        if k == 'array' and t['len'] is not None and t['len'] <= 64:
            return ('L', tuple(s.sym(t['ty'], ('el', o, i)) for i in range(t['len'])))
        if k in ('ref', 'ptr'):
            pt = s.p.t(t['ty'])
            m = None
            if pt['k'] == 'slice': m = ('sl', 0, s.seqlen(('*', o)))
            elif pt['k'] == 'str': m = 'str'
            elif pt['k'] == 'dyn': m = None
            return ('R', ('sy', t['ty'], ('*', o)), (), m)
        if k in ('fndef',): return ('F', ty)
        if k == 'adt' and s.long and is_vec(t):
            et = s.p.t(t['args'][0])
            if et['k'] == 'adt' and et.get('local'):
                s.longs.add(o); L = s.long
                return ('Q', (s.sym(t['args'][0], ('el', o, 0)),) * (L - 1) + (s.sym(t['args'][0], ('el', o, L - 1)),))
        if is_string(t) if k == 'adt' else False: return ('S', (('y', o),))
        if k == 'str': return ('S', (('y', o),))
        return ('Y', ty, o)
    def seqlen(s, o):
        if o[0] == 'rv': return o[3]
        if o[0] == 'len?': return o[2]
        v = V(('len', o), 64)
        DOM[('v', ('len', o), 64)] = ((0, SEQMAX),)
        return v
    def expand(s, st, v):
        """Y struct / enum of known variant -> A"""
        ty, o = v[1], v[2]
        t = s.p.t(ty)
        if t['k'] == 'array': return ('L', tuple(s.sym(t['ty'], ('el', o, i)) for i in range(t['len'])))
        if t['k'] != 'adt': raise Undec('expand ' + t['name'])
        if t['adt'] == 'struct': return ('A', ty, 0, tuple(s.yfield(ty, o, 0, i) for i in range(len(t['variants'][0]['f']))))
        if t['adt'] == 'enum':
            d = need(st.f, s.discw(v), 300)
            if d is None: raise Undec('variant of ' + t['name'])
            for i, vv in enumerate(t['variants']):
                if int(vv['d']) & mask(64) == d:
                    return ('A', ty, i, tuple(s.yfield(ty, o, i, j) for j in range(len(vv['f']))))
        raise Undec('expand ' + t['name'])
    def yfield(s, ty, o, variant, i):
        t = s.p.t(ty); f = t['variants'][variant]['f'][i]
        n = f['n'] if (t['adt'] == 'enum' or f['pub'] or not t.get('local')) else '#%d' % i
        if t['adt'] == 'enum': n = t['variants'][variant]['n'] + '.' + n
        return s.sym(f['ty'], ('.', o, n))
    def discw(s, v):
        ty, o = v[1], v[2]
        t = s.p.t(ty)
        term = ('v', ('disc', o, t['name']), 64)
        if term not in DOM: DOM[term] = disc_dom(t)
        return T(term)
    # ------------------------------------------------------------ memory
    def cell(s, st, c):
        v = st.c.get(c)
        if v is not None: return v
        if isinstance(c, tuple):
            if c[0] == 'kc': return c[1]
            if c[0] == 'sy':
                t = s.p.t(c[1])
                if t['k'] == 'slice': return ('Y', c[1], c[2])
                return s.sym(c[1], c[2])
        raise Undec('dangling cell')
    def pget(s, st, v, e):
        k = e[0]
        if v[0] == 'U': raise Undec('read of uninitialised')
        if k == 'f':
            if v[0] == 'A':
                if e[1] >= len(v[3]): raise Undec('field index')
                return v[3][e[1]]
            if v[0] == 'T': return v[1][e[1]]
            if v[0] == 'Y':
                t = s.p.t(v[1])
                if t['k'] == 'adt' and t['adt'] in ('struct', 'enum') and len(t['variants']) >= 1:
                    if t['adt'] == 'struct': return s.yfield(v[1], v[2], 0, e[1])
                raise Undec('field of ' + t['name'])
            if v[0] == 'YV': return s.yfield(v[1], v[2], v[3], e[1])
            if v[0] == 'C': return v[2][e[1]]
            if v[0] == 'N': return v[1]
            if v[0] == 'BX': return v
            raise Undec('field of %s' % (v[:2],))
        if k == 'v':
            if v[0] == 'Y': return ('YV', v[1], v[2], e[1])
            return v
        if k == 'e':
            i = e[1]
            if v[0] in ('L', 'Q'):
                if i >= len(v[1]): raise Undec('element out of range')
                return v[1][i]
            if v[0] == 'Y':
                t = s.p.t(v[1])
                et = s.elemty(v[1])
                return s.elem(v, et, i)
            if v[0] == 'O' and v[1] == 'tail':
                et = v[2][1].replace('&', '') if v[2][0] == 'Y' else ''
                if 'u8' in et or v[2][0] in ('W',):
                    return V(('elx', v[2], op(st.f if st else Facts(), 'add', 64, v[4], K(64, v[3] + i))), 8)
            raise Undec('element of %s' % (v[:2],))
        raise Undec('proj ' + str(k))
    def elem(s, v, et, i): return s.sym(et, ('el', v[2], i))
    def elemty(s, ty):
        t = s.p.t(ty)
        if t['k'] in ('array', 'slice'): return t['ty']
        if is_vec(t): return t['args'][0]
        raise Undec('elemty ' + t['name'])
    def load(s, st, c, path):
        v = s.cell(st, c)
        for e in path: v = s.pget(st, v, e)
        return v
    def pset(s, st, v, path, new):
        if not path: return new
        e = path[0]; k = e[0]
        if k == 'f':
            if v[0] == 'Y': v = s.expand(st, v)
            if v[0] == 'A':
                f = list(v[3]); f[e[1]] = s.pset(st, f[e[1]], path[1:], new); return ('A', v[1], v[2], tuple(f))
            if v[0] == 'T':
                f = list(v[1]); f[e[1]] = s.pset(st, f[e[1]], path[1:], new); return ('T', tuple(f))
            if v[0] == 'C':
                f = list(v[2]); f[e[1]] = s.pset(st, f[e[1]], path[1:], new); return ('C', v[1], tuple(f))
            if v[0] == 'N' or v[0] == 'U': return ('N', s.pset(st, v[1] if v[0] == 'N' else U, path[1:], new))
            raise Undec('set field of %s' % (v[0],))
        if k == 'v':
            if v[0] == 'Y': v = s.expand(st, v)
            return s.pset(st, v, path[1:], new)
        if k == 'e':
            if v[0] == 'Y':
                t = s.p.t(v[1])
                if t['k'] == 'array': v = s.expand(st, v)
                else: v = s.conc(st, v)
            if v[0] in ('L', 'Q'):
                f = list(v[1])
                if e[1] >= len(f): raise Undec('element out of range')
                f[e[1]] = s.pset(st, f[e[1]], path[1:], new); return (v[0], tuple(f))
            raise Undec('set element of %s' % (v[0],))
        raise Undec('set ' + str(k))
    def store(s, st, c, path, v):
        if not path: st.c[c] = v; return
        q = path if path[-1][0] == 'e' else path[:-1] if path[-1] == ('f', 1) and len(path) > 1 and path[-2][0] == 'e' else None
        if q is not None:
            old = st.c.get(c)
            if old is not None and old[0] in ('N', 'L'):
                try: old = s.load(st, c, q)
                except Undec: old = None
                if old is not None and old[0] == 'N' and unin(old) and not unin(v): 
                    arr = s.load(st, c, q[:-1])
                    while arr[0] == 'N': arr = arr[1]
                    st.ev += (('init', c, q[-1][1], len(arr[1])),)
        st.c[c] = s.pset(st, s.cell(st, c), path, v)
    def conc(s, st, v):
        """sequence of symbolic length -> known length (split on lengths 0..seqk, longer is cut)"""
        n = s.seqlen(v[2])
        c = st.f.const(n)
        if c is None:
            r = st.f.rng(n)
            k = s.seqk
            small = [x for x in range(0, k + 1) if ihas(r, x)]
            sets = [((x, x),) for x in small]
            big = iand(r, ((k + 1, mask(64)),))
            if big: sets.append(big)
            if len(sets) == 1 and big: raise Cut('sequence longer than %d' % k)
            raise Fork(n, sets)
        if c > 64: raise Cut('long sequence')
        et = s.elemty(v[1])
        return ('Q', tuple(s.elem(v, et, i) for i in range(c)))
    # ------------------------------------------------------------ places
    def place(s, st, fr, pl):
        c = (fr[0], pl[0]); path = (); meta = None
        ty = fr[1]['locals'][pl[0]]
        for e in pl[1]:
            if e == '*':
                v = s.load(st, c, path)
                if v[0] == 'N': v = v[1]
                if v[0] == 'BX': c, path, meta = v[1], v[2], None; ty = None; continue
                if v[0] == 'A' and len(v[3]) >= 1:      # Box<T>
                    w = v
                    while w[0] == 'A': w = w[3][0]
                    v = w
                if v[0] != 'R': raise Undec('deref of %s' % (v[:1],))
                c, path, meta = v[1], v[2], v[3]
                t = s.p.t(ty) if ty is not None else None
                ty = t['ty'] if t and t['k'] in ('ref', 'ptr') else None
            elif 'f' in e: path += (('f', e['f']),); ty = e['ty']
            elif 'v' in e: path += (('v', e['v']),)
            elif 'i' in e:
                iv = s.load(st, (fr[0], e['i']), ())
                i = need(st.f, iv, 70)
                if i is None: raise Undec('symbolic index')
                if meta and meta != 'str': i += meta[1]
                path += (('e', i),); meta = None
                ty = s.elemty(ty) if ty is not None else None
            elif 'ci' in e:
                off, mn, fe = e['ci']
                if fe:
                    if meta and meta != 'str': n = meta[2]
                    else: n = K(64, len(s.load(st, c, path)[1]))
                    n = need(st.f, n, 16)
                    if n is None: raise Undec('index from end')
                    off = n - off
                if meta and meta != 'str': off += meta[1]
                path += (('e', off),); meta = None
                ty = s.elemty(ty) if ty is not None else None
            elif 'sub' in e:
                fro, to, fe = e['sub']
                st0 = meta[1] if meta and meta != 'str' else 0
                n = meta[2] if meta and meta != 'str' else K(64, len(s.load(st, c, path)[1]))
                if fe: meta = ('sl', st0 + fro, op(st.f, 'sub', 64, n, K(64, fro + to)))
                else: meta = ('sl', st0 + fro, K(64, to - fro))
            else: raise Undec('projection')
        return c, path, meta, ty
    def pty(s, fr, pl):
        ty = fr[1]['locals'][pl[0]]
        for e in pl[1]:
            if e == '*':
                t = s.p.t(ty)
                if 'ty' in t: ty = t['ty']
                elif t['k'] == 'adt' and t['path'].startswith('std::boxed::Box'): ty = t['args'][0]
                else: return None
            elif 'f' in e: ty = e['ty']
            elif 'v' in e: pass
            elif 'i' in e or 'ci' in e: ty = s.elemty(ty)
        return ty
    def rd(s, st, fr, pl):
        if not pl[1]:
            v = st.c.get((fr[0], pl[0]))
            if v is None:
                ty = fr[1]['locals'][pl[0]]
                if s.zst(ty): return s.konst(ty, {'zst': 1})
                raise Undec('unset local')
            return v
        c, path, meta, ty = s.place(st, fr, pl)
        return s.load(st, c, path)
    def wr(s, st, fr, pl, v):
        if not pl[1]: st.c[(fr[0], pl[0])] = v; return
        c, path, meta, ty = s.place(st, fr, pl)
        s.store(st, c, path, v)
    def zst(s, ty):
        t = s.p.t(ty); k = t['k']
        if k == 'tuple': return all(s.zst(x) for x in t['tys'])
        if k in ('fndef',): return True
        if k == 'closure': return not t['upvars']
        if k == 'adt': return t['adt'] == 'struct' and all(s.zst(f['ty']) for f in t['variants'][0]['f'])
        return False
    # ------------------------------------------------------------ operands
    def konst(s, ty, v):
        t = s.p.t(ty)
        if v is None: raise Undec('opaque constant of type ' + t['name'])
        if 'i' in v:
            w = s.p.w(ty)
            if w is None:
                if t['k'] == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['f']) == 1:
                    return ('A', ty, 0, (s.konst(t['variants'][0]['f'][0]['ty'], v),))
                raise Undec('const int of ' + t['name'])
            return K(w, int(v['i']))
        if 'adt' in v:
            var, fs = v['adt']
            ft = t['variants'][var]['f']
            if is_string(t): raise Undec('const String')
            if is_vec(t): return ('Q', ())
            return ('A', ty, var, tuple(s.konst(f['ty'], x) for f, x in zip(ft, fs)))
        if 'tup' in v: return ('T', tuple(s.konst(x, y) for x, y in zip(t['tys'], v['tup'])))
        if 'arr' in v: return ('L', tuple(s.konst(t['ty'], y) for y in v['arr']))
        if 'zst' in v:
            k = t['k']
            if k == 'tuple': return ('T', tuple(s.konst(x, {'zst': 1}) for x in t['tys']))
            if k == 'fndef': return ('F', ty)
            if k == 'closure': return ('C', ty, ())
            if k == 'array': return ('L', ())
            if k == 'adt':
                return ('A', ty, 0, tuple(s.konst(f['ty'], {'zst': 1}) for f in t['variants'][0]['f']))
            raise Undec('zst ' + t['name'])
        if 'str' in v:
            return ('R', ('kc', ('S', (('l', v['str']),))), (), 'str')
        if 'ref' in v:
            pt = v['ty'] if 'ty' in v else t['ty']
            pn = s.p.t(pt)
            if pn['k'] == 'slice':
                pass
            inner = s.konst(pt, v['ref'])
            m = None
            if s.p.t(t['ty'])['k'] == 'slice' and inner[0] == 'L': m = ('sl', 0, K(64, len(inner[1])))
            if inner[0] == 'S': m = 'str'
            return ('R', ('kc', inner), (), m)
        if 'fn' in v: return ('F', ty)
        if 'static' in v: return ('R', ('kc', ('O', 'static', v['static'])), (), None)
        raise Undec('constant ' + str(v)[:40])
    def opd(s, st, fr, o):
        if 'c' in o: return s.rd(st, fr, o['c'])
        if 'm' in o: return s.rd(st, fr, o['m'])
        if 'k' in o:
            k = o['k']
            if k.get('v') is None and s.p.t(k['ty'])['k'] == 'fndef': return ('F', k['ty'])
            return s.konst(k['ty'], k['v'])
        if 'rt' in o: return K(1, 1 if o['rt'] in (True, 1, 'OverflowChecks') or 'true' in str(o['rt']).lower() else 0)
        raise Undec('operand')
    def oty(s, fr, o):
        if 'c' in o: return s.pty(fr, o['c'])
        if 'm' in o: return s.pty(fr, o['m'])
        if 'k' in o: return o['k']['ty']
        return None
    # ------------------------------------------------------------ rvalues
    def rval(s, st, fr, r, dty):
        k = r[0]
        if k == 'use': return s.opd(st, fr, r[1])
        if k == 'repeat':
            n = int(r[2])
            if n > 4096: raise Undec('large array')
            return ('L', (s.opd(st, fr, r[1]),) * n)
        if k == 'ref':
            pl = r[2]
            if pl[1] and pl[1][-1] == '*':          # reborrow
                v = s.rd(st, fr, [pl[0], pl[1][:-1]])
                if v[0] == 'R': return v
            c, path, meta, ty = s.place(st, fr, pl)
            return ('R', c, path, meta)
        if k == 'cast': return s.cast(st, fr, r)
        if k == 'bin': return s.binop(st, fr, r[1], r[2], r[3], dty)
        if k == 'un':
            v = s.opd(st, fr, r[2])
            if r[1] == 'Not': return op(st.f, 'not', v[1], v)
            if r[1] == 'Neg': return op(st.f, 'sub', v[1], K(v[1], 0), v)
            if r[1] == 'PtrMetadata':
                if v[0] == 'R' and v[3] and v[3] != 'str': return v[3][2]
                if v[0] == 'R' and v[3] is None: return UNIT
                raise Undec('ptr metadata')
            raise Undec('unop ' + r[1])
        if k == 'disc':
            w = s.p.w(dty) or 64
            if not r[1][1] and (fr[0], r[1][0]) not in st.c: return K(w, 0)      # never-assigned (uninhabited) temporary
            v = s.rd(st, fr, r[1])
            if v[0] == 'A':
                t = s.p.t(v[1])
                if t['adt'] != 'enum': return K(w, 0)
                return K(w, int(t['variants'][v[2]]['d']))
            if v[0] in ('Y', 'YV'):
                if s.p.t(v[1])['k'] == 'adt' and s.p.t(v[1])['adt'] == 'enum': return zext(s.discw(v), w)
            raise Undec('discriminant of %s' % (v[:1],))
        if k == 'agg':
            ops = tuple(s.opd(st, fr, o) for o in r[3])
            if r[1] == 'adt':
                ty, var, fld = r[2]
                if fld is not None: return ('N', ops[0])
                return ('A', ty, var, ops)
            if r[1] == 'tuple': return ('T', ops)
            if r[1] == 'array': return ('L', ops)
            if r[1] == 'closure': return ('C', r[2], ops)
            if r[1] == 'rawptr':
                p, m = ops
                if p[0] == 'R' and m[0] == 'I':
                    if p[2] and p[2][-1][0] == 'e': return ('R', p[1], p[2][:-1], ('sl', p[2][-1][1], m))
                    return ('R', p[1], p[2], ('sl', 0, m))
                return p
        raise Undec('rvalue %s' % (r[:2],))
    def cast(s, st, fr, r):
        kind, o, ty = r[1], r[2], r[3]
        v = s.opd(st, fr, o)
        t = s.p.t(ty)
        if kind == 'IntToInt':
            w = s.p.w(ty); st_ = s.oty(fr, o)
            if v[0] == 'A': v = K(64, int(s.p.t(v[1])['variants'][v[2]]['d']))
            elif v[0] == 'Y': v = s.discw(v)
            if st_ is not None and s.p.signed(st_) and w > v[1]: return s.sext(st, v, w)
            return zext(v, w)
        if kind == 'Transmute' or kind.startswith('Transmute'): return s.transmute(st, v, ty)
        if kind.startswith('PtrToPtr') or kind.startswith('BoxDeref'):
            return s.ptrcast(v, t)
        if 'Unsize' in kind: return s.unsize(st, v, ty, s.oty(fr, o))
        if 'Reify' in kind or 'MutToConst' in kind or 'ArrayToPointer' in kind or 'ClosureFn' in kind:
            if 'ArrayToPointer' in kind and v[0] == 'R': return ('R', v[1], v[2] + (('e', 0),), None)
            return v
        raise Undec('cast ' + kind)
    def sext(s, st, v, w):
        c = st.f.const(v)
        if c is not None: return K(w, sgn(c, v[1]))
        if ihi(st.f.rng(v)) < 1 << (v[1] - 1): return zext(v, w)
        return mkop('sext', w, v)
    def ptrcast(s, v, t):
        if v[0] == 'BX': return ('R', v[1], v[2], None)
        if v[0] == 'N': v = v[1]
        if v[0] == 'A':
            while v[0] == 'A': v = v[3][0]
        if v[0] != 'R': return v
        pt = s.p.t(t['ty']) if 'ty' in t else None
        if pt and pt['k'] != 'slice' and v[3] and v[3] != 'str': return ('R', v[1], v[2] + (('e', v[3][1]),), None)
        return v
    def unsize(s, st, v, ty, sty):
        t = s.p.t(ty)
        if v[0] == 'R':
            src = s.p.t(sty); pt = s.p.t(src['ty'])
            if pt['k'] == 'array' and s.p.t(t['ty'])['k'] == 'slice': return ('R', v[1], v[2], ('sl', 0, K(64, pt['len'])))
            return v
        return v
    def transmute(s, st, v, ty):
        t = s.p.t(ty)
        if v[0] == 'I' and t['k'] == 'array':
            n = t['len']; w = s.p.w(t['ty'])
            if w and n * w == v[1]: return ('L', tuple(sl(v, i * w, w) for i in range(n)))
        if v[0] == 'L' and t['k'] in ('int', 'uint') and all(x[0] == 'I' for x in v[1]): return cat(*reversed(v[1]))
        if v[0] == 'I' and s.p.w(ty) == v[1]: return v
        if v[0] == 'BX': return ('R', v[1], v[2], None)
        if v[0] == 'R' and t['k'] == 'uint': return K(64, 4096)      # compiler-inserted alignment / null checks of a valid pointer
        if v[0] == 'I' and t['k'] == 'adt' and t['path'].endswith('option::Option') and 'NonZero' in t['name']:
            e = op(st.f, 'eq', 1, v, K(v[1], 0)); z = st.f.const(e)
            if z is None: raise Fork(e, [((0, 0),), ((1, 1),)])
            return ('A', ty, 0, ()) if z else ('A', ty, 1, (('A', t['args'][0], 0, (v,)),))
        if v[0] == 'I' and t['k'] == 'adt' and t['adt'] == 'struct' and len(t['variants'][0]['f']) == 1:
            return ('A', ty, 0, (s.transmute(st, v, t['variants'][0]['f'][0]['ty']),))
        if v[0] in ('R', 'N', 'L'): return s.ptrcast(v, t) if v[0] == 'R' else v
        if v[0] == 'A' and s.p.t(v[1])['adt'] == 'struct' and len(v[3]) == 1: return s.transmute(st, v[3][0], ty)
        raise Undec('transmute to ' + t['name'])
    def binop(s, st, fr, name, ao, bo, dty):
        a = s.opd(st, fr, ao); b = s.opd(st, fr, bo)
        if a[0] != 'I' or b[0] != 'I':
            if name in ('Eq', 'Ne') and a[0] == 'R' and b[0] == 'R':
                raise Undec('pointer comparison')
            if name == 'Offset' and a[0] == 'R':
                n = need(st.f, b, 70)
                if n is None or not a[2] or a[2][-1][0] != 'e': raise Undec('pointer offset')
                return ('R', a[1], a[2][:-1] + (('e', a[2][-1][1] + n),), a[3])
            raise Undec('binop %s on %s' % (name, a[:1]))
        w = a[1]
        ty = s.oty(fr, ao)
        sg = ty is not None and s.p.signed(ty)
        return s.arith(st, name, a, b, w, sg, dty)
    def arith(s, st, name, a, b, w, sg, dty=None):
        f = st.f
        if name in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if name == 'Eq': return op(f, 'eq', 1, a, b)
            if name == 'Ne': return op(f, 'not', 1, op(f, 'eq', 1, a, b))
            l = 'slt' if sg else 'lt'
            if name == 'Lt': return op(f, l, 1, a, b)
            if name == 'Ge': return op(f, 'not', 1, op(f, l, 1, a, b))
            if name == 'Gt': return op(f, l, 1, b, a)
            return op(f, 'not', 1, op(f, l, 1, b, a))
        if name == 'Cmp':
            e = op(f, 'eq', 1, a, b); ev = f.const(e)
            if ev is None: raise Fork(e, [((0, 0),), ((1, 1),)])
            if ev: return s.ordering(dty, 0)
            l = op(f, 'slt' if sg else 'lt', 1, a, b); lv = f.const(l)
            if lv is None: raise Fork(l, [((0, 0),), ((1, 1),)])
            return s.ordering(dty, -1 if lv else 1)
        base = name.replace('WithOverflow', '').replace('Unchecked', '')
        m = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Div': 'div', 'Rem': 'rem', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor',
             'Shl': 'shl', 'Shr': 'sar' if sg else 'shr'}[base]
        if sg and m in ('div', 'rem'):
            h = 1 << (w - 1)
            ca, cb = f.const(a), f.const(b)
            if ca is not None and cb is not None and cb:
                x, y = sgn(ca, w), sgn(cb, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                r = K(w, q if m == 'div' else x - q * y)
            elif ihi(f.rng(a)) < h and ihi(f.rng(b)) < h: r = op(f, m, w, a, b)
            else: r = mkop('s' + m, w, a, b)
        else: r = op(f, m, w, a, b)
        if name.endswith('WithOverflow'):
            return ('T', (r, s.ovf(st, m, a, b, w, sg, r)))
        return r
    def ovf(s, st, m, a, b, w, sg, r):
        f = st.f
        ra, rb = f.rng(a), f.rng(b)
        if not sg:
            if m == 'add':
                if ihi(ra) + ihi(rb) <= mask(w): return FALSE
                if kval(a) is not None and kval(b) is None: a, b = b, a
                return op(f, 'lt', 1, op(f, 'not', w, b), a)
            if m == 'sub': return op(f, 'lt', 1, a, b)
            if m == 'mul':
                if ihi(ra) * ihi(rb) <= mask(w): return FALSE
                if kval(a) is not None and kval(b) is None: a, b = b, a
                c = f.const(b)
                if c: return op(f, 'lt', 1, K(w, mask(w) // c), a)
        else:
            h = 1 << (w - 1)
            ca, cb = f.const(a), f.const(b)
            if ca is not None and cb is not None:
                x, y = sgn(ca, w), sgn(cb, w)
                z = {'add': x + y, 'sub': x - y, 'mul': x * y}[m]
                return K(1, not -h <= z < h)
            if ihi(ra) < h and ihi(rb) < h:
                if m == 'sub': return FALSE
                z = ihi(ra) + ihi(rb) if m == 'add' else ihi(ra) * ihi(rb)
                if z < h: return FALSE
        return mkop('ovf_%s%s' % (m, 's' if sg else ''), 1, a, b)
    def ordering(s, dty, c):
        for i, v in enumerate(s.p.t(dty)['variants']):
            d = int(v['d'])
            if d > 127: d = d - (1 << (8 if d < 256 else 64))
            if d == c: return ('A', dty, i, ())
        raise Undec('ordering')
    # ------------------------------------------------------------ functions
    def run(s, key, args, st):
        """-> [(st, kind, value)]   kind: ret | panic | undec | cut"""
        f = s.p.F.get(key)
        if f is None: return [(st, 'undec', 'no body: ' + key)]
        if s.depth > 120: return [(st, 'undec', 'call depth')]
        if s.fnstack.count(key) > 3: return [(st, 'undec', 'recursion in ' + key)]
        s.seen_fns.add(key); s.calls += 1
        if s.calls > s.o.get('maxcalls', 400000): return [(st, 'undec', 'call budget')]
        st.n += 1
        fr = (('f', st.n), f)
        if f.get('spread') and len(args) < f['argc']:
            tup = args[-1]
            if tup[0] != 'T': return [(st, 'undec', 'spread')]
            args = list(args[:-1]) + list(tup[1])
        for i, a in enumerate(args): st.c[(fr[0], i + 1)] = a
        s.depth += 1; s.fnstack.append(key)
        try: outs = s.body(fr, st)
        finally: s.depth -= 1; s.fnstack.pop()
        n = len(f['locals'])
        for o in outs:
            c = o[0].c
            for i in range(n): c.pop((fr[0], i), None)
        return outs
    def body(s, fr, st):
        outs = []
        work = [(0, st, {})]
        f = fr[1]; blocks = f['blocks']
        steps = 0
        while work:
            bb, st, vis = work.pop()
            steps += 1
            if len(outs) + len(work) > s.maxleaves:
                outs.append((st, 'undec', 'too many cases in ' + f['path'])); continue
            b = blocks[bb]
            vis = dict(vis); vis[bb] = vis.get(bb, 0) + 1
            if vis[bb] > 1 and f['crate'] == s.local:
                old = vis.get(('s', bb))
                if old is not None and s.same(fr, old, st.c):
                    outs.append((st, 'stuck', ('a round of this loop changes nothing', b['sp'], f['path']))); continue
                h = vis.get(('h', bb), ()) if vis[bb] > 6 else ()
                if any(s.again(fr, bb, o, st.c) for o in h):
                    outs.append((st, 'stuck', ('this loop returns to a state it has been in', b['sp'], f['path']))); continue
                if vis[bb] > s.o.get('visits', 80) and s.onlygrows(vis[('0', bb)], st.c):
                    outs.append((st, 'stuck', ('rounds of this loop only collect, without taking input', b['sp'], f['path']))); continue
                ln = {k: ilo(r) for k, r in st.f.f.items() if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] == 'len' and ilo(r) > s.seqk}
                was = vis.get(('l', bb), {})
                if vis[bb] > s.seqk and any(k in was and n > was[k] for k, n in ln.items()):
                    outs.append((st, 'cut', 'sequence longer than %d' % s.seqk)); continue
                vis[('l', bb)] = ln
                vis[('s', bb)] = dict(st.c)
                if vis[bb] > 6: vis[('h', bb)] = (h + (vis[('s', bb)],))[-40:]
                if vis[bb] == 2: vis[('0', bb)] = vis[('s', bb)]
            if vis[bb] > s.o.get('visits', 80):
                outs.append((st, 'cut', 'loop bound in ' + f['path'])); continue
            s._block(fr, b, bb, st, vis, work, outs)
        return outs
    def same(s, fr, a, b):
        if len(a) != len(b): return False
        for k, v in b.items():
            if k not in a or a[k] != v: return False
        return True
    def again(s, fr, bb, a, b):
        if len(a) != len(b): return False
        q = (id(fr[1]), bb); k = s.told.get(q)      # the cell that told two rounds apart last time
        if k is not None and k[0] == fr[0]: k = k[1]
        else: k = None
        if k is not None and a.get(k) != b.get(k): return False
        for k, v in b.items():
            if k not in a or a[k] != v:
                s.told[q] = (fr[0], k); return False
        return True
    def onlygrows(s, a, b):
        """between two visits of a loop head nothing changed but the content of sequences and text"""
        def eq(x, y):
            if x == y: return True
            if not (isinstance(x, tuple) and isinstance(y, tuple) and x and y): return False
            if x[0] == y[0] and x[0] in ('Q', 'S'): return True
            if x[0] == 'O' and y[0] == 'O' and x[1] == y[1] and x[1] in ('wr', 'fmt', 'wbuf'): return True
            return len(x) == len(y) and all(eq(p, q) for p, q in zip(x, y))
        return len(a) == len(b) and all(k in a and eq(a[k], v) for k, v in b.items())
    def _block(s, fr, b, bb, st, vis, work, outs):
        pend = [(st, 0)]
        stm = b['s']
        while pend:
            st, i = pend.pop()
            try:
                while i < len(stm):
                    x = stm[i]
                    if x[0] == '=':
                        pl = x[1]
                        dty = fr[1]['locals'][pl[0]] if not pl[1] else s.pty(fr, pl)
                        s.wr(st, fr, pl, s.rval(st, fr, x[2], dty))
                    elif x[0] == 'setd':
                        c, path, meta, ty = s.place(st, fr, x[1])
                        v = s.load(st, c, path)
                        raise Undec('set discriminant')
                    elif x[0] == 'intr': pass
                    i += 1
            except Fork as e:
                n = 0
                for iset in e.sets:
                    t = st.copy()
                    if t.f.refine(e.i, iset): pend.append((t, i)); n += 1
                continue
            except Undec as e:
                outs.append((st, 'undec', '%s @ %s' % (e, fr[1]['path']))); continue
            except Cut as e:
                outs.append((st, 'cut', str(e))); continue
            s._term(fr, b, st, vis, work, outs)
    def _term(s, fr, b, st, vis, work, outs):
        t = b['t']; k = t[0]
        pend = [st]
        while pend:
            st = pend.pop()
            try:
                if k == 'goto': work.append((t[1], st, vis))
                elif k == 'ret':
                    v = st.c.get((fr[0], 0), UNIT)
                    outs.append((st, 'ret', v))
                elif k == 'switch':
                    v = s.opd(st, fr, t[1])
                    c = st.f.const(v)
                    if c is not None:
                        for val, bb in t[2]:
                            if int(val) & mask(v[1]) == c: work.append((bb, st, vis)); break
                        else:
                            if t[3] is not None: work.append((t[3], st, vis))
                        continue
                    rest = full(v[1])
                    for val, bb in t[2]:
                        x = int(val) & mask(v[1])
                        u = st.copy()
                        if u.f.refine(v, ((x, x),)): work.append((bb, u, vis))
                        rest = iand(rest, inot(((x, x),), v[1]))
                    if t[3] is not None and rest:
                        u = st.copy()
                        if u.f.refine(v, rest): work.append((t[3], u, vis))
                elif k == 'assert':
                    v = s.opd(st, fr, t[1]); want = 1 if t[2] else 0
                    c = st.f.const(v)
                    if c is None:
                        u = st.copy()
                        if u.f.refine(v, ((1 - want, 1 - want),)):
                            outs.append((u, 'panic', (str(t[3])[:120], b['sp'], fr[1]['path'])))
                        if st.f.refine(v, ((want, want),)): work.append((t[4], st, vis))
                    elif c == want: work.append((t[4], st, vis))
                    else: outs.append((st, 'panic', (str(t[3])[:120], b['sp'], fr[1]['path'])))
                elif k == 'drop':
                    ty = t[3]
                    if s.p.needs_drop(ty):
                        c, path, meta, _ = s.place(st, fr, t[1])
                        for u in s.dropv(st, c, path, ty):
                            if u[1] == 'ret': work.append((t[2], u[0], vis))
                            else: outs.append(u)
                    else: work.append((t[2], st, vis))
                elif k == 'call':
                    s._call(fr, b, t, st, vis, work, outs)
                elif k == 'unreach':
                    outs.append((st, 'panic', ('unreachable reached', b['sp'], fr[1]['path'])))
                else: raise Undec('terminator ' + str(k))
            except Fork as e:
                for iset in e.sets:
                    u = st.copy()
                    if u.f.refine(e.i, iset): pend.append(u)
            except Undec as e:
                outs.append((st, 'undec', '%s @ %s' % (e, fr[1]['path'])))
            except Cut as e:
                outs.append((st, 'cut', str(e)))
    def dropv(s, st, c, path, ty):
        t = s.p.t(ty)
        if not s.p.needs_drop(ty): return [(st, 'ret', UNIT)]
        if t['k'] == 'adt' and t.get('drop') and t['drop'] in s.p.F:
            return s.run(t['drop'], [('R', c, path, None)], st)
        raise Undec('drop glue of ' + t['name'])
    def _call(s, fr, b, t, st, vis, work, outs):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        a = [s.opd(st, fr, o) for o in args]
        dty = fr[1]['locals'][dest[0]] if not dest[1] else s.pty(fr, dest)
        rs = s.call(st, callee, a, dty, b['sp'], fr)
        for o in rs:
            if o[1] == 'ret':
                if target is None:
                    outs.append((o[0], 'undec', 'diverging call returned')); continue
                try: s.wr(o[0], fr, dest, o[2])
                except Undec as e: outs.append((o[0], 'undec', str(e))); continue
                work.append((target, o[0], vis))
            else: outs.append(o)
    def call(s, st, callee, a, dty, sp, fr):
        if 'dyn' in callee:
            f = s.opd(st, fr, callee['dyn'])
            return s.callv(st, f, a, dty, sp, fr)
        if not a is None and 'path' in callee:
            r = s.models.call(s, st, callee, a, dty, sp, fr)
            if r is not None: return r
        key = callee.get('inst')
        p = callee['path']
        if p in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call') and len(a) == 2:
            f = a[0]
            fv = f
            while fv[0] == 'R': fv = s.load(st, fv[1], fv[2])
            if fv[0] == 'F': return s.callv(st, fv, list(a[1][1]) if a[1][0] == 'T' else [a[1]], dty, sp, fr)
            if fv[0] == 'C': return s.closure(st, fv, f, list(a[1][1]))
        if key in s.p.F: return s.run(key, a, st)
        return [(st, 'undec', 'no model for ' + (callee.get('ipath') or p))]
    def closure(s, st, cv, ref, args):
        t = s.p.t(cv[1]); key = t['inst']
        f = s.p.F.get(key)
        if f is None: return [(st, 'undec', 'closure body ' + t['name'][:60])]
        selfty = s.p.t(f['locals'][1])
        if selfty['k'] == 'ref':
            if ref[0] != 'R': ref = ('R', st.new(ref), (), None)
            else:
                while True:
                    x = s.load(st, ref[1], ref[2])
                    if x[0] == 'R': ref = x
                    else: break
            a0 = ref
        else: a0 = cv
        if f['argc'] == 1 + len(args): return s.run(key, [a0] + args, st)
        return s.run(key, [a0, ('T', tuple(args))], st)
    def callv(s, st, f, args, dty, sp, fr):
        while f[0] == 'R': f = s.load(st, f[1], f[2])
        if f[0] == 'C': return s.closure(st, f, f, args)
        if f[0] == 'F':
            t = s.p.t(f[1])
            ca = {'path': t['path'], 'inst': t.get('inst'), 'ipath': t.get('ipath') or t['path'], 'args': t.get('args', [])}
            # tuple-struct / enum-variant constructors
            ct = s.ctor(t, dty)
            if ct is not None: return [(st, 'ret', ('A', dty, ct, tuple(args)))]
            return s.call(st, ca, args, dty, sp, fr)
        return [(st, 'undec', 'indirect call')]
    def ctor(s, t, dty):
        d = s.p.t(dty)
        if d['k'] != 'adt' or t.get('inst') in s.p.F: return None
        last = t['path'].split('::')[-1]
        for i, v in enumerate(d['variants']):
            if v['n'] == last: return i
        return None
class Cut(Exception): pass
