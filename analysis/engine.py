"""Per-function summaries: a finite set of guarded cases (facts -> outcome) for every analysed function."""
import time
from dom import *
from interp import *
import models
from models import *
import iters
import text

NTNAMES = ('app::operation::length::Length', 'types::VarInt', 'app::command::Command')
E0 = ('E',)
LONGSEQ = 261        # the length of the sequences of the mode 'long': equal elements and a different last one

class Leaf:
    __slots__ = ('kind', 'ret', 'muts', 'pos', 'br', 'ems', 'text', 'ev', 'facts', 'raw', 'st')
    def __repr__(s): return 'Leaf(%s %s pos=%s ems=%s text=%s ev=%s facts=%s)' % (s.kind, s.ret, s.pos, s.ems, s.text, s.ev, s.facts)

class Policy:
    def __init__(s, eng): s.e = eng; s.all = False; s.free = ()
    def is_nt(s, p, ty):
        t = p.t(ty)
        if t['k'] != 'adt' or not t.get('local'): return False
        if s.all: return True
        return t['adt'] == 'enum' or t['path'] in NTNAMES
    def call(s, c):
        tr = c.ca.get('trait')
        if tr is None: return None
        p = c.I.p
        if tr == 'deku::DekuReader' and c.ca['m'] == 'from_reader_with_ctx':
            ty = c.ca['args'][0]
            if isinstance(ty, int) and s.is_nt(p, ty): return s.read(c, ty)
        elif tr == 'deku::DekuWriter' and c.ca['m'] == 'to_writer':
            ty = c.ca['args'][0]
            if isinstance(ty, int) and s.is_nt(p, ty): return s.write(c, ty)
        elif tr == 'std::clone::Clone' and c.ca['m'] == 'clone':
            ty = c.ca['args'][0]
            if isinstance(ty, int) and p.t(ty)['k'] == 'adt' and p.t(ty).get('local'): return c.ret(c.deref(c.a[0]))
        elif tr == 'std::cmp::PartialEq' and c.ca['m'] in ('eq', 'ne'):
            ty = c.ca['args'][0]
            if isinstance(ty, int) and p.t(ty)['k'] == 'adt' and p.t(ty).get('local'):
                a, b = c.deref(c.a[0]), c.deref(c.a[1])
                if a[0] == 'A' and b[0] == 'A' and s.flat(a) and s.flat(b): return None
                a, b = deep(c.I, c.st, a), deep(c.I, c.st, b)
                e = TRUE if a == b else V(('eqv',) + tuple(sorted([a, b], key=repr)), 1)
                return c.ret(e if c.ca['m'] == 'eq' else op(c.st.f, 'not', 1, e))
        return None
    def flat(s, v): return all(x[0] == 'I' for x in v[3])
    def read(s, c, ty):
        r, v = get_reader(c, c.a[0])
        _, _, base, off, ph, kinds = v[3][1]
        p = c.I.p
        ctx = deep(c.I, c.st, c.a[1]) if len(c.a) > 1 else ('T', ())
        if base[0] == 'c':
            size = s.e.fixed_size(ty, c.ca)
            w = bits_at(base, off, size) if size else None
            if w is None or c.st.f.const(w) is not None: return None
            org = ('rdc', p.name(ty), c.st.f.norm(w), ctx)
            fl = c.fail('convert ' + p.name(ty))
            np = (ph + size) % 8
            if not enough(c, base, off + size): return [fl]
            put_reader(c, c.st, r, v, pos(base, off + size, np, 'B' if np else 'NE'), V(('last', org), 64), op(c.st.f, 'add', 64, v[3][3], K(64, size)))
            return [(c.st, 'ret', c.ok(c.I.sym(ty, org))), fl]
        org = ('rd', p.name(ty), base, off, ctx)
        size = s.e.fixed_size(ty, c.ca)
        fl = c.fail('read ' + p.name(ty))
        last = v[3][2]
        if size is not None:
            np = (ph + size) % 8
            if not enough(c, base, off + size): return [fl]
            put_reader(c, c.st, r, v, pos(base, off + size, np, 'B' if np else 'NE'), V(('last', org), 64), op(c.st.f, 'add', 64, v[3][3], K(64, size)))
        else:
            if ph and p.path(ty) in ('app::command::Command', 'app::action::Action'): c.st.ev += (('unaligned', p.name(ty)),)
            k = brdelta(c, v, off)
            if 'Y' in kinds: k += 0
            nb = ('aft', org)
            put_reader(c, c.st, r, v, pos(nb, 0, ph, 'B' if ph else 'NE'), V(('last', org), 64), T(('br', nb, k)))
        return [(c.st, 'ret', c.ok(c.I.sym(ty, org))), fl]
    def write(s, c, ty):
        v = c.deref(c.a[0])
        if v[0] != 'Y' and not (v[0] == 'A' and s.e.cut_known(c.I.p.path(ty))): return None
        get_writer(c, c.a[1])
        ctx = deep(c.I, c.st, c.a[2]) if len(c.a) > 2 else ('T', ())
        fl = c.fail('write ' + c.I.p.name(ty))
        emit(c, c.a[1], ('nt', c.I.p.name(ty), deep(c.I, c.st, v), ctx, s.e.fixed_wsize(ty, c.ca)))
        return [(c.st, 'ret', c.ok()), fl]

class Engine:
    def __init__(s, prog, **opts):
        s.p = prog
        s.mo = Models(); s.mo.o = opts
        s.pol = Policy(s); s.mo.nt = s.pol
        s.opts = opts
        s.memo = {}; s.sizes = {}
        s.fns = set()
        s.rootby = {r['key']: r for r in prog.roots}
    def cut_known(s, path): return False
    def find(s, pred): return [r for r in s.p.roots if pred(r)]
    # ---------------------------------------------------------------- sizes
    def fixed_size(s, ty, ca):
        key_ = ca['inst'].replace('std::io::Cursor<&[u8]>', 'std::io::Cursor<std::vec::Vec<u8>>')
        if key_ in s.sizes: return s.sizes[key_]
        s.sizes[key_] = None
        sz = set()
        if key_ in s.p.F and s.p.path(ty) not in NTNAMES:
            for l in s.analyze(key_):
                if l.kind == 'ret' and l.ret[0] == 'A' and l.ret[2] == 'Ok':
                    sz.add(l.pos[3] if l.pos[2] == E0 else None)
                elif l.kind != 'ret': sz.add(None)
        r = sz.pop() if len(sz) == 1 else None
        s.sizes[key_] = r
        return r
    def fixed_wsize(s, ty, ca):
        """the size every reader of the type agrees on"""
        nm = s.p.name(ty)
        if ('w', nm) in s.sizes: return s.sizes['w', nm]
        ks = [k for k in s.p.F if k.startswith('<%s as deku::DekuReader<' % nm) and k.endswith('>::from_reader_with_ctx::<std::io::Cursor<std::vec::Vec<u8>>>') and 'closure' not in k]
        z = {s.fixed_size(ty, {'inst': k}) for k in ks}
        r = s.sizes['w', nm] = z.pop() if len(z) == 1 else None
        return r
    # ---------------------------------------------------------------- run
    def args_for(s, I, st, f, ph=0):
        args = []; spec = []
        for i in range(f['argc']):
            ty = f['locals'][i + 1]; t = s.p.t(ty)
            o = ('a', i)
            if t['k'] == 'ref':
                pt = s.p.t(t['ty'])
                if pt['k'] == 'adt' and pt['path'] == 'deku::prelude::Reader':
                    c = st.new(('A', t['ty'], 0, (('O', 'src'), pos(E0, 0, ph, 'B' if ph else 'N'), V(('last', E0), 64), T(('br', E0, 0)))))
                    args.append(('R', c, (), None)); spec.append(('reader', c)); continue
                if pt['k'] == 'adt' and pt['path'] == 'deku::prelude::Writer':
                    c = st.new(('O', 'wr', (), None))
                    args.append(('R', c, (), None)); spec.append(('writer', c)); continue
                if pt['k'] == 'adt' and pt['path'] == 'std::fmt::Formatter':
                    c = st.new(('O', 'fmt', ()))
                    args.append(('R', c, (), None)); spec.append(('fmt', c)); continue
                v = I.sym(ty, o)
                args.append(v); spec.append(('mut', v) if t['mut'] else ('ref', v)); continue
            args.append(I.sym(ty, o)); spec.append(('val', None))
        return args, spec
    def interp(s):
        I = Interp(s.p, s.mo, s.opts)
        return I
    def analyze(s, key_, mode=''):
        k = (key_, mode)
        if k in s.memo: return s.memo[k]
        f = s.p.F[key_]
        I = s.interp(); st = St()
        if mode.startswith('long'): I.long = LONGSEQ; I.o = dict(I.o, visits=2 * LONGSEQ + 40)
        args, spec = s.args_for(I, st, f, int(mode[2:]) if mode.startswith('ph') else 0)
        old = s.pol.all
        s.pol.all = 'all' in mode
        try: outs = I.run(key_, args, st)
        finally: s.pol.all = old
        s.fns |= I.seen_fns
        ls = [s.leaf(I, o, spec) for o in outs]
        s.memo[k] = ls
        return ls
    def leaf(s, I, o, spec):
        st, kind, v = o
        l = Leaf(); l.kind = kind; l.ev = st.ev; l.facts = dict(st.f.f); l.muts = (); l.pos = l.br = l.ems = l.text = None
        for q in I.longs:
            if not st.f.refine(I.seqlen(q), ((I.long, I.long),)): l.kind = 'cut'
        l.facts = dict(st.f.f)
        l.st = st; l.raw = v
        if kind != 'ret': l.ret = v; 
        else:
            try: l.ret = deep(I, st, v)
            except Undec as e: l.kind = 'undec'; l.ret = str(e)
        for i, sp in enumerate(spec):
            try:
                if sp[0] == 'reader':
                    rv = st.c[sp[1]]
                    l.pos = rv[3][1]; l.br = st.f.norm(rv[3][3])
                elif sp[0] == 'writer': l.ems = em_norm(st.f, st.c[sp[1]][2])
                elif sp[0] == 'fmt': l.text = deep(I, st, ('S', st.c[sp[1]][2]))
                elif sp[0] == 'mut': l.muts += ((i, deep(I, st, sp[1])),)
            except Undec as e: l.kind = 'undec'; l.ret = str(e)
        return l

if __name__ == '__main__':
    import sys, collections, traceback
    prog = Prog(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    e = Engine(prog)
    cnt = collections.Counter(); und = collections.Counter(); ex = {}
    T0 = time.time(); slow = []
    for r in prog.roots:
        if pat and pat not in r['key']: continue
        if r.get('trait') in ('std::fmt::Debug',): continue
        t0 = time.time()
        mode = 'all' if r['name'] in ('from_bytes', 'from_reader', 'try_from') and 'closure' not in r['key'] else ''
        try: ls = e.analyze(r['key'], mode)
        except Exception as x:
            print('EXC', r['key'][:150]); traceback.print_exc(limit=-4); cnt['exc'] += 1; continue
        dt = time.time() - t0
        if dt > 1: slow.append((dt, r['key'][:120], len(ls)))
        ks = collections.Counter(l.kind for l in ls)
        cnt['roots'] += 1
        if ks['undec']:
            cnt['undec'] += 1
            for l in ls:
                if l.kind == 'undec': und[str(l.ret)[:140]] += 1; ex[str(l.ret)[:140]] = r['key'][:130]
        if ks['panic']: cnt['panic'] += 1
        if ks['cut']: cnt['cut'] += 1
        if len(sys.argv) > 3:
            print(r['key'][:150], dict(ks))
            for l in ls: print('   ', str(l)[:int(sys.argv[3])])
    print(cnt, time.time() - T0)
    for u, n in und.most_common(60): print(n, u, '|', ex[u])
    for x in sorted(slow)[-15:]: print(x)
