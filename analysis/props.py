"""One rule set per property, over the summaries of one protocol variant."""
import re, time, json, os, sys, traceback, zlib
from summ import *
from compare import *

CUR = '::<std::io::Cursor<std::vec::Vec<u8>>>'

class X:
    """the analysed program of one variant, with its frozen reference table"""
    def __init__(x, variant, dump, ref):
        x.v = variant
        x.prog = Prog(dump)
        x.roots = {r['key']: r for r in x.prog.roots}
        x.eng = Engine(x.prog)
        x.viol = []; x.und = []; x.stat = {}; x.samples = []
        x.cur = build(x.prog, lambda r: r.get('trait') not in SKIP_TRAITS, x.eng)
        x.ref = Table.load(ref) if ref else None
        if x.ref:
            x.cmp = Comparer(x.cur, x.ref, x.prog)
            for k, r in x.roots.items():
                r['tag'] = tag(x, r)
    def selfname(x, r): return x.prog.name(r['self']) if 'self' in r else ''
    def add(x, rule, key, what, **kw):
        """key: identity of the violation without line numbers"""
        for o in x.viol:
            if o['key'] == key: o['n'] += 1; return
        x.viol.append(dict(rule=rule, key=key, what=what, variant=x.v, n=1, **kw))
    def has(x, key): return any(o['key'] == key for o in x.viol)
    def undec(x, key, why):
        if len(x.und) < 400: x.und.append((key, why[:200]))
        x.inc('undecided')
    def inc(x, k, n=1): x.stat[k] = x.stat.get(k, 0) + n
    def sel(x, pred): return [r for r in x.prog.roots if r['key'] in x.cur.roots and pred(r)]
    def where(x, key):
        r = x.roots.get(key)
        return (r or {}).get('span', '?')

CODEC = {'deku::DekuReader': 'reader', 'deku::DekuWriter': 'writer', 'deku::DekuUpdate': 'update', 'deku::DekuEnumExt': 'id', 'deku::DekuContainerRead': 'container', 'deku::DekuContainerWrite': 'tobytes',
         'std::clone::Clone': 'clone', 'std::cmp::PartialEq': 'eq', 'std::default::Default': 'default', 'std::cmp::Ord': 'ord', 'std::cmp::PartialOrd': 'ord', 'std::cmp::Eq': 'ord', 'std::fmt::Display': 'display'}
def tag(x, r):
    """what a public function is for"""
    if '{closure' in r['key']: return 'closure'
    t = r.get('trait')
    if t in CODEC: return CODEC[t]
    if t == 'std::convert::TryFrom':
        if '[u8]' in r['key'].split(' as ')[-1] and r['key'].startswith('<'): return 'container'
        if 'for std::vec::Vec<u8>' in r['key'] or 'BitVec' in r['key']: return 'tobytes'
        return 'conv'
    if t in ('std::convert::From', 'std::convert::Into'): return 'conv'
    if t is None:
        n = r['name']
        if n in ('from_bytes', 'from_reader'): return 'container'
        if n == 'to_bytes': return 'tobytes'
        if n == 'read': return 'reader'
        if n == 'write': return 'writer'
        return 'fn'
    return 'other:' + t
def subject(x, r):
    """the local type a function belongs to"""
    s = x.selfname(r)
    k = r['key']
    m = re.search(r'TryFrom<([\w:]+(?:<\d+>)?)> for ', k)
    if m: return m.group(1)
    if s: return s
    return r['path'].rsplit('::', 1)[0]
def is_err(l): return l.kind == 'ret' and isinstance(l.ret, tuple) and l.ret[:1] == ('A',) and l.ret[2] == 'Err'
def is_ok(l): return l.kind == 'ret' and isinstance(l.ret, tuple) and l.ret[:1] == ('A',) and l.ret[2] == 'Ok'

# ---------------------------------------------------------------- frozen comparison
def against_reference(x, pred, what=('pos',), rule='case table differs from the frozen one', filt=None, floor=0.5):
    """every public function selected by pred behaves like its frozen case table"""
    want = [k for k, ls in x.ref.roots.items() if k in x.ref.tags and x.ref.tags[k][2] and pred(Ref(k, x.ref.tags[k]))]
    for k in want:
        if k not in x.cur.roots:
            o = other_way(x, k)
            if o: x.cur.roots[k] = x.cur.roots[o]; x.prog.F[k] = x.prog.F[o]; x.roots[k] = x.roots.get(o)
    have = [k for k in want if k in x.cur.roots]
    x.inc('functions_expected', len(want)); x.inc('functions_compared', len(have))
    for k in sorted(set(want) - set(have)): x.undec(k, 'function is gone')
    if len(want) and len(have) < floor * len(want): raise Missing('%d of %d functions found' % (len(have), len(want)))
    b = dict(x.cmp.stat); nu = len(x.cmp.und)
    for k in have:
        try: ds = x.cmp.compare(k, what, filt)
        except RecursionError: x.undec(k, 'recursion'); continue
        except Exception as e:
            x.undec(k, 'comparison failed: %r' % e)
            if os.environ.get('VDEBUG'): traceback.print_exc()
            continue
        for key, a, bb, desc in ds:
            x.add(rule, 'cmp|%s' % canon(key), 'for some input this function no longer does what it did', fn=key, where=x.where(key), witness=desc)
    for s in ('cases', 'pairs', 'equal', 'sampled'): x.inc(s, x.cmp.stat[s] - b[s])
    for u in x.cmp.und[nu:]: x.undec(*u)
    return have
def other_way(x, k):
    """the same conversion, written as the other one of Into and From"""
    m = re.fullmatch(r'<(.+) as std::convert::Into<(.+)>>::into', k)
    if m: a, b = m.groups()
    else:
        m = re.fullmatch(r'<(.+) as std::convert::From<(.+)>>::from', k) or re.fullmatch(r'[\w:]*<impl std::convert::From<(?P<b>.+)> for (?P<a>.+)>::from', k)
        if not m: return None
        b, a = (m.group('a'), m.group('b')) if 'a' in m.groupdict() else m.groups()
    for o in x.cur.roots:
        if o == '<%s as std::convert::Into<%s>>::into' % (a, b) or o == '<%s as std::convert::From<%s>>::from' % (b, a) or re.fullmatch(r'[\w:]*' + re.escape('<impl std::convert::From<%s> for %s>::from' % (a, b)), o): return o
class Missing(Exception): pass
class Ref:
    def __init__(s, key, t): s.key = key; s.tag, s.subject, s.pub, s.name = t
def canon(key): return key.replace(CUR, '').replace('std::io::Cursor<std::vec::Vec<u8>>', '_')
PROPS = {}
def prop(pid):
    def d(f): PROPS[pid] = f; return f
    return d
def pubs(x, tags): return [r for r in x.prog.roots if r['pub'] and r.get('tag') in tags and r['key'] in x.cur.roots]

LEN = 'app::operation::length::Length'; VAR = 'types::VarInt'; CMD = 'app::command::Command'

# ---------------------------------------------------------------- C01
@prop('C01')
def c01(x):
    import rt
    rt.check(x)
    against_reference(x, lambda r: r.tag in ('container', 'tobytes'), ('pos',), 'whole-message entry point')
    # a recomputed length equals the announced one only while a payload of unspecified type takes exactly what was announced
    against_reference(x, lambda r: r.tag in ('reader', 'writer') and r.subject in PAYLOAD, ('pos',), 'payload of announced length')
# ---------------------------------------------------------------- C02, C03
@prop('C02')
def c02(x):
    against_reference(x, lambda r: r.tag in ('reader', 'writer'), ('pos',), 'layout')
@prop('C03')
def c03(x):
    en = lambda n: x.ref.types.get(n, {}).get('k') == 'enum'
    against_reference(x, lambda r: (en(r.subject) and r.tag in ('reader', 'writer', 'id', 'conv')) or (r.tag == 'conv' and r.name == 'try_from')
                      or r.subject in ('app::action::OpCode', 'app::operation::StatusCode') and r.tag in ('reader', 'writer', 'fn'), ('pos',), 'code table')
    codes_roundtrip(x)
def codes_roundtrip(x):
    """both directions of one enumeration agree: the code a reader case accepts is the code the writer emits for that alternative, and the one deku_id reports"""
    cur = Side(x.cur)
    for T, ks in sorted(cur.rd.items()):
        t = x.cur.types.get(T)
        if not t or t['k'] != 'enum': continue
        idk = [k for k in x.cur.roots if k.startswith('<%s as deku::DekuEnumExt<' % T)]
        if not idk: continue
        ids = {}
        for l in x.cur.roots[idk[0]]:
            if not is_ok(l): continue
            d = [(k, v) for k, v in l.facts.items() if len(k) == 1 and k[0][0] == 'b' and k[0][1][0] == 'v' and k[0][1][1][0] == 'disc']
            for vn, dv, _ in t['v']:
                if all(ihas(v, dv) for k, v in d): ids.setdefault(vn, []).append(l.ret[3][0][1])
        for cx, k in ks:
            for l in x.cur.roots[k]:
                if not is_ok(l) or l.failed(): continue
                v = l.ret[3][0][1]
                if v[0] != 'A' or not v[2]: continue
                # the code: a constant stream word at the very start, or a context-supplied id
                c = [(kk, s) for kk, s in l.facts.items() if len(kk) == 1 and kk[0][0] == 's' and kk[0][1] == E0 and kk[0][2] == 0]
                if len(c) != 1: continue
                n = ival(c[0][1])
                if n is None: continue
                x.inc('codes')
                w = ids.get(v[2])
                if not w: continue
                w = [kval(i) for i in w]
                if None in w: continue
                x.inc('code_pairs')
                if n not in w:
                    x.add('decoded code differs from reported code', 'code|%s|%s' % (T, v[2]), 'code %d selects %s::%s, which reports code %s' % (n, T, v[2], w), where=x.where(k))
# ---------------------------------------------------------------- C04, C05
def panics(x, roots):
    for r in roots:
        k = r['key']
        x.inc('functions')
        for l in x.cur.roots[k]:
            x.inc('cases')
            if l.kind == 'undec': x.undec(k, str(l.ret)); continue
            if l.kind == 'cut': x.inc('bounded'); continue
            if l.kind != 'panic': continue
            site = l.ret if isinstance(l.ret, tuple) else (l.ret,)
            cs = inputclass(x, l) or [msgkey(site)]
            w = True if all(x.has('panic|%s|%s' % (canon(k), c)) for c in cs) else x.cmp.witness(k, l)
            if w is None: x.undec(k, 'panic not confirmed: %s' % (site,)); continue
            for c in cs:
                x.add('reachable panic', 'panic|%s|%s' % (canon(k), c), 'panics: %s' % (site[0],), fn=k, where=x.where(k), path=[str(s) for s in site], witness=w)
def inputclass(x, l):
    """the alternatives of the argument for which this case is taken, if it depends on nothing else"""
    out = None
    for k, s in l.facts.items():
        if len(k) != 1 or k[0][0] != 'b' or k[0][1][0] != 'v' or k[0][1][1][0] != 'disc': return None
        o, T = k[0][1][1][1:3]; t = x.cur.types.get(T)
        if out is not None or o[0] != 'a' or not t: return None
        out = ['%s=%s' % (okey(o), vn) for vn, d, _ in t['v'] if ihas(s, d)]
    return out
def msgkey(site): return re.sub(r'_\d+', '_', str(site[0]))[:80]
@prop('C04')
def c04(x):
    panics(x, pubs(x, ('reader', 'container')))
    phases(x)
def phases(x):
    """the same at the seven unaligned starting positions"""
    for ph in range(1, 8):
        for r in pubs(x, ('reader',)):
            k = r['key']
            for l in x.eng.analyze(k, 'ph%d' % ph):
                x.inc('unaligned_cases')
                if l.kind == 'undec': x.undec(k, 'phase %d: %s' % (ph, l.ret))
                if l.kind != 'panic': continue
                s = SLeaf.of(l)
                site = l.ret if isinstance(l.ret, tuple) else (l.ret,)
                w = True if x.has('panic|%s|%s' % (canon(k), msgkey(site))) else x.cmp.witness(k, s)
                if w is None: x.undec(k, 'panic not confirmed: %s' % (site,)); continue
                x.add('reachable panic', 'panic|%s|%s' % (canon(k), msgkey(site)), 'panics when decoding starts at bit %d: %s' % (ph, site[0]), fn=k, where=x.where(k), path=[str(s) for s in site], witness=w)
@prop('C05')
def c05(x):
    panics(x, pubs(x, ('writer', 'tobytes', 'update', 'id', 'conv', 'fn', 'clone', 'eq', 'default', 'ord', 'display')))
    against_reference(x, lambda r: r.tag in ('writer', 'tobytes', 'update', 'conv', 'fn'), ('pos',), 'a value that was refused is accepted, or changed',
                      lambda a, b: (is_err(b) and not is_err(a)) or a.kind == 'panic' or truncs(a) > truncs(b))
    against_reference(x, lambda r: r.tag in ('conv', 'fn', 'writer') and r.subject in (LEN, VAR), ('pos',), 'a number is changed')
    narrow(x)
def truncs(l): return len(narrow_of(l))
def narrow_of(l):
    """partial use of a value: (origin, bits used) where the unused high bits are not known to be zero"""
    f = facts_of(l.facts) or Facts()
    out = []
    def piece(p):
        if p[0] != 'b' or p[1][0] != 'v': return
        t = p[1]; o = t[1]
        if o[0] not in ('.', 'a', 'len', '*', 'buflen', 'slen'): return
        return t, p[2], p[3]
    use = {}
    def walk(v, ctx):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'I' and isinstance(v[2], tuple):
                for p in v[2]:
                    q = piece(p)
                    if q: use.setdefault(q[0], set()).add((q[1], q[2]))
                return
            for y in v:
                if isinstance(y, tuple): walk(y, ctx)
    walk(l.ret, 0); walk(l.muts, 0)
    for e in l.ems or ():
        if e[0] == 'bits': walk(e[1], 0)
        else: walk(e[2], 0)          # not the context handed to a nested encoder: whether it is used shows in that encoder's own cases
    for t, ps in use.items():
        w = tw(t)
        cov = 0
        for lo, n in ps: cov |= mask(n) << lo
        top = cov.bit_length()
        if cov == mask(w): continue
        # bits above
        hi = f.const(sl(T(t), top, w - top)) if top < w else 0
        if hi != 0: out.append((t, top))
    return out
def narrow(x):
    """no encoder or constructor keeps only the low bits of a number it was given"""
    for r in pubs(x, ('writer', 'tobytes', 'update', 'conv', 'fn')):
        k = r['key']
        for l in x.cur.roots[k]:
            if l.kind != 'ret' or l.failed() or is_err(l): continue
            x.inc('narrowing_cases')
            for t, top in narrow_of(l):
                o = t[1]
                f = facts_of(l.facts)
                if f is None or not f.refine(T(t), ((1 << top, mask(tw(t))),)): continue
                w = None
                for env, args, ea, eb in x.cmp.valuations(k, l, l, f, 60):
                    try:
                        if ea.term(t) >> top: w = {'args': {str(i): repr(v)[:200] for i, v in args.items()}, 'value': ea.term(t)}; break
                    except (Skip, Fail): pass
                if w is None: x.undec(k, 'truncation of %s not confirmed' % okey(o)); continue
                x.add('silent truncation', 'trunc|%s|%s' % (canon(k), okey(o)), 'keeps only %d of the %d bits of %s' % (top, tw(t), okey(o)), fn=k, where=x.where(k), witness=w)
def okey(o):
    if not isinstance(o, tuple): return str(o)
    if o[0] == '.': return okey(o[1]) + '.' + str(o[2])
    if o[0] == '*': return okey(o[1])
    if o[0] == 'a': return 'arg%d' % o[1]
    if o[0] == 'el': return okey(o[1]) + '[%s]' % o[2]
    if o[0] == 'len': return 'len(%s)' % okey(o[1])
    return o[0]
# ---------------------------------------------------------------- C06, C07
@prop('C06')
def c06(x):
    against_reference(x, lambda r: r.subject == LEN and r.tag in ('reader', 'writer', 'conv', 'fn', 'container', 'tobytes'), ('pos', 'br'), 'length codec')
    format_rule(x, length_rule)
@prop('C07')
def c07(x):
    against_reference(x, lambda r: r.subject in (VAR, 'types::VarIntError') and r.tag in ('reader', 'writer', 'conv', 'fn', 'container', 'tobytes'), ('pos', 'br'), 'compressed integer')
    format_rule(x, varint_rule)
def format_rule(x, rule):
    """the frozen table is exactly the format as written in the property (the current table is compared with the frozen one), so a table frozen from a wrong tree cannot pass"""
    for k, l, good in rule(x.ref):
        x.inc('format_cases')
        if good: x.inc('format_cases_proved')
        else: x.undec(k, 'frozen case is not of the stated format')
def one(l, pred):
    for k, s in l.facts.items():
        if len(k) == 1 and pred(k[0]): return s
def length_rule(t):
    lim = [0, 1 << 6, 1 << 14, 1 << 22, 1 << 30]
    for k, ls in t.roots.items():
        if not k.startswith('<%s as deku::Deku' % LEN): continue
        if 'DekuWriter' in k:
            for l in ls:
                f = ('.', ('*', ('a', 0)), '#0'); p = ('b', ('v', f, 32), 0, 32)
                s = one(l, lambda q: q == p) or ((0, mask(32)),)
                if l.failed(): continue
                if is_err(l): yield k, l, s[0][0] >= lim[4]; continue
                n = [i for i in range(4) if s[0][0] >= lim[i] and s[-1][1] < lim[i + 1]]
                if not is_ok(l) or len(n) != 1: yield k, l, False; continue
                w = 6 + 8 * n[0]
                c = ival(s)
                want = (('bits', ('I', w + 2, (('k', w + 2, (n[0] << w) | c),) if c is not None else (('k', 2, n[0]), ('b', p[1], 0, w)))),)
                yield k, l, tuple(l.ems) == want
        elif 'DekuReader' in k:
            for l in ls:
                if l.failed(): continue
                n = ival(one(l, lambda q: q[:1] == ('s',) and q[1:] == (E0, 0, 2)) or ())
                if not is_ok(l) or n is None: yield k, l, False; continue
                w = 6 + 8 * n
                yield k, l, l.ret[3][0][1][3][0][1] == ('I', 32, (('k', 32 - w, 0), ('s', E0, 2, w))) and l.pos[:2] == (E0, w + 2)
def varint_rule(t):
    v = ('v', ('a', 0), 32)
    for l in t.roots.get('types::VarInt::compress', ()):
        k = 'types::VarInt::compress'
        s = one(l, lambda q: q == ('b', v, 0, 32)) or ((0, mask(32)),)
        c = ival(one(l, lambda q: q == ('b', ('v', ('a', 1), 1), 0, 1)) or ())
        if is_err(l): yield k, l, s[0][0] > 507904 and l.ret[3][0][1][2] == 'ValueTooLarge'; continue
        if not is_ok(l): yield k, l, l.kind == 'ret'; continue
        e, m = l.ret[3][0][1][1]
        i = kval(e)
        if i is None or not 0 <= i <= 7: yield k, l, False; continue
        rng = s[-1][1] <= 31 * 4 ** i and (i == 0 or s[0][0] > 31 * 4 ** (i - 1))
        z = one(l, lambda q: q[0] == 'b' and q[1][:2] == ('op', 'eq') and q[1][3] == (('I', 2 * i, (('b', v, 0, 2 * i),)), ('I', 2 * i, (('k', 2 * i, 0),))))
        down = ('I', 8, (('b', v, 2 * i, 8),))
        up = ('I', 8, (('b', ('op', 'add', 32, (('I', 32, (('k', 2 * i, 0), ('b', v, 2 * i, 32 - 2 * i))), ('I', 32, (('k', 32, 1),)))), 0, 8),))
        if c == 0 or i == 0 or z == ((1, 1),): yield k, l, rng and m == down
        elif c == 1 and z == ((0, 0),): yield k, l, rng and m == up
        else: yield k, l, False
    k = 'types::VarInt::decompress'
    for l in t.roots.get(k, ()):
        yield k, l, dec_rule(l, v)
def dec_rule(l, v):
    E = T(('v', ('a', 0), 8)); Mn = T(('v', ('a', 1), 8))
    f = facts_of(l.facts)
    if f is None: return True
    big_e = f.const(sl(E, 3, 5)); big_m = f.const(sl(Mn, 5, 3))
    if is_err(l): return l.ret[3][0][1][2] == ('MantissaTooLarge' if big_e == 0 else 'ExponentTooLarge')
    e = f.const(E)
    if not is_ok(l) or big_e != 0 or big_m != 0 or e is None: return False
    return l.ret[3][0][1] == ('I', 32, tuple(p for p in (('k', 27 - 2 * e, 0), ('b', ('v', ('a', 1), 8), 0, 5), ('k', 2 * e, 0)) if p[0] == 'b' or p[1]))
# ---------------------------------------------------------------- C09
@prop('C09')
def c09(x):
    for r in x.prog.roots:
        if not r['pub'] or r['key'] not in x.cur.roots: continue
        k = r['key']
        for l in x.cur.roots[k]:
            fl = [e for e in l.ev if e[0] in ('fail', 'reject')]
            if not fl: continue
            x.inc('failure_cases')
            if l.kind == 'undec': x.undec(k, str(l.ret)); continue
            if l.kind != 'ret': continue
            if is_err(l): x.inc('propagated'); continue
            x.add('failure dropped', 'drop|%s|%s' % (canon(k), fl[0][1]), 'returns normally although %s failed' % (fl[0][1],), fn=k, where=x.where(k), witness={'returns': repr(l.ret)[:300]})
    against_reference(x, lambda r: r.tag in ('reader', 'writer', 'container', 'tobytes', 'update', 'conv', 'fn'), ('pos',), 'a failure became a success',
                      lambda a, b: is_err(b) and is_ok(a))
# ---------------------------------------------------------------- C13 .. C16, C21 .. C23, C25
@prop('C13')
def c13(x):
    for r in pubs(x, ('reader',)):
        k = r['key']
        for l in x.cur.roots[k]:
            if not is_ok(l) or l.failed() or l.br is None: continue
            x.inc('accounting_cases')
            if l.br == ('I', 64, (('b', ('br', l.pos[0], l.pos[1]), 0, 64),)): x.inc('accounted'); continue
            br = l.br[2][0] if len(l.br[2]) == 1 else None
            if br and br[0] == 'b' and br[1][0] == 'br' and br[1][1] == l.pos[0] and br[1][2] != l.pos[1] and br[2:] == (0, 64):
                x.add('bit count', 'count|%s' % canon(k), 'reports %+d bits besides those it consumed' % (br[1][2] - l.pos[1]), fn=k, where=x.where(k), witness=x.cmp.witness(k, l))
            else: x.undec(k, 'bit count %s' % (l.br,))
    against_reference(x, lambda r: r.tag == 'container', ('pos', 'br'), 'remainder')
    against_reference(x, lambda r: r.tag == 'reader', ('pos', 'br'), 'bits used', lambda a, b: is_ok(a) and is_ok(b) and (a.pos != b.pos or a.br != b.br))
@prop('C14')
def c14(x):
    against_reference(x, lambda r: r.subject == CMD and r.tag in ('reader', 'writer', 'container', 'tobytes'), ('pos', 'br'), 'sequence of actions')
    for k, ls in x.ref.ph.items():          # behind the seven control bits of a transport frame
        if k not in x.cur.roots: continue
        q = k + '#7'
        x.ref.roots[q] = ls; x.cur.roots[q] = [SLeaf.of(l) for l in x.eng.analyze(k, 'ph7')]
        b = dict(x.cmp.stat); nu = len(x.cmp.und)
        for _, a, bb, desc in x.cmp.compare(q, ('pos', 'br')):
            x.add('sequence of actions', 'cmp|%s' % canon(k), 'for some input that starts inside a byte this function no longer does what it did', fn=k, where=x.where(k), witness=desc)
        for s in ('cases', 'pairs', 'equal', 'sampled'): x.inc(s, x.cmp.stat[s] - b[s])
        for u in x.cmp.und[nu:]: x.undec(*u)
ACC = ('request_tag', 'response_tag', 'request_id', 'response_id', 'tag_id', 'interface_status', 'is_last_response', 'actions_without_interface_status')
@prop('C15')
def c15(x):
    against_reference(x, lambda r: r.subject == CMD and r.name in ACC, (), 'look-up')
@prop('C16')
def c16(x):
    against_reference(x, lambda r: r.tag == 'conv' or r.tag == 'fn' and r.name not in ACC, (), 'constructed value')
@prop('C21')
def c21(x):
    against_reference(x, lambda r: textual(x, r.subject) and r.tag in ('reader', 'writer', 'container', 'tobytes', 'update'), ('pos', 'br'), 'fixed-width text')
def textual(x, T, d=0):
    t = x.ref.types.get(T)
    if not t or t['k'] != 'struct': return False
    return any(ft == 'std::string::String' for fn, ft in t['v'][0][2])
@prop('C22')
def c22(x):
    against_reference(x, lambda r: r.tag == 'update', (), 'update')
@prop('C23')
def c23(x):
    against_reference(x, lambda r: r.tag == 'display', (), 'text form')
@prop('C25')
def c25(x):
    against_reference(x, lambda r: r.tag in ('eq', 'clone', 'default', 'ord'), (), 'structural value')


# ---------------------------------------------------------------- C08
PREFIXED = ('app::operation::FileData', 'app::operation::InterfaceStatusOperation', 'app::interface_final::InterfaceFinalStatusOperation', 'app::interface_final::InterfaceTxStatusOperation')
PAYLOAD = ('file::File', 'session::InterfaceStatus', 'session::interface_final::InterfaceFinalStatus', 'session::interface_final::InterfaceTxStatus')
@prop('C08')
def c08(x):
    for r in pubs(x, ('writer',)):
        k = r['key']
        for l in x.cur.roots[k]:
            if not is_ok(l) or l.failed(): continue
            es = l.ems or ()
            for i, e in enumerate(es):
                if e[0] != 'bits': continue
                for p in e[1][2]:
                    if p[0] == 'b' and p[1][0] == 'v' and p[1][1][0] == 'buflen':
                        x.inc('length_prefixes')
                        inner = p[1][1][1]
                        if tail_matches(e, p, es[i + 1:], inner): x.inc('matched')
                        else: x.undec(k, 'length of another payload') if not other_payload(x, k, l, es[i + 1:], inner) else x.add('length prefix of another payload', 'prefix|%s' % canon(k), 'the encoded length is not that of the payload that follows it', fn=k, where=x.where(k), witness={'follows': repr(es[i + 1:])[:300]})
    against_reference(x, lambda r: r.tag in ('reader', 'writer') and (r.subject in PREFIXED or r.subject in PAYLOAD or r.subject == LEN), ('pos',), 'length-prefixed payload')
def tail_matches(e, p, rest, inner):
    if e[1][2][-1] != p: return False
    return tuple(rest[:len(inner)]) == tuple(inner)
def other_payload(x, k, l, rest, inner):
    """confirmed: under some valuation the payload that follows has another length"""
    f = facts_of(l.facts)
    if f is None: return False
    for env, args, ea, eb in x.cmp.valuations(k, l, l, f, 200):
        try:
            if (len(ea.emit(inner)) + 7) // 8 * 8 != len(ea.emit(rest)): return True
        except (Skip, Fail): pass
    return False
# ---------------------------------------------------------------- C10, C12: who may call what
def local_calls(x):
    """(function, callee path, callee, span) for every call and function constant in the crate's own bodies"""
    c = x.prog.d['crate']
    for k, f in x.prog.F.items():
        if f['crate'] != c: continue
        for b in f['blocks']:
            t = b['t']
            if t[0] == 'call': yield f['path'], (t[1].get('path') or 'dyn'), (t[1].get('ipath') or ''), t[1], b['sp']
            for s in b['s']:
                if s[0] == '=' : yield from fnconsts(x, f['path'], s[2], b['sp'])
            if t[0] == 'call':
                for o in t[2]: yield from fnconsts(x, f['path'], o, b['sp'])
def fnconsts(x, fp, v, sp):
    if isinstance(v, dict):
        if 'k' in v and isinstance(v['k'], dict) and 'ty' in v['k']:
            t = x.prog.t(v['k']['ty'])
            if t['k'] == 'fndef': yield fp, t.get('path', t['name']), '', {}, sp
        for y in v.values():
            if isinstance(y, (list, dict)): yield from fnconsts(x, fp, y, sp)
    elif isinstance(v, list):
        for y in v:
            if isinstance(y, (list, dict)): yield from fnconsts(x, fp, y, sp)
NE = re.compile(r'::(to_ne_bytes|from_ne_bytes|to_ne|from_ne)$')
@prop('C10')
def c10(x):
    for r in x.prog.roots:
        if not r['pub'] or r['key'] not in x.cur.roots: continue
        for l in x.cur.roots[r['key']]:
            x.inc('cases')
            for e in l.ev:
                if e[0] == 'native': x.add('host byte order', 'native|%s|%s' % (canon(r['key']), e[1]), '%d-bit %s is read or written in the byte order or width of the host' % (e[2], e[1]), fn=r['key'], where=x.where(r['key']))
    n = 0
    for fp, path, ip, ca, sp in local_calls(x):
        n += 1
        for q in (path, ip):
            if NE.search(re.sub(r'::<[^>]*>$', '', q)): x.add('host byte order', 'ne|%s|%s' % (fp, q), 'calls ' + q, fn=fp, where=sp)
    x.inc('call_sites', n)
    for p, txt in sources():
        x.inc('source_files')
        for m in re.finditer(r'cfg(?:_attr)?!?\s*\(([^;{]*?target_(?:endian|pointer_width|arch|os|family|env|vendor|has_atomic|feature)[^;{]*?)\)', txt):
            x.add('host condition', 'cfg|%s|%s' % (p, re.sub(r'\s+', '', m.group(1))[:60]), 'behaviour depends on the target: ' + m.group(0)[:100], where=p)
def sources(sub='dash7/src'):
    base = os.environ.get('VERIF_REPO', '/repo')
    for d, ds, fs in os.walk(os.path.join(base, sub)):
        for f in sorted(fs):
            if f.endswith('.rs'):
                p = os.path.join(d, f)
                yield os.path.relpath(p, base), strip_comments(open(p).read())
def strip_comments(t):
    return re.sub(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' and 'target' not in m.group(0) else ('""' if m.group(0)[0] == '"' else ' '), t, flags=re.S)
DENY = re.compile(r'^(?:<?\(?&?)?(?:(?:std|core|alloc)::(?:io::(?:_print|_eprint|stdin|stdout|stderr|stdio|Stdout|Stdin|Stderr|copy)|fs::|env::|net::|process::|thread::|time::|os::|sys::|random::|hash::(?:random|RandomState)|sync::(?:atomic|Mutex|RwLock|mpsc|OnceLock|LazyLock|Once\b|Condvar|Barrier|poison)|backtrace|panic::(?:set_hook|take_hook|Location)|alloc::set|intrinsics::(?:volatile|atomic))|log::|env_logger|rand|getrandom|chrono::|libc::|tracing|tokio|std::collections::hash_map::RandomState|anyhow)')
DENYANY = re.compile(r'RandomState|SystemTime|Instant::now|LocalKey|HashMap<.*>::(?:iter|keys|values|into_iter|drain)|ThreadId|__rust_std_internal|log::__private_api')
@prop('C12')
def c12(x):
    n = 0
    for fp, path, ip, ca, sp in local_calls(x):
        n += 1
        for q in (path, ip):
            if q and (DENY.search(q) or DENYANY.search(q)):
                x.add('effect', 'effect|%s|%s' % (fp, q), 'calls ' + q, fn=fp, where=sp); break
    x.inc('call_sites', n)
    x.inc('functions', sum(1 for f in x.prog.F.values() if f['crate'] == x.prog.d['crate']))
    st = {c['path'] for c in x.prog.d['consts'] if c['kind'] == 'Static' and c.get('state')}
    x.inc('statics', sum(1 for c in x.prog.d['consts'] if c['kind'] == 'Static'))
    for k, f in x.prog.F.items():
        if f['crate'] != x.prog.d['crate']: continue
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'other' and 'ThreadLocalRef' in str(s[2][1]): x.add('state', 'tls|%s' % f['path'], 'uses thread-local state', fn=f['path'], where=b['sp'])
                if s[0] == '=' and s[2][0] == 'cast' and 'ExposeProvenance' in s[2][1]: x.add('address', 'addr|%s' % f['path'], 'uses an address as a number', fn=f['path'], where=b['sp'])
            if st:
                for q in statics(b): 
                    if q in st: x.add('state', 'static|%s|%s' % (f['path'], q), 'uses the mutable static %s' % q, fn=f['path'], where=b['sp'])
    if n < 5000: raise Missing('only %d call sites' % n)
def statics(v):
    if isinstance(v, dict):
        if 'static' in v and isinstance(v['static'], str): yield v['static']
        for y in v.values():
            if isinstance(y, (list, dict)): yield from statics(y)
    elif isinstance(v, list):
        for y in v:
            if isinstance(y, (list, dict)): yield from statics(y)
# ---------------------------------------------------------------- C11
UNS_OK = re.compile(r'std::(?:fmt::|mem::MaybeUninit|ptr::drop_in_place|slice::from_raw_parts_mut|ptr::(?:mut_ptr|const_ptr|read|write|NonNull)|mem::forget|mem::ManuallyDrop)|^core::ptr::|core::slice::raw')
@prop('C11')
def c11(x):
    keys = []
    for k in x.cur.roots:
        for l in x.cur.roots[k]:
            ev = [e for e in l.ev if e[0] in ('dropped', 'forget', 'uninit-read', 'init')]
            if not ev: continue
            x.inc('array_cases'); keys.append(k)
            for e in ev:
                if e[0] == 'uninit-read': x.add('uninitialised memory', 'uninit|%s' % canon(k), 'uninitialised memory is read', fn=k, where=e[1])
            dropped = {}; made = {}
            for e in ev:
                if e[0] == 'init': made.setdefault(e[1], []).append(e[2])
                if e[0] != 'dropped': continue
                _, cell, start, n, bad, ninit = e
                if bad: x.add('uninitialised memory', 'dropuninit|%s' % canon(k), 'drops slots %s, which were never initialised' % (list(bad),), fn=k, where=x.where(k), witness={'events': repr(l.ev)[:300]})
                dropped.setdefault(cell, []).extend(range(start, start + n))
            for cell in set(dropped) | set(made):
                d = dropped.get(cell, []); q = made.get(cell, [])
                if l.kind != 'ret': continue
                x.inc('arrays_on_failure' if is_err(l) else 'arrays_on_success')
                if len(set(d)) < len(d): x.add('double drop', 'twice|%s' % canon(k), 'elements %s are dropped twice' % sorted({i for i in d if d.count(i) > 1}), fn=k, where=x.where(k), witness={'events': repr(l.ev)[:300]})
                if is_err(l) and q and set(d) != set(q) and not whole(l, cell, q): x.add('drop count', 'dropcount|%s' % canon(k), 'when decoding fails, elements %s have been decoded and elements %s are dropped' % (sorted(set(q)), sorted(set(d))), fn=k, where=x.where(k), witness={'events': repr(l.ev)[:300]})
                if not is_err(l) and d: x.add('drop count', 'droplive|%s' % canon(k), 'elements handed to the caller are dropped as well', fn=k, where=x.where(k), witness={'events': repr(l.ev)[:300]})
    x.inc('functions', len(set(keys)))
    n = 0
    for fp, path, ip, ca, sp in local_calls(x):
        if ca.get('unsafe'):
            n += 1
            if not UNS_OK.search(path): x.add('unchecked operation', 'unsafe|%s|%s' % (fp, path), 'performs the unchecked operation ' + path, fn=fp, where=sp)
    x.inc('unsafe_calls', n)
    for k, f in x.prog.F.items():
        if f['crate'] != x.prog.d['crate']: continue
        for b in f['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'cast' and s[2][1] == 'Transmute' and not benign(x, f, s[2]): x.add('unchecked operation', 'transmute|%s' % f['path'], 'transmutes', fn=f['path'], where=b['sp'])
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1] == 'adt' and x.prog.t(s[2][2][0]).get('adt') == 'union' and x.prog.t(s[2][2][0]).get('local'): x.add('unchecked operation', 'union|%s' % f['path'], 'builds a union', fn=f['path'], where=b['sp'])
    for k, ls in x.cur.roots.items():
        for l in ls:
            if l.kind == 'undec' and k in keys: x.undec(k, str(l.ret))
def benign(x, f, c):
    """casts the compiler itself inserts: pointer to number for alignment checks, pointer to pointer"""
    if x.prog.t(c[3])['k'] in ('ptr', 'ref'): return True
    o = c[2]
    pl = o.get('p') or o.get('c') or o.get('m') if isinstance(o, dict) else None
    if isinstance(o, (list, tuple)): pl = o[1] if len(o) > 1 else None
    try:
        if isinstance(pl, list) and not pl[1]: return x.prog.t(f['locals'][pl[0]])['k'] in ('ptr', 'ref', 'fndef', 'fnptr')
    except (KeyError, IndexError, TypeError): pass
    return False
def whole(l, cell, q):
    """the array was completed and handed over before a later step failed"""
    return len(set(q)) == max(e[3] for e in l.ev if e[0] == 'init' and e[1] == cell)
# ---------------------------------------------------------------- C17
@prop('C17')
def c17(x):
    for k, ls in x.cur.roots.items():
        if not x.roots[k]['pub']: continue
        x.inc('functions')
        for l in ls:
            if l.kind == 'stuck':
                w = x.cmp.witness(k, l)
                if w is None: x.undec(k, 'endless loop not confirmed: %s' % (l.ret,)); continue
                x.add('loop without progress', 'loop|%s|%s' % (canon(k), l.ret[2]), 'does not terminate: %s' % l.ret[0], fn=k, where=l.ret[1], witness=w)
            elif l.kind == 'undec': x.undec(k, str(l.ret))
            elif l.kind == 'cut': x.inc('bounded')
            x.inc('cases')
    for r in pubs(x, ('reader',)):          # and when decoding starts inside a byte
        k = r['key']
        for ph in range(1, 8):
            for l in x.eng.analyze(k, 'ph%d' % ph):
                x.inc('unaligned_cases')
                if l.kind != 'stuck' or x.has('loop|%s|%s' % (canon(k), l.ret[2])): continue
                w = x.cmp.witness(k, SLeaf.of(l))
                if w is None: x.undec(k, 'endless loop not confirmed: %s' % (l.ret,)); continue
                x.add('loop without progress', 'loop|%s|%s' % (canon(k), l.ret[2]), 'does not terminate when decoding starts at bit %d: %s' % (ph, l.ret[0]), fn=k, where=l.ret[1], witness=w)
    # no wire type contains itself
    P = x.prog
    edges = {}
    for i, t in enumerate(P.T):
        if t['k'] == 'adt':
            s = set()
            if t.get('local') and t['adt'] != 'union':
                for v in t['variants']:
                    for f in v['f']: s.add(f['ty'])
            elif not t.get('local'): s |= {a for a in t.get('args', ()) if isinstance(a, int)}
            edges[i] = s
        elif t['k'] in ('array', 'slice', 'ref', 'ptr'): edges[i] = {t['ty']}
        elif t['k'] == 'tuple': edges[i] = set(t['tys'])
    codec = {r['self'] for r in P.roots if r.get('trait') == 'deku::DekuReader' and 'self' in r}
    for i in codec:
        seen = set(); todo = list(edges.get(i, ()))
        while todo:
            j = todo.pop()
            if j in seen: continue
            seen.add(j); todo += edges.get(j, ())
        x.inc('types')
        if i in seen: x.add('recursive wire type', 'rectype|%s' % P.name(i), '%s contains itself, so the depth of its decoding is chosen by the input' % P.name(i), where=P.name(i))
    # every nested decoder that a loop repeats consumes input
    for T, ks in Side(x.cur).rd.items():
        rep = any(True for k in x.cur.roots for _ in ())
    loop_elements(x)
    # no recursion between the crate's functions
    G = {}
    c = P.d['crate']
    for k, f in P.F.items():
        if f['crate'] != c: continue
        G[k] = {b['t'][1].get('inst') for b in f['blocks'] if b['t'][0] == 'call'}
    for k in G:
        seen = set(); todo = [y for y in G[k] if y in G]
        while todo:
            j = todo.pop()
            if j in seen: continue
            seen.add(j); todo += [y for y in G[j] if y in G]
        if k in seen: x.undec(k, 'recursive function')
    x.inc('call_graph', len(G))
def loop_elements(x):
    side = Side(x.cur)
    els = set()
    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 5 and v[0] == 'rv': els.add(v[4][1])
            for y in v:
                if isinstance(y, tuple): walk(y)
    for k, ls in x.cur.roots.items():
        if x.roots[k].get('tag') == 'reader':
            for l in ls: walk(l.pos); walk(l.ret)
    els.add('app::action::Action')
    for T in sorted(els):
        for cx, k in side.rd.get(T, ()):
            x.inc('repeated_types')
            for l in x.cur.roots[k]:
                if not is_ok(l) or l.failed(): continue
                if l.pos[0] == E0 and l.pos[1] == 0:
                    x.add('repeated element of no size', 'zero|%s' % canon(k), 'a repeated element is decoded without taking input', fn=k, where=x.where(k), witness=x.cmp.witness(k, l))
# ---------------------------------------------------------------- C19, C24
def consts(P): return {(c['path'], c['for']): c for c in P.d['consts'] if 'v' in c}
def cval(v):
    while isinstance(v, dict) and 'adt' in v and len(v['adt'][1]) == 1: v = v['adt'][1][0]
    return int(v['i']) if isinstance(v, dict) and 'i' in v else None
@prop('C19')
def c19(x):
    cur = consts(x.prog)
    groups = {}
    for path, for_, self_, tr, v, pub in x.ref.consts:
        if tr or not pub: continue
        c = cur.get((path, for_))
        x.inc('constants')
        if c is None: x.undec(path, 'constant is gone'); continue
        if c['v'] != v: x.add('constant value', 'const|%s' % path, '%s is %s, was %s' % (path, cval(c['v']), cval(v)), where=c['span'])
        else: x.inc('equal')
    for (path, for_), c in cur.items():
        if c.get('trait') or not c.get('self') or not c['pub']: continue
        groups.setdefault(c['self'], {}).setdefault(cval(c['v']), []).append((path, c['span']))
    for g, d in groups.items():
        for v, ps in d.items():
            x.inc('distinct_values')
            if len(ps) > 1 and v is not None: x.add('two names of one value', 'dup|%s|%s' % (g, v), '%s all are %s' % ([p for p, _ in ps], v), where=ps[0][1])
    against_reference(x, lambda r: r.subject == 'app::operation::StatusCode' and r.tag in ('fn', 'ord', 'eq'), (), 'status code')
    if x.stat['constants'] < 40: raise Missing('constants')
@prop('C24')
def c24(x):
    P = x.prog
    cur = consts(P)
    decl = {}
    for (path, for_), c in cur.items():
        if c.get('trait', '').endswith('file::SystemFile'):
            decl.setdefault(for_ or c['self'], {})[c['name']] = (cval(c['v']), c['span'])
    x.inc('declarations', len(decl))
    for path, for_, self_, tr, v, pub in x.ref.consts:
        if not (tr or '').endswith('SystemFile'): continue
        c = cur.get((path, for_))
        if c is None: x.undec(path + for_, 'declaration is gone'); continue
        if c['v'] != v: x.add('declared constant', 'decl|%s|%s' % (path, for_), '%s of %s is %s, was %s' % (c['name'], for_ or self_, cval(c['v']), cval(v)), where=c['span'])
    side = Side(x.cur)
    # code -> FileId -> File alternative -> payload type
    byid = {}
    for cx, k in side.rd.get('file::FileId', ()):
        for l in x.cur.roots[k]:
            if not is_ok(l) or l.failed(): continue
            v = l.ret[3][0][1]
            for kk, s in l.facts.items():
                if len(kk) == 1 and kk[0][0] == 's' and kk[0][1] == E0 and kk[0][2] == 0 and kk[0][3] == 8 and isize(s) <= 256:
                    for n in ienum(s): byid.setdefault(n, set()).add(v[2])
    x.inc('codes', len(byid))
    pay = {}; size = {}
    t = x.cur.types.get('file::FileId')
    for cx, k in side.rd.get('file::File', ()):
        if not cx: continue
        for l in x.cur.roots[k]:
            if not is_ok(l) or l.failed(): continue
            v = l.ret[3][0][1]
            if v[0] != 'A' or not v[3]: continue
            ids = [vn for vn, d, _ in t['v'] if all(ihas(s, d) for kk, s in l.facts.items() if len(kk) == 1 and kk[0][0] == 'b' and kk[0][1][0] == 'v' and kk[0][1][1][0] == 'disc' and kk[0][1][1][2] == 'file::FileId')]
            pt = v[3][0][1]
            for i in ids: pay.setdefault(i, set()).add(pt[1] if pt[0] in ('A', 'Y') else '?')
    for T, d in sorted(decl.items()):
        if 'ID' in d:
            n, sp = d['ID']
            x.inc('identifiers')
            got = {p for f in byid.get(n, ()) for p in pay.get(f, ())}
            if got and got != {T}: x.add('declared identifier', 'id|%s' % T, '%s declares identifier %s, which selects %s' % (T, n, sorted(got)), where=sp)
            elif not got: x.undec(T, 'identifier %s selects nothing known' % n)
        if 'SIZE' in d:
            n, sp = d['SIZE']
            x.inc('sizes')
            G = re.sub(r'<\d+>$', '<9>', T)          # the size of a generic file type does not depend on its number
            ks = side.wr.get(T) or side.wr.get(G) or []
            rk = side.rd.get(T) or side.rd.get(G) or []
            z = set()
            for cx, k in ks or ():
                for l in x.cur.roots[k]:
                    if is_ok(l) and not l.failed(): z.add(emsize(x, side, l.ems))
            if not z:
                for cx, k in rk:
                    for l in x.cur.roots[k]:
                        if is_ok(l) and not l.failed(): z.add(l.pos[1] if l.pos[0] == E0 else None)
            if None in z or not z: x.undec(T, 'size of encoding'); continue
            if z != {n * 8}: x.add('declared size', 'size|%s' % T, '%s declares %s bytes, its encoding has %s bits' % (T, n, sorted(z)), where=sp)
            else: x.inc('sizes_equal')
    against_reference(x, lambda r: r.name == 'specifier' or r.subject in ('file::File', 'file::FileId') and r.tag in ('reader', 'writer', 'conv', 'container', 'id'), ('pos',), 'file selection')
def emsize(x, side, ems, memo=None):
    """number of bits of an encoding, if it is the same for every value"""
    memo = {} if memo is None else memo
    n = 0
    for e in ems or ():
        if e[0] == 'bits': n += e[1][1]; continue
        if e[0] == 'nt':
            k = side.codec(side.wr, e[1], e[3])
            if k not in memo:
                memo[k] = None
                z = {emsize(x, side, l.ems, memo) for l in x.cur.roots[k] if is_ok(l) and not l.failed()}
                memo[k] = z.pop() if len(z) == 1 else None
            if memo[k] is None: return None
            n += memo[k]; continue
        return None
    return n

def make_ref(variant, dump, out):
    x = X(variant, dump, None)
    t = x.cur
    t.dom = dict(DOM)
    t.tags = {}
    x.ref = t
    for k in t.roots:
        r = x.roots[k]
        t.tags[k] = (tag(x, r), subject(x, r), r['pub'], r['name'])
    for k in t.roots:
        if t.tags[k][:2] == ('reader', CMD): t.ph[k] = [SLeaf.of(l) for l in x.eng.analyze(k, 'ph7')]
    t.dom = dict(DOM)
    t.consts = [[c['path'], c['for'], c.get('self'), c.get('trait'), c['v'], c['pub']] for c in x.prog.d['consts'] if 'v' in c]
    t.save(out)
@prop('C18')
def c18(x):
    import cli
    cli.check(x)
class XBin(X):
    def __init__(x, variant, dump):
        x.v = variant; x.prog = Prog(dump); x.eng = None; x.viol = []; x.und = []; x.stat = {}; x.samples = []
def run(pid, variant, dump, ref):
    t0 = time.time()
    x = XBin(variant, dump) if pid == 'C18' else X(variant, dump, ref)
    t1 = time.time()
    err = None
    try: PROPS[pid](x)
    except Missing as e: err = 'missing: %s' % e
    x.stat['analysed_functions'] = len(x.eng.fns) if x.eng else 0
    return {'variant': variant, 'violations': x.viol, 'undecided': x.und, 'stat': x.stat, 'error': err, 't': [t1 - t0, time.time() - t1]}
if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    if sys.argv[1] == 'ref': make_ref(*sys.argv[2:5])
    else:
        pid, variant, dump, ref, out = sys.argv[1:6]
        r = run(pid, variant, dump, ref)
        json.dump(r, open(out, 'w'), indent=1)
