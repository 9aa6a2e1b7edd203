"""C18: what the command line tool does with its arguments. `main` is interpreted abstractly with the command line and the outcome
of every decoder left open; every path is then a sequence of events (decoder called on what, printed what, ended how)."""
import re
from engine import *
from models import *
from evalr import Ev, Skip
from text import WS as TRIM

EXIT = 'exit '
class CliPolicy(Policy):
    def call(s, c):
        ip = strip_generics(c.ip); full_ = c.ip; inst = c.ca.get('inst') or full_
        I, st, p = c.I, c.st, c.I.p
        if ip == 'quit::__run': return I.callv(st, c.a[0], [], c.dty, c.sp, c.fr)
        if ip in ('quit::with_code', 'std::process::exit'):
            n = st.f.const(c.a[0]) if c.a[0][0] == 'I' else None
            return [(st, 'panic', (EXIT + str(n), c.sp, '-'))]
        if ip.startswith('std::sync::atomic::Atomic') and ip.endswith('::store'): return c.ret(UNIT)
        if ip.startswith('clap::Parser::parse'):
            s.x.cli = c.dty
            return c.ret(I.sym(c.dty, ('cli',)))
        if ip.startswith('env_logger::') or ip.startswith('log::') or 'clap_verbosity_flag::' in ip:
            t = p.t(c.dty)
            if t['k'] == 'ref': return c.ret(c.a[0])
            if t['k'] == 'tuple' and not t['tys']: return c.ret(UNIT)
            return c.ret(('O', 'opaque'))
        if ip in ('hex::decode', 'hex::FromHex::from_hex') or (ip.endswith('hex::FromHex>::from_hex')):
            tx = c.deref(c.a[0]); tx = textof(c, tx)
            u = st.copy(); u.ev += (('hex', tx, 'err'),)
            st.ev += (('hex', tx, 'ok'),)
            t = p.t(c.dty)
            return [(st, 'ret', c.ok(I.sym(t['args'][0], ('hex',)))), (u, 'ret', c.err('hex'))]
        if ip == 'std::io::_print':
            st.ev += (('print', deepparts(c, c.a[0][2])),); return c.ret(UNIT)
        if ip == 'std::io::_eprint': return c.ret(UNIT)
        if ip.startswith('clap::builder::PossibleValue::') or ip.startswith('clap_builder::builder::PossibleValue::') or '::PossibleValue::' in ip:
            mth = ip.rsplit('::', 1)[1]
            if mth == 'new': return c.ret(('O', 'pv', (textlit(c, c.a[0]),)))
            if mth == 'alias': return c.ret(('O', 'pv', c.a[0][2] + (textlit(c, c.a[1]),)))
            if mth == 'aliases':
                v = c.deref(c.a[1])
                return c.ret(('O', 'pv', c.a[0][2] + tuple(textlit(c, q) for q in v[1])))
            if mth in ('help', 'hide'): return c.ret(c.a[0])
        # ---- text without white space
        if ip in ('core::str::<impl str>::chars', 'std::str::<impl str>::chars'): return c.ret(('O', 'chars', textof(c, c.deref(c.a[0])), ()))
        if c.ca['path'] == 'std::iter::Iterator::filter' and c.a[0][0] == 'O' and c.a[0][1] == 'chars': return c.ret(('O', 'chars', c.a[0][2], c.a[0][3] + (pred(c, c.a[1]),)))
        if c.ca['path'] == 'std::iter::Iterator::collect' and c.a[0][0] == 'O' and c.a[0][1] in ('chars', 'words') and is_string(p.t(c.dty)):
            return c.ret(stext(c.a[0]))
        if c.ca['path'] == 'std::iter::FromIterator::from_iter' and c.a[0][0] == 'O' and c.a[0][1] in ('chars', 'words') and is_string(p.t(c.dty)):
            return c.ret(stext(c.a[0]))
        if ip in ('core::str::<impl str>::split_whitespace', 'std::str::<impl str>::split_whitespace'): return c.ret(('O', 'words', textof(c, c.deref(c.a[0])), ('not', ('ws',))))
        if ip == 'std::string::String::retain':
            r = c.a[0]; v = c.deref(r)
            while True:
                x = I.load(st, r[1], r[2])
                if x[0] != 'R': break
                r = x
            I.store(st, r[1], r[2], stext(('O', 'chars', textof(c, v), (pred(c, c.a[1]),)))); return c.ret(UNIT)
        # ---- the library
        if re.match(r'<dash7::file::FileId as std::convert::TryFrom<u8>>::try_from', inst): return c.ret(c.ok(I.sym(p.t(c.dty)['args'][0], ('fid', deep(I, st, c.a[0])))))
        mm = re.match(r'<(dash7::[\w:]+) as std::convert::TryFrom<&\[u8\]>>::try_from', inst) or re.match(r'<(dash7::[\w:]+) as deku::DekuContainerRead<.*>>::from_bytes', inst) or re.match(r'(dash7::[\w:]+)::from_bytes', inst)
        if mm:
            whole = 'TryFrom' in inst
            args = tuple(deep(I, st, a) for a in c.a)
            k = mm.group(1)
            u = st.copy(); u.ev += (('dec', k, args, 'err', whole),)
            st.ev += (('dec', k, args, 'ok', whole),)
            n = sum(1 for e in st.ev if e[0] == 'dec')
            return [(st, 'ret', c.ok(I.sym(p.t(c.dty)['args'][0], ('dec', k, n)))), (u, 'ret', c.err('decode'))]
        return None
    def read(s, c, ty): return None
def textof(c, v):
    """a canonical form of a text: ('text', origin, predicates)"""
    v = deep(c.I, c.st, v)
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'strf': return v[1][0][1:]
    return (v, ())
def stext(o): return ('S', (('strf', o[2][0], tuple(sorted(set(o[2][1] + (o[3] if o[1] == 'chars' else (o[3],))), key=repr))),))
def pred(c, f):
    """the predicate of a filter, as a term over one character"""
    st = c.st.copy()
    ch = I_char(c)
    rs = c.I.callv(st, f, [('R', st.new(ch), (), None)], c.dty, c.sp, c.fr) if takesref(c, f) else c.I.callv(st, f, [ch], c.dty, c.sp, c.fr)
    tab = []
    for s_, k, v in rs:
        if k != 'ret': raise Undec('filter predicate')
        tab.append((tuple(sorted((repr(a), b) for a, b in s_.f.f.items() if 'iswsp' in repr(a))), s_.f.norm(v)))
    if len(tab) == 1 and not tab[0][0]:
        if tab[0][1] == op(st.f, 'not', 1, V(('iswsp',), 1)): return ('not', ('ws',))
        return ('term', repr(tab[0][1]))
    ok = all(len(f_) == 1 and kval(v) is not None for f_, v in tab) and len(tab) == 2
    if ok and {(f_[0][1], kval(v)) for f_, v in tab} == {(((0, 0),), 1), (((1, 1),), 0)}: return ('not', ('ws',))
    return ('term', repr(sorted(tab, key=repr)))
def takesref(c, f):
    while f[0] == 'R': f = c.I.load(c.st, f[1], f[2])
    if f[0] == 'C':
        fn = c.I.p.F.get(c.I.p.t(f[1])['inst'])
        t = c.I.p.t(fn['locals'][2]) if fn and fn['argc'] > 1 else None
        if t and t['k'] == 'tuple': t = c.I.p.t(t['tys'][0])
        return bool(t and t['k'] == 'ref')
    return True
def I_char(c): return V(('char',), 32)
@m('std::char::methods::<impl char>::is_whitespace', 'core::char::methods::<impl char>::is_whitespace')
def is_ws(c): return c.ret(V(('iswsp',), 1))
def deepparts(c, ps):
    out = []
    for q in ps:
        out.append(q)
    return tuple(out)

# ---------------------------------------------------------------- the rule
FG, BG, CMD, FILE = 'dash7::link::frame::ForegroundFrame', 'dash7::link::frame::BackgroundFrame', 'dash7::app::command::Command', 'dash7::file::File'
def short(k): return k.split('::')[-1]
KINDS = {'Foreground': ['ForegroundFrame'], 'Background': ['BackgroundFrame'], 'Alp': ['Command'], 'Serial': [], 'Systemfile': None, None: None}
ALL = ['ForegroundFrame', 'BackgroundFrame', 'Command'] + [('File', n) for n in range(0x2F)]
def contains(v, pr):
    if pr(v): return True
    return isinstance(v, tuple) and any(contains(x, pr) for x in v)
NAMES = {}
def fieldof(p, clity, o):
    """(type, field name) of an origin inside the command line"""
    if o == ('cli',): return clity, None
    if not (isinstance(o, tuple) and len(o) == 3 and o[0] == '.'): return None, None
    ty, _ = fieldof(p, clity, o[1])
    if ty is None: return None, None
    t = p.t(ty); fn = o[2]
    if t['k'] != 'adt': return None, None
    if '.' in fn and t['adt'] == 'enum':
        vn, f = fn.split('.', 1)
        v = [q for q in t['variants'] if q['n'] == vn]
        fs = v[0]['f'] if v else []
    else: fs = t['variants'][0]['f']; f = fn
    for i, q in enumerate(fs):
        if f in (q['n'], '#%d' % i): return q['ty'], q['n']
    return None, None
def uses(p, clity, v, name):
    """does a term depend on the named field of the command line"""
    return contains(v, lambda o: isinstance(o, tuple) and len(o) == 3 and o[0] == '.' and fieldof(p, clity, o)[1] == name)
def check(x):
    p = x.prog
    e = Engine(p); e.pol = CliPolicy(e); e.mo.nt = e.pol
    if 'main' not in p.F: return x.undec('main', 'there is no main')
    x.cli = None
    e.pol.x = x
    I = e.interp(); st = St()
    outs = I.run('main', [], st)
    x.eng = e; e.fns |= I.seen_fns
    x.inc('paths', len(outs))
    pt = None
    for t in p.T:
        if t and t['k'] == 'adt' and t.get('path', '').endswith('ParseType'): pt = t
    vs = {int(v['d']): v['n'] for v in pt['variants']} if pt else {}
    names(x, p, vs)
    for s_, k, v in outs:
        path(x, I, s_, k, v, vs)
def requested(p, clity, st, vs):
    """the requested kinds of a path: subset of the variants, plus None"""
    opt = {'None', 'Some'}; kinds = set(vs.values()); fid = {'None', 'Some'}
    for key, iset in st.f.f.items():
        if len(key) != 1 or key[0][0] != 'b' or key[0][1][0] != 'v' or key[0][1][1][0] != 'disc': continue
        o, T = key[0][1][1][1:3]
        opts = {n for d, n in ((0, 'None'), (1, 'Some')) if ihas(iset, d)}
        if T.endswith('ParseType'): kinds = {n for d, n in vs.items() if ihas(iset, d)}
        elif fieldof(p, clity, o)[1] == 'parse_type': opt = opts
        elif fieldof(p, clity, o)[1] == 'file_id': fid = opts
    return opt, kinds, fid
def path(x, I, st, kind, val, vs):
    if kind in ('undec', 'cut'): x.undec('main', str(val)); return
    if kind == 'stuck': x.add('the tool ends', 'cli|stuck', 'a path of the tool never ends', where='dash7-cli'); return
    failed = kind == 'panic' and not (str(val[0]) == EXIT + '0')
    if kind == 'ret':
        v = deep(I, st, val)
        failed = v[0] == 'A' and v[2] == 'Err' or (v[0] == 'A' and 'ExitCode' in v[1])
        if v[0] == 'A' and 'ExitCode' in v[1]: x.undec('main', 'exit code value'); return
    if kind == 'panic' and str(val[0]) == EXIT + 'None': x.undec('main', 'exit code not constant'); return
    opt, kinds, fid = requested(I.p, x.cli, st, vs)
    ev = [e for e in st.ev if e[0] in ('hex', 'dec', 'print')]
    def bad(key, what): x.add(what.split(':')[0], 'cli|' + key, what, where='dash7-cli/src/parse.rs', witness={'requested': sorted(opt) + sorted(kinds) if opt != {'None'} else 'no kind', 'file': sorted(fid), 'events': [str(e)[:160] for e in ev][-6:], 'ends': 'failure' if failed else 'success'})
    hx = [e for e in ev if e[0] == 'hex']
    if not hx:
        if failed: return
        return bad('nohex', 'the text is decoded: a path succeeds without decoding the given text')
    if len(hx) > 1: x.undec('main', 'text decoded twice'); return
    src, preds = hx[0][1]
    if not uses(I.p, x.cli, src, 'hex'): bad('source', 'the given text is decoded: something else is decoded')
    elif contains(src, lambda t: isinstance(t, tuple) and (t[:1] == ('substr',) or t[:1] == ('sfn',) and t[1] not in TRIM)): bad('sourcepart', 'the given text is decoded: only a part of it is')
    if ('not', ('ws',)) not in preds or len(preds) > 1:
        if any(q[0] == 'term' for q in preds): bad('filter', 'white space is ignored: other characters are removed from the text, or white space is not')
        else: bad('filter', 'white space is ignored: white space is not removed from the text')
    if hx[0][2] == 'err':
        if not failed: bad('hexerr', 'bad text is a failure: the tool ends with success although the text is not hexadecimal')
        return
    dec = [e for e in ev if e[0] == 'dec']; pr = [e for e in ev if e[0] == 'print']
    ks = {None} if opt == {'None'} else set(kinds) if opt == {'Some'} else set(kinds) | {None}
    for k in ks:
        if k not in KINDS: x.undec('main', 'unknown kind %s' % k); continue
        exp = KINDS[k]
        if exp is None: exp = ALL if k is None else ALL[3:] if fid == {'None'} else ['given'] if fid == {'Some'} else None
        if exp is None: x.undec('main', 'file given or not is not looked at for %s' % k) if k == 'Systemfile' and not dec else bad('kind', 'the requested decoder is used: the requested file is not looked at'); continue
        x.inc('kind_paths')
        for i, d in enumerate(dec):
            want = exp[i] if i < len(exp) else None
            got = short(d[1])
            if got == 'File':
                a = d[2]
                idn = fileid(I.p, x.cli, a, st)
                got = ('File', idn) if isinstance(idn, int) else 'given' if idn == 'given' else ('File', '?')
            if got != want: bad('kind|%s' % k, 'the requested decoder is used: for %s, attempt %d is %s, expected %s' % (k, i + 1, got, want)); break
            if not contains(d[2], lambda t: t == ('hex',)) or not whole(d[2][0]): bad('input|%s' % k, 'the given bytes are decoded: %s is called on something else' % (got,)); break
            if not d[4] and got[0] != 'File' and got != 'given': bad('whole|%s' % k, 'the whole input is decoded: %s may leave bytes over' % (got,)); break
            if (got[0] == 'File' or got == 'given'):
                b = badfile(d[2], st)
                if b: bad('fileargs', 'the given bytes are decoded: ' + b); break
        else:
            oks = [i for i, d in enumerate(dec) if d[3] == 'ok']
            if oks:
                if oks[0] != len(dec) - 1 and dec[oks[0] + 1:]: bad('first|%s' % k, 'the first that decodes is shown: decoding goes on after %s was decoded' % short(dec[oks[0]][1])); continue
                if failed: bad('okfail|%s' % k, 'success is reported: the tool fails although %s was decoded' % short(dec[oks[0]][1])); continue
                n = len(dec)
                if len(pr) != 1 or not contains(pr[0][1], lambda t: isinstance(t, tuple) and t[:1] == ('dec',) and t[-1] == n): bad('print|%s' % k, 'the result is printed: what is printed is not the decoded value')
            else:
                if not failed:
                    bad('fail|%s' % k, 'failure is reported: the tool ends with success although nothing was decoded'); continue
                if len(dec) < len(exp): bad('all|%s' % k, 'all kinds are tried: only %d of %d are' % (len(dec), len(exp))); continue
                if pr: bad('printfail|%s' % k, 'the result is printed: something is printed although nothing was decoded')
def fileid(p, clity, a, st):
    r = None
    def f(t):
        nonlocal r
        if isinstance(t, tuple) and t[:1] == ('fid',):
            n = kval(t[1]); r = n if n is not None else ('given' if uses(p, clity, t[1], 'file_id') else '?')
            if r == 'given':
                o = []
                contains(t[1], lambda q: isinstance(q, tuple) and q[:1] == ('v',) and fieldof(p, clity, q[1])[0] is not None and o.append(q[1]))
                if len(set(o)) == 1 and differs(st, t[1], o[0], lambda v: v, range(256)) is not None: r = '?'
            return True
        return False
    contains(a, f)
    return r
class One(Ev):
    """terms over one unknown"""
    def __init__(s, o, v): s.o = o; s.v = v
    def var(s, o, w):
        if o == s.o: return s.v
        raise Skip('another unknown')
def differs(st, t, o, want, tries):
    """a value of the unknown o, possible on this path, for which the term is not want(value)"""
    for v in tries:
        ev = One(o, v)
        try:
            if ev.i(t) == want(v): continue
        except (Skip, RecursionError): raise Undec('cannot tell what %s is' % (t,))
        ok = True
        for k, iset in st.f.f.items():
            try: ok = ok and ihas(iset, ev.pieces(k))
            except Skip: pass
        if ok: return v
    return None
LENGTHS = sorted({b + d for n in (0, 6, 7, 8, 10, 12, 14, 15, 16, 22) for b in (1 << n,) for d in (-1, 0, 1)} | {2, 3, 10, 100, 1000, 3000})
def whole(v):
    """are these the decoded bytes, all of them"""
    if v == ('Y', v[1], ('hex',)): return True
    if contains(v, lambda t: isinstance(t, tuple) and (t[:1] in (('sub',), ('tail',)) or t[:2] == ('O', 'tail'))): return False
    return True
def badfile(a, st):
    if len(a) != 3: return 'the file decoder has other arguments'
    inp = a[0]
    if inp[0] == 'T' and not whole(inp[1][0]): return 'only a part of the given bytes is decoded'
    if inp[0] != 'T' or kval(inp[1][1]) != 0: return 'decoding does not start at bit 0'
    if not contains(a[2], lambda t: t == ('hex',)) : return 'the length passed on is not the length of the input'
    n = differs(st, a[2], ('len', ('hex',)), lambda v: v, LENGTHS)
    if n is not None: return 'the length passed on for %d bytes is not %d' % (n, n)
    return None
def textlit(c, v):
    v = c.deref(v)
    if v[0] == 'S' and len(v[1]) == 1 and v[1][0][0] == 'l': return v[1][0][1]
    raise Undec('name is not a literal')
NAMED = {'Foreground': {'foreground', 'fg'}, 'Background': {'background', 'bg'}, 'Alp': {'alp', 'a'}, 'Serial': {'serial', 'e'}, 'Systemfile': {'systemfile', 's'}}
def names(x, p, vs):
    """the names by which a kind is requested"""
    k = next((k for k in p.F if k.endswith('ParseType as clap::ValueEnum>::to_possible_value')), None)
    if k is None: return x.undec('ParseType', 'names of the kinds not found')
    e = Engine(p); e.pol = CliPolicy(e); e.mo.nt = e.pol
    I = e.interp(); st = St()
    args, _ = e.args_for(I, st, p.F[k])
    byname = {}
    for s_, kind, v in I.run(k, args, st):
        if kind != 'ret': x.undec('ParseType', str(v)); continue
        d = [iset for key, iset in s_.f.f.items() if len(key) == 1 and 'disc' in repr(key[0])]
        var = [n for dv, n in vs.items() if all(ihas(q, dv) for q in d)]
        if v[0] != 'A' or not v[3]:
            for n in var:
                if n in NAMED: x.add('kinds have their names', 'name|' + n, 'the kind %s cannot be requested' % n, where='dash7-cli/src/parse.rs')
            continue
        pv = v[3][0]
        if pv[0] != 'O' or pv[1] != 'pv': x.undec('ParseType', 'names'); continue
        x.inc('kind_names', len(pv[2]))
        for n in var:
            for q in pv[2]: byname.setdefault(q, set()).add(n)
            for q in pv[2]:
                for n2, ns in NAMED.items():
                    if n2 != n and q in ns: x.add('kinds have their names', 'name|' + q, 'the name %s requests %s instead of %s' % (q, n, n2), where='dash7-cli/src/parse.rs')
