"""Iterators, and the less common Vec/slice operations.

An iterator is interpreted by its meaning: a source (slice, owned sequence, range) and the chain of adapters
around it, advanced one item at a time; each consumer is a loop over the items in every state the closures lead to."""
from dom import *
from interp import *
from models import *
import models as M

CH = 90
def safe(st, fn):
    """fn(state) -> outs; case splits asked for inside fn are done here, on a state fn has not touched"""
    work = [st]; outs = []
    while work:
        s0 = work.pop()
        t = s0.copy()
        try: outs += fn(t)
        except Fork as e:
            for iset in e.sets:
                u = s0.copy()
                if u.f.refine(e.i, iset): work.append(u)
        except Undec as e: outs.append((s0, 'undec', str(e)))
        except Cut as e: outs.append((s0, 'cut', str(e)))
        if len(outs) + len(work) > 4000: return outs + [(s0, 'undec', 'too many cases in an iterator')]
    return outs
def then(outs, fn):
    r = []
    for o in outs:
        if o[1] == 'ret': r += safe(o[0], lambda t, v=o[2]: fn(t, v))
        else: r.append(o)
    return r
def retty(I, f):
    """return type of a function item"""
    t = I.p.t(f[1])
    g = I.p.F.get(t.get('inst'))
    if g: return g['locals'][0]
    own = t['path'].rsplit('::', 1)
    for i, x in enumerate(I.p.T):
        if x['k'] == 'adt' and x.get('path') == own[0] and any(v['n'] == own[1] for v in x['variants']) and x['adt'] == 'enum' : return i
        if x['k'] == 'adt' and x.get('path') == t['path']: return i
    raise Undec('result type of ' + t['name'])
def callf(c, st, ref, args, dty=None):
    """call the closure or function stored at ref (or a plain value)"""
    def go(t):
        f = ref; at = None
        while f[0] == 'R': at = f; f = c.I.load(t, f[1], f[2])
        if f[0] == 'C': return c.I.closure(t, f, at or f, list(args))
        if f[0] == 'F': return c.I.callv(t, f, list(args), retty(c.I, f) if dty is None else dty, c.sp, c.fr)
        raise Undec('callee')
    return safe(st, go)
def fld(c, ty, name):
    for i, f in enumerate(c.I.p.T[ty]['variants'][0]['f']):
        if f['n'] == name: return i
    raise Undec('no field ' + name)
def sub(ref, i): return ('R', ref[1], ref[2] + (('f', i),), None)
NONE = ('end',)
def nxt(c, st, ref, back=False):
    """-> [(st, 'ret', NONE | ('item', v)) | other outs]"""
    return safe(st, lambda t: nxt1(c, t, ref, back))
def nxt1(c, st, ref, back):
    I = c.I
    v = I.load(st, ref[1], ref[2])
    while v[0] == 'R': ref = v; v = I.load(st, ref[1], ref[2])
    if v[0] == 'Y': v = I.expand(st, v); I.store(st, ref[1], ref[2], v)
    if v[0] == 'O' and v[1] == 'it':
        _, _, q, s0, n, i = v
        k = seqneed(I, st, n)
        if i >= k: return [(st, 'ret', NONE)]
        j = k - 1 if back else i
        I.store(st, ref[1], ref[2], ('O', 'it', q, s0, K(64, k - 1), i) if back else ('O', 'it', q, s0, n, i + 1))
        return [(st, 'ret', ('item', ('R', q[1], q[2] + (('e', s0 + j),), None)))]
    if v[0] == 'O' and v[1] == 'vit':
        _, _, q, i, n = v
        k = seqneed(I, st, n)
        if i >= k: return [(st, 'ret', NONE)]
        j = k - 1 if back else i
        I.store(st, ref[1], ref[2], ('O', 'vit', q, i, K(64, k - 1)) if back else ('O', 'vit', q, i + 1, n))
        x = q[1][j] if q[0] in ('Q', 'L') else I.elem(q, I.elemty(q[1]), j)
        return [(st, 'ret', ('item', x))]
    if v[0] != 'A': raise Undec('iterator %s' % (v[:2],))
    ty = v[1]; t = I.p.t(ty); nm = t['path'].split('::')[-1]
    std = not t.get('local')
    R = lambda n: sub(ref, fld(c, ty, n))
    put = lambda s, n, x: I.store(s, ref[1], ref[2] + (('f', fld(c, ty, n)),), x)
    get = lambda s, n: I.load(s, ref[1], ref[2] + (('f', fld(c, ty, n)),))
    one = lambda s, x: [(s, 'ret', x)]
    if not std or nm not in ('Map', 'Filter', 'FilterMap', 'Enumerate', 'Zip', 'Chain', 'Rev', 'Take', 'Skip', 'TakeWhile', 'SkipWhile', 'MapWhile', 'Cloned', 'Copied', 'Inspect', 'Range',
                             'RangeInclusive', 'Once', 'Empty', 'Fuse', 'IntoIter', 'Iter', 'StepBy', 'Peekable', 'RangeFrom', 'Item'):
        key_ = '<%s as std::iter::%s' % (t['name'], 'DoubleEndedIterator>::next_back' if back else 'Iterator>::next')
        if key_ not in I.p.F: raise Undec('next of ' + t['name'][:80])
        return opt(c, I.run(key_, [ref], st))
    if nm == 'Map':
        return then(nxt(c, st, R('iter'), back), lambda s, x: one(s, x) if x is NONE else [(o[0], 'ret', ('item', o[2])) if o[1] == 'ret' else o for o in callf(c, s, R('f'), [x[1]])])
    if nm in ('Filter', 'SkipWhile', 'FilterMap', 'Inspect', 'TakeWhile', 'MapWhile'):
        if back and nm not in ('Filter', 'FilterMap', 'Inspect'): raise Undec(nm + ' backwards')
        if nm in ('TakeWhile', ) and const(st, get(st, 'flag')): return one(st, NONE)
        pend = [st]; outs = []; n = 0
        while pend:
            n += 1
            if n > 3000: return outs + [(pend[0], 'undec', 'filter')]
            s_ = pend.pop()
            for o in nxt(c, s_, R('iter'), back):
                if o[1] != 'ret' or o[2] is NONE: outs.append(o); continue
                x = o[2][1]
                if nm == 'SkipWhile' and const(o[0], get(o[0], 'flag')): outs.append(o); continue
                cell = o[0].new(x)
                arg = x if nm in ('FilterMap', 'MapWhile') else ('R', cell, (), None)
                pred = R({'FilterMap': 'f', 'Inspect': 'f'}.get(nm, 'predicate'))
                for q in callf(c, o[0], pred, [arg]):
                    if q[1] != 'ret': outs.append(q); continue
                    if nm == 'Inspect': outs.append((q[0], 'ret', o[2])); continue
                    if nm in ('FilterMap', 'MapWhile'):
                        for w in opt(c, [q]):
                            if w[1] == 'ret' and w[2] is NONE and nm == 'FilterMap': pend.append(w[0])
                            else: outs.append(w)
                        continue
                    for w in bools(q[0], q[2]):
                        if w[1] != 'ret': outs.append(w); continue
                        if nm == 'Filter':
                            if w[2]: outs.append((w[0], 'ret', o[2]))
                            else: pend.append(w[0])
                        elif nm == 'SkipWhile':
                            if w[2]: pend.append(w[0])
                            else: put(w[0], 'flag', TRUE); outs.append((w[0], 'ret', o[2]))
                        else:
                            if w[2]: outs.append((w[0], 'ret', o[2]))
                            else: put(w[0], 'flag', TRUE); outs.append((w[0], 'ret', NONE))
        return outs
    if nm == 'Enumerate':
        if back: raise Undec('enumerate backwards')
        def f(s, x):
            if x is NONE: return one(s, x)
            n = get(s, 'count'); put(s, 'count', op(s.f, 'add', 64, n, K(64, 1)))
            return one(s, ('item', ('T', (n, x[1]))))
        return then(nxt(c, st, R('iter')), f)
    if nm == 'Zip':
        if back: raise Undec('zip backwards')
        def g(s, x):
            if x is NONE: return one(s, x)
            return then(nxt(c, s, R('b')), lambda s2, y: one(s2, NONE) if y is NONE else one(s2, ('item', ('T', (x[1], y[1])))))
        return then(nxt(c, st, R('a')), g)
    if nm == 'Chain':
        order = ('b', 'a') if back else ('a', 'b')
        def tryone(s, names):
            if not names: return one(s, NONE)
            o = get(s, names[0])
            if o[0] == 'Y': o = I.expand(s, o); put(s, names[0], o)
            if I.p.vname(o[1], o[2]) == 'None': return tryone(s, names[1:])
            q = R(names[0]); inner = ('R', q[1], q[2] + (('v', o[2]), ('f', 0)), None)
            return then(nxt(c, s, inner, back), lambda s2, x: one(s2, x) if x is not NONE else tryone(s2, names[1:]))
        return tryone(st, order)
    if nm == 'Rev': return nxt(c, st, R('iter'), not back)
    if nm in ('Fuse',): return nxt(c, st, R('iter'), back)
    if nm == 'Take':
        if back: raise Undec('take backwards')
        n = get(st, 'n'); z = const(st, op(st.f, 'eq', 1, n, K(64, 0)))
        if z: return one(st, NONE)
        put(st, 'n', op(st.f, 'sub', 64, n, K(64, 1)))
        return nxt(c, st, R('iter'))
    if nm == 'Skip':
        if back: raise Undec('skip backwards')
        n = seqneed(I, st, get(st, 'n')); put(st, 'n', K(64, 0))
        outs = [(st, 'ret', ('item', None))]
        for _ in range(n): outs = then(outs, lambda s, x: one(s, x) if x is NONE else nxt(c, s, R('iter')))
        return then(outs, lambda s, x: one(s, x) if x is NONE else nxt(c, s, R('iter')))
    if nm in ('Cloned', 'Copied'):
        return then(nxt(c, st, R('it'), back), lambda s, x: one(s, x) if x is NONE else [(o[0], 'ret', ('item', o[2])) if o[1] == 'ret' else o for o in clone(c, s, x[1])])
    if nm == 'Peekable':
        if back: raise Undec('peekable backwards')
        o = get(st, 'peeked')
        if o[0] == 'Y': o = I.expand(st, o)
        if I.p.vname(o[1], o[2]) == 'Some':
            put(st, 'peeked', optv(c, o[1], 'None'))
            return opt(c, [(st, 'ret', o[3][0])])
        return nxt(c, st, R('iter'))
    if nm == 'StepBy':
        if back: raise Undec('step_by backwards')
        first = const(st, get(st, 'first_take')); put(st, 'first_take', FALSE)
        n = 0 if first else const(st, get(st, 'step_minus_one'))
        outs = [(st, 'ret', ('item', None))]
        for _ in range(n + 1): outs = then(outs, lambda s, x: one(s, x) if x is NONE else nxt(c, s, R('iter')))
        return outs
    if nm == 'Range':
        a, b = v[3]
        if not I.p.t(I.p.T[ty]['args'][0])['k'] in ('uint', 'int'): raise Undec('range')
        if const(st, op(st.f, 'lt', 1, a, b)) == 0: return one(st, NONE)
        if back:
            b2 = op(st.f, 'sub', b[1], b, K(b[1], 1)); I.store(st, ref[1], ref[2], ('A', ty, v[2], (a, b2))); return one(st, ('item', b2))
        I.store(st, ref[1], ref[2], ('A', ty, v[2], (op(st.f, 'add', a[1], a, K(a[1], 1)), b)))
        return one(st, ('item', a))
    if nm == 'RangeInclusive':
        a, b, ex = v[3]
        if const(st, ex): return one(st, NONE)
        if const(st, op(st.f, 'lt', 1, b, a)): return one(st, NONE)
        eq = const(st, op(st.f, 'eq', 1, a, b))
        if eq: I.store(st, ref[1], ref[2], ('A', ty, v[2], (a, b, TRUE))); return one(st, ('item', a))
        if back: I.store(st, ref[1], ref[2], ('A', ty, v[2], (a, op(st.f, 'sub', b[1], b, K(b[1], 1)), ex))); return one(st, ('item', b))
        I.store(st, ref[1], ref[2], ('A', ty, v[2], (op(st.f, 'add', a[1], a, K(a[1], 1)), b, ex)))
        return one(st, ('item', a))
    if nm == 'RangeFrom':
        a = v[3][0]; I.store(st, ref[1], ref[2], ('A', ty, v[2], (op(st.f, 'add', a[1], a, K(a[1], 1)),)))
        return one(st, ('item', a))
    if nm == 'Empty': return one(st, NONE)
    # option-like sources: Once{inner: option::IntoIter{inner: Item{opt}}}, option::Iter ...
    x = v[3][0] if v[3] else None
    if nm == 'Item' and x is not None:
        if x[0] == 'Y': x = I.expand(st, x)
        if I.p.vname(x[1], x[2]) == 'None': return one(st, NONE)
        I.store(st, ref[1], ref[2], ('A', ty, v[2], (optv(c, x[1], 'None'),)))
        return one(st, ('item', x[3][0]))
    if len(v[3]) == 1 and x[0] in ('A', 'Y'): return nxt(c, st, sub(ref, 0), back)
    raise Undec('next of ' + t['name'][:80])
def const(st, w):
    k = st.f.const(w)
    if k is None:
        if w[1] == 1: raise Fork(w, [((0, 0),), ((1, 1),)])
        raise Undec('symbolic count')
    return k
def bools(st, w):
    return safe(st, lambda t: [(t, 'ret', const(t, w))])
def optv(c, ty, name, *f):
    for i, v in enumerate(c.I.p.t(ty)['variants']):
        if v['n'] == name: return ('A', ty, i, tuple(f))
    raise Undec('option')
def opt(c, outs):
    """Option values -> NONE / item"""
    r = []
    for o in outs:
        if o[1] != 'ret': r.append(o); continue
        def f(t, v=o[2]):
            if v[0] == 'Y': v = c.I.expand(t, v)
            if v[0] != 'A': raise Undec('option value')
            return [(t, 'ret', NONE if c.I.p.vname(v[1], v[2]) == 'None' else ('item', v[3][0]))]
        r += safe(o[0], f)
    return r
def clone(c, st, x):
    def f(t):
        r = x; ty = None
        v = r
        while v[0] == 'R': r = v; v = c.I.load(t, v[1], v[2])
        if v[0] in ('A', 'Y'):
            key_ = '<%s as std::clone::Clone>::clone' % c.I.p.name(v[1])
            if c.I.p.t(v[1]).get('local') and key_ in c.I.p.F: return c.I.run(key_, [r], t)
        return [(t, 'ret', v)]
    return safe(st, f)
# ------------------------------------------------------------------ consumers
def drive(c, st, ref, acc, step, fin, back=False):
    """step(st, acc, item) -> [('go', st, acc) | ('out', out)];  fin(st, acc) -> outs"""
    work = [(st, acc, 0)]; outs = []
    while work:
        s_, a, n = work.pop()
        if n > CH: outs.append((s_, 'cut', 'iterator bound')); continue
        if len(work) + len(outs) > 4000: outs.append((s_, 'undec', 'too many cases in an iterator')); break
        for o in nxt(c, s_, ref, back):
            if o[1] != 'ret': outs.append(o); continue
            if o[2] is NONE: outs += safe(o[0], lambda t: fin(t, a)); continue
            for r in step(o[0], a, o[2][1]):
                if r[0] == 'go': work.append((r[1], r[2], n + 1))
                else: outs.append(r[1])
    return outs
def selfref(c, byref):
    if byref: return c.a[0]
    return ('R', c.st.new(c.a[0]), (), None)
def known(c, ref):
    """an iterator this module understands (others keep their own bodies)"""
    try:
        v = c.I.load(c.st, ref[1], ref[2])
        while v[0] == 'R': v = c.I.load(c.st, v[1], v[2])
    except Undec: return False
    if v[0] == 'O': return v[1] in ('it', 'vit')
    return v[0] == 'A' and not c.I.p.t(v[1]).get('local') and v[1] is not None and c.I.p.t(v[1])['path'].split('::')[1] in ('iter', 'ops', 'option', 'range', 'slice', 'vec', 'array')
def out(o): return ('out', o)
def step_call(c, s, f, args, use):
    r = []
    for o in callf(c, s, f, args):
        if o[1] != 'ret': r.append(out(o))
        else: r += use(o[0], o[2])
    return r
def step_bool(c, s, f, args, use):
    def u(t, v):
        r = []
        for w in bools(t, v):
            if w[1] != 'ret': r.append(out(w))
            else: r += use(w[0], w[2])
        return r
    return step_call(c, s, f, args, u)
def fref(c, i):
    return c.a[i] if c.a[i][0] in ('R', 'F') else ('R', c.st.new(c.a[i]), (), None)
def ivar(name, *f): return lambda c: c.variant(name, *f)
def consumer(name, byref):
    def d(fn):
        def g(c):
            base = c.st
            c2 = M.Ctx(); c2.I = c.I; c2.st = base.copy(); c2.ca = c.ca; c2.a = c.a; c2.dty = c.dty; c2.sp = c.sp; c2.fr = c.fr; c2.mo = c.mo; c2.ip = c.ip
            ref = selfref(c2, byref)
            if not known(c2, ref): return None
            return fn(c2, ref)
        M.REG['std::iter::Iterator::' + name] = g
        return fn
    return d
@consumer('next', True)
def c_next(c, ref): return [(o[0], 'ret', c.variant('None') if o[2] is NONE else c.variant('Some', o[2][1])) if o[1] == 'ret' else o for o in nxt(c, c.st, ref)]
def c_next_back(c):
    if not known(c, c.a[0]): return None
    return [(o[0], 'ret', c.variant('None') if o[2] is NONE else c.variant('Some', o[2][1])) if o[1] == 'ret' else o for o in nxt(c, c.st.copy(), c.a[0], True)]
M.REG['std::iter::DoubleEndedIterator::next_back'] = c_next_back
@consumer('any', True)
def c_any(c, ref):
    f = fref(c, 1)
    return drive(c, c.st, ref, None, lambda s, a, x: step_bool(c, s, f, [x], lambda t, b: [out((t, 'ret', TRUE))] if b else [('go', t, a)]), lambda s, a: [(s, 'ret', FALSE)])
@consumer('all', True)
def c_all(c, ref):
    f = fref(c, 1)
    return drive(c, c.st, ref, None, lambda s, a, x: step_bool(c, s, f, [x], lambda t, b: [('go', t, a)] if b else [out((t, 'ret', FALSE))]), lambda s, a: [(s, 'ret', TRUE)])
def find(c, ref, back):
    f = fref(c, 1)
    def step(s, a, x):
        cell = s.new(x)
        return step_bool(c, s, f, [('R', cell, (), None)], lambda t, b: [out((t, 'ret', c.variant('Some', x)))] if b else [('go', t, a)])
    return drive(c, c.st, ref, None, step, lambda s, a: [(s, 'ret', c.variant('None'))], back)
@consumer('find', True)
def c_find(c, ref): return find(c, ref, False)
def c_rfind(c): return find(c, c.a[0], True) if known(c, c.a[0]) else None
M.REG['std::iter::DoubleEndedIterator::rfind'] = c_rfind
@consumer('find_map', True)
def c_find_map(c, ref):
    f = fref(c, 1)
    def step(s, a, x):
        r = []
        for o in opt(c, callf(c, s, f, [x])):
            if o[1] != 'ret': r.append(out(o))
            elif o[2] is NONE: r.append(('go', o[0], a))
            else: r.append(out((o[0], 'ret', c.variant('Some', o[2][1]))))
        return r
    return drive(c, c.st, ref, None, step, lambda s, a: [(s, 'ret', c.variant('None'))])
@consumer('position', True)
def c_position(c, ref):
    f = fref(c, 1)
    return drive(c, c.st, ref, 0, lambda s, a, x: step_bool(c, s, f, [x], lambda t, b: [out((t, 'ret', c.variant('Some', K(64, a))))] if b else [('go', t, a + 1)]), lambda s, a: [(s, 'ret', c.variant('None'))])
@consumer('rposition', True)
def c_rposition(c, ref):
    f = fref(c, 1)
    v = c.I.load(c.st, ref[1], ref[2])
    if v[0] != 'O' or v[1] != 'it': return None
    k = seqneed(c.I, c.st, v[4]) - v[5]
    return drive(c, c.st, ref, k - 1, lambda s, a, x: step_bool(c, s, f, [x], lambda t, b: [out((t, 'ret', c.variant('Some', K(64, a))))] if b else [('go', t, a - 1)]), lambda s, a: [(s, 'ret', c.variant('None'))], True)
@consumer('fold', False)
def c_fold(c, ref):
    f = fref(c, 2)
    return drive(c, c.st, ref, c.a[1], lambda s, a, x: step_call(c, s, f, [a, x], lambda t, v: [('go', t, v)]), lambda s, a: [(s, 'ret', a)])
@consumer('for_each', False)
def c_for_each(c, ref):
    f = fref(c, 1)
    return drive(c, c.st, ref, None, lambda s, a, x: step_call(c, s, f, [x], lambda t, v: [('go', t, None)]), lambda s, a: [(s, 'ret', UNIT)])
def trystep(c, s, outs):
    r = []
    for o in outs:
        if o[1] != 'ret': r.append(out(o)); continue
        def g(t, v=o[2]):
            if v[0] == 'Y': v = c.I.expand(t, v)
            if v[0] != 'A': raise Undec('try')
            return [(t, 'ret', v)]
        for w in safe(o[0], g):
            if w[1] != 'ret': r.append(out(w)); continue
            v = w[2]
            if c.I.p.vname(v[1], v[2]) in ('Ok', 'Some', 'Continue'): r.append(('go', w[0], v[3][0]))
            else: r.append(out((w[0], 'ret', retag(c, v))))
    return r
def retag(c, v):
    """the same residual in the result type of the call"""
    return c.variant(c.I.p.vname(v[1], v[2]), *v[3])
def good(c):
    for n in ('Ok', 'Some', 'Continue'):
        if any(v['n'] == n for v in c.I.p.t(c.dty).get('variants', ())): return n
    raise Undec('try type')
@consumer('try_fold', True)
def c_try_fold(c, ref):
    f = fref(c, 2); g = good(c)
    return drive(c, c.st, ref, c.a[1], lambda s, a, x: trystep(c, s, callf(c, s, f, [a, x])), lambda s, a: [(s, 'ret', c.variant(g, a))])
@consumer('try_for_each', True)
def c_try_for_each(c, ref):
    f = fref(c, 1); g = good(c)
    return drive(c, c.st, ref, UNIT, lambda s, a, x: trystep(c, s, callf(c, s, f, [x])), lambda s, a: [(s, 'ret', c.variant(g, a))])
@consumer('count', False)
def c_count(c, ref): return drive(c, c.st, ref, 0, lambda s, a, x: [('go', s, a + 1)], lambda s, a: [(s, 'ret', K(64, a))])
@consumer('last', False)
def c_last(c, ref): return drive(c, c.st, ref, None, lambda s, a, x: [('go', s, (x,))], lambda s, a: [(s, 'ret', c.variant('None') if a is None else c.variant('Some', a[0]))])
@consumer('nth', True)
def c_nth(c, ref):
    outs = [(c.st, 'ret', ('item', None))]
    for _ in range(seqneed(c.I, c.st, c.a[1]) + 1): outs = then(outs, lambda s, x: [(s, 'ret', x)] if x is NONE else nxt(c, s, ref))
    return [(o[0], 'ret', c.variant('None') if o[2] is NONE else c.variant('Some', o[2][1])) if o[1] == 'ret' else o for o in outs]
def num(c, s, x):
    while x[0] == 'R': x = c.I.load(s, x[1], x[2])
    if x[0] != 'I': raise Undec('number')
    return x
def accu(nm):
    def g(c, ref):
        t = c.I.p.t(c.dty)
        if t['k'] not in ('uint', 'int'): return None
        w = t['bits']
        def step(s, a, x):
            def f(u):
                y = num(c, u, x)
                r = c.I.arith(u, nm + 'WithOverflow', a, y, w, t['k'] == 'int')
                if const(u, r[1][1]): return [c.panic('attempt to %s with overflow' % nm.lower(), u)]
                return [(u, 'ret', r[1][0])]
            return [('go', o[0], o[2]) if o[1] == 'ret' else out(o) for o in safe(s, f)]
        return drive(c, c.st, ref, K(w, 0 if nm == 'Add' else 1), step, lambda s, a: [(s, 'ret', a)])
    return g
consumer('sum', False)(accu('Add')); consumer('product', False)(accu('Mul'))
def extreme(big):
    def g(c, ref):
        def step(s, a, x):
            if a is None: return [('go', s, (x,))]
            def f(u):
                p, q = num(c, u, a[0]), num(c, u, x)
                # the last of equal maxima, the first of equal minima
                return [(u, 'ret', (x,) if const(u, op(u.f, 'lt', 1, q, p)) == (0 if big else 1) else a)]
            return [('go', o[0], o[2]) if o[1] == 'ret' else out(o) for o in safe(s, f)]
        return drive(c, c.st, ref, None, step, lambda s, a: [(s, 'ret', c.variant('None') if a is None else c.variant('Some', a[0]))])
    return g
def unsigned_items(c):
    t = c.I.p.t(c.dty)
    a = c.I.p.t(t['args'][0])
    while a['k'] == 'ref': a = c.I.p.t(a['ty'])
    return a['k'] == 'uint'
consumer('max', False)(lambda c, ref: extreme(True)(c, ref) if unsigned_items(c) else None)
consumer('min', False)(lambda c, ref: extreme(False)(c, ref) if unsigned_items(c) else None)
@consumer('size_hint', True)
def c_size_hint(c, ref):
    v = c.I.load(c.st, ref[1], ref[2])
    if v[0] != 'O' or v[1] not in ('it', 'vit'): return None
    n, i = (v[4], v[5]) if v[1] == 'it' else (v[4], v[3])
    m_ = op(c.st.f, 'sub', 64, n, K(64, i))
    return c.ret(('T', (m_, optv(c, c.I.p.t(c.dty)['tys'][1], 'Some', m_))))
def c_len(c):
    v = c.deref(c.a[0])
    if v[0] != 'O' or v[1] not in ('it', 'vit'): return None
    n, i = (v[4], v[5]) if v[1] == 'it' else (v[4], v[3])
    return c.ret(op(c.st.f, 'sub', 64, n, K(64, i)))
M.REG['std::iter::ExactSizeIterator::len'] = c_len
def gather(c, ref, dty):
    """FromIterator into dty"""
    t = c.I.p.t(dty)
    seq = lambda s, a, x: [('go', s, a + (x,))]
    if is_vec(t): return drive(c, c.st, ref, (), seq, lambda s, a: [(s, 'ret', ('Q', a))])
    if is_string(t):
        def step(s, a, x):
            def f(u):
                y = x
                while y[0] == 'R': y = c.I.load(u, y[1], y[2])
                if y[0] == 'S': return [(u, 'ret', a + y[1])]
                if y[0] == 'I' and kval(u.f.norm(y)) is not None: return [(u, 'ret', a + (('l', chr(kval(u.f.norm(y)))),))]
                raise Undec('text of items')
            return [('go', o[0], o[2]) if o[1] == 'ret' else out(o) for o in safe(s, f)]
        return drive(c, c.st, ref, (), step, lambda s, a: [(s, 'ret', ('S', sparts(a)))])
    if t['k'] == 'adt' and t['path'].split('::')[-1] in ('Result', 'Option'):
        it = c.I.p.t(t['args'][0])
        g = 'Ok' if t['path'].endswith('Result') else 'Some'
        c.dty = dty
        if is_vec(it): fin = lambda a: ('Q', a)
        elif it['k'] == 'tuple' and not it['tys']: fin = lambda a: UNIT
        else: return None
        def step(s, a, x):
            return [('go', r[1], a + (r[2],)) if r[0] == 'go' else r for r in trystep(c, s, [(s, 'ret', x)])]
        return drive(c, c.st, ref, (), step, lambda s, a: [(s, 'ret', c.variant(g, fin(a)))])
    return None
@consumer('collect', False)
def c_collect(c, ref): return gather(c, ref, c.dty)
def c_from_iter(c):
    """FromIterator::from_iter over something iterable"""
    ref = ('R', c.st.new(c.a[0]), (), None)
    if c.a[0][0] in ('Q', 'L'):
        c.I.store(c.st, ref[1], ref[2], ('O', 'vit', c.a[0], 0, K(64, len(c.a[0][1]))))
    if not known(c, ref): return None
    return gather(c, ref, c.dty)
M.REG['std::iter::FromIterator::from_iter'] = c_from_iter
REG.pop('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter', None)
M.PRE[:] = [(rx, f) for rx, f in M.PRE if f is not M.vec_from_iter]
# ------------------------------------------------------------------ owned sequences
@mr(r"<(std|alloc)::vec::Vec<T, A> as .*IntoIterator>::into_iter$|(std|core)::array::iter::<impl .*IntoIterator for \[T; N\]>::into_iter$|<\[T; N\] as .*IntoIterator>::into_iter$")
def into_iter(c):
    v = c.a[0]
    if v[0] == 'Y' and c.I.p.t(v[1])['k'] == 'array': v = c.I.expand(c.st, v)
    if v[0] == 'Y': return c.ret(('O', 'vit', v, 0, c.I.seqlen(v[2])))
    if v[0] not in ('Q', 'L'): v = vec_conc(c, None, v)
    return c.ret(('O', 'vit', v, 0, K(64, len(v[1]))))
@m('std::vec::Vec::drain')
def drain(c):
    r, v, meta = tgt(c, c.a[0]); v = vec_conc(c, r, v)
    n = len(v[1]); rg = range_of(c, c.ca['args'][-1], c.a[1], K(64, n))
    if rg is None: raise Undec('drain')
    lo, hi = c.st.f.const(rg[0]), c.st.f.const(rg[1])
    if lo is None or hi is None: raise Undec('drain range')
    if lo > hi or hi > n: return [c.panic('slice index out of range')]
    c.I.store(c.st, r[1], r[2], ('Q', v[1][:lo] + v[1][hi:]))
    return c.ret(('O', 'vit', ('Q', v[1][lo:hi]), 0, K(64, hi - lo)))
def extend(c):
    r, v, meta = tgt(c, c.a[0])
    if v[0] == 'S' or not is_seq(v): return None
    v = vec_conc(c, r, v)
    c2 = c
    src = c.a[1]
    if src[0] in ('Q', 'L'): src = ('O', 'vit', src, 0, K(64, len(src[1])))
    elif src[0] == 'Y' and (is_vec(c.I.p.t(src[1])) or c.I.p.t(src[1])['k'] == 'array'): src = ('O', 'vit', src, 0, c.I.seqlen(src[2]) if is_vec(c.I.p.t(src[1])) else K(64, c.I.p.t(src[1])['len']))
    elif src[0] == 'R':
        r2, v2, m2 = tgt(c, src)
        if is_seq(v2): src = ('O', 'it', r2, m2[1] if m2 else 0, m2[2] if m2 else seq_len(c, v2), 0)
    ref = ('R', c.st.new(src), (), None)
    if not known(c, ref): raise Undec('extend from %s' % (src[:2],))
    def step(s, a, x):
        # Extend<&T> copies
        return [('go', o[0], a + (o[2],)) if o[1] == 'ret' else out(o) for o in (clone(c, s, x) if x[0] == 'R' and not byrefs else [(s, 'ret', x)])]
    et = c.I.p.t(c.I.elemty(v0ty(c)))
    byrefs = et['k'] == 'ref'
    def fin(s, a): c.I.store(s, r[1], r[2], ('Q', v[1] + a)); return [(s, 'ret', UNIT)]
    return drive(c, c.st.copy(), ref, (), step, fin)
def v0ty(c): return c.ca['args'][0]
def is_seq(v): return v[0] in ('Q', 'L', 'Y') or (v[0] == 'O' and v[1] == 'wbuf')
M.REG['std::iter::Extend::extend'] = extend
@mr(r"(std|core)::slice::<impl \[T\]>::(chunks|chunks_exact|windows)$")
def chunks(c):
    r, v, meta = tgt(c, c.a[0])
    s0, n = (meta[1], meta[2]) if meta else (0, seq_len(c, v))
    k = seqneed(c.I, c.st, n); w = c.st.f.const(c.a[1]); nm = c.ip.split('::')[-1].split('<')[0]
    if w is None: raise Undec('chunk size')
    if w == 0: return [c.panic('chunk size must be non-zero')]
    o = [i for i in range(0, k, 1 if nm == 'windows' else w)]
    if nm != 'chunks': o = [i for i in o if i + w <= k]
    q = tuple(('R', r[1], r[2], ('sl', s0 + i, K(64, min(w, k - i)))) for i in o)
    return c.ret(('O', 'vit', ('Q', q), 0, K(64, len(q))))
def seqop(*names):
    def d(f):
        for n in names: M.REG['std::slice::<impl [T]>::' + n] = f
        return f
    return d
@seqop('contains')
def contains(c):
    r, v, meta = tgt(c, c.a[0]); x = c.deref(c.a[1])
    q = slice_conc(c, v, meta)[1]
    def f(st):
        for y in q:
            if y[0] != 'I' or x[0] != 'I': raise Undec('contains')
            if const(st, op(st.f, 'eq', 1, y, x)): return [(st, 'ret', TRUE)]
        return [(st, 'ret', FALSE)]
    return safe(c.st, f)
def part(c, i, lo, hi, r, meta):
    s0 = meta[1] if meta else 0
    return ('R', r[1], r[2], ('sl', s0 + lo, op(c.st.f, 'sub', 64, hi, K(64, lo))))
@seqop('split_first', 'split_last')
def split_first(c):
    r, v, meta = tgt(c, c.a[0]); n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    k = seqneed(c.I, c.st, n)
    if k == 0: return c.ret(c.variant('None'))
    fst = 'first' in c.ip
    e = ('R', r[1], r[2] + (('e', s0 + (0 if fst else k - 1)),), None)
    rest = ('R', r[1], r[2], ('sl', s0 + (1 if fst else 0), K(64, k - 1)))
    return c.ret(c.variant('Some', ('T', (e, rest))))
@seqop('split_at', 'split_at_mut')
def split_at(c):
    r, v, meta = tgt(c, c.a[0]); n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    i = c.st.f.const(c.a[1]); bad = op(c.st.f, 'lt', 1, n, c.a[1])
    if const(c.st, bad): return [c.panic('mid > len')]
    if i is None: raise Undec('split_at')
    return c.ret(('T', (('R', r[1], r[2], ('sl', s0, K(64, i))), ('R', r[1], r[2], ('sl', s0 + i, op(c.st.f, 'sub', 64, n, K(64, i)))))))
@seqop('swap', 'reverse', 'fill')
def rearr(c):
    r, v, meta = tgt(c, c.a[0]); n = meta[2] if meta else seq_len(c, v); s0 = meta[1] if meta else 0
    k = seqneed(c.I, c.st, n)
    q = list(slice_conc_n(c, v, ('sl', s0, K(64, k)), k)); nm = c.ip.split('::')[-1]
    if nm == 'swap':
        i, j = c.st.f.const(c.a[1]), c.st.f.const(c.a[2])
        if i is None or j is None: raise Undec('swap')
        if i >= k or j >= k: return [c.panic('index out of bounds')]
        q[i], q[j] = q[j], q[i]
    elif nm == 'reverse': q.reverse()
    else: q = [c.a[1]] * k
    for i in range(k): c.I.store(c.st, r[1], r[2] + (('e', s0 + i),), q[i])
    return c.ret(UNIT)
@seqop('starts_with', 'ends_with')
def starts(c):
    r1, v1, m1 = tgt(c, c.a[0]); r2, v2, m2 = tgt(c, c.a[1])
    a, b = slice_conc(c, v1, m1)[1], slice_conc(c, v2, m2)[1]
    if len(b) > len(a): return c.ret(FALSE)
    a = a[:len(b)] if 'starts' in c.ip else a[len(a) - len(b):]
    if not b: return c.ret(TRUE)
    if not all(x[0] == 'I' for x in a + b): raise Undec('starts_with')
    return c.ret(op(c.st.f, 'eq', 1, cat(*a), cat(*b)))
def vecop(*names):
    def d(f):
        for n in names: M.REG['std::vec::Vec::' + n] = f
        return f
    return d
@vecop('insert', 'insert_mut', 'remove', 'swap_remove', 'resize', 'clear', 'append', 'split_off')
def vedit(c):
    r, v, meta = tgt(c, c.a[0]); nm = c.ip.split('::')[-1]
    if nm == 'clear': c.I.store(c.st, r[1], r[2], ('Q', ())); return c.ret(UNIT)
    q = vec_conc(c, r, v)[1]
    if nm == 'append':
        r2, v2, m2 = tgt(c, c.a[1]); q2 = vec_conc(c, r2, v2)[1]
        c.I.store(c.st, r[1], r[2], ('Q', q + q2)); c.I.store(c.st, r2[1], r2[2], ('Q', ())); return c.ret(UNIT)
    i = seqneed(c.I, c.st, c.a[1])
    if nm == 'resize': 
        c.I.store(c.st, r[1], r[2], ('Q', (q + (c.a[2],) * max(0, i - len(q)))[:i])); return c.ret(UNIT)
    if i > len(q) or (i == len(q) and nm in ('remove', 'swap_remove')): return [c.panic('index out of bounds')]
    if nm == 'split_off': c.I.store(c.st, r[1], r[2], ('Q', q[:i])); return c.ret(('Q', q[i:]))
    if nm.startswith('insert'):
        c.I.store(c.st, r[1], r[2], ('Q', q[:i] + (c.a[2],) + q[i:]))
        if nm == 'insert_mut': return c.ret(('R', r[1], r[2] + (('e', i),), None))
        return c.ret(UNIT)
    x = q[i]
    rest = q[:i] + q[i + 1:] if nm == 'remove' else (q[:i] + (q[-1:] if i < len(q) - 1 else ()) + q[i + 1:-1])
    c.I.store(c.st, r[1], r[2], ('Q', rest)); return c.ret(x)
@vecop('retain', 'retain_mut')
def retain(c):
    r, v, meta = tgt(c, c.a[0]); q = vec_conc(c, r, v)[1]
    st = c.st.copy()
    f = c.a[1] if c.a[1][0] in ('R', 'F') else ('R', st.new(c.a[1]), (), None)
    outs = [(st, 'ret', ())]
    for x in q:
        def g(t, keep, x=x):
            cell = t.new(x); r = []
            for o in callf(c, t, f, [('R', cell, (), None)]):
                if o[1] != 'ret': r.append(o); continue
                for w in bools(o[0], o[2]):
                    r.append((w[0], 'ret', keep + (w[0].c[cell],) if w[2] else keep) if w[1] == 'ret' else w)
            return r
        outs = then(outs, g)
    def fin(t, keep): c.I.store(t, r[1], r[2], ('Q', keep)); return [(t, 'ret', UNIT)]
    return then(outs, fin)
@vecop('reserve', 'reserve_exact', 'shrink_to_fit')
def nothing(c): return c.ret(UNIT)
