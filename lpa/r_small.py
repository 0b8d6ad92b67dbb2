"""C04 entropy definitions, C13 partition quality, C20 arithmetic, C21 comparisons."""
from .core import *


# ------------------------------------------------------------------ C04
def free(C, name, n):
    fs = [f for f in C.P.functions.values() if f['n'] == name and not f.get('cls') and f.get('b') is not None and len(f['ps']) == n]
    if not fs:
        raise Anchor(name)
    if len(fs) > 1:
        raise Undecided('overloaded ' + name)
    return fs[0]


def rule_entropy(C):
    """closed forms of entropyReduction and divergence; every logarithm guarded by a positive argument"""
    v, e, n = A(('sym', 'v', 'v')), A(('sym', 'e', 'e')), A(('sym', 'n', 'n'))
    l2 = lambda x: div(fn('log', x), fn('log', num(2)))
    er = ite(cmp_('>', v, ZERO, False), sub(mul(v, l2(v)), e), ZERO)
    fer = free(C, 'entropyReduction', 2)
    fdv = free(C, 'divergence', 3)
    I = C.interp()
    r = I.call(fer['key'], args={0: v, 1: e})
    judge(C, I, 'entropyReduction', r, er, (), 'entropy reduction of value v and information e', C.where(fer))
    r = I.call(fdv['key'], args={0: n, 1: v, 2: e})
    judge(C, I, 'divergence', r, sub(mul(v, l2(n)), er), (), 'divergence of n elements, value v and information e', C.where(fdv))
    C.used(I, fer, fdv)
    for ev in I.events:
        if isinstance(ev, Loop):
            C.und('log-domain', 'loop in an entropy function', C.where(fer))
        elif ev.kind == 'math' and ev.op.startswith(('log', 'pow')) and const(ev.val) is None:
            g = list(conj(ev.guard)) + [cmp_('>=', n, ONE, True)]
            if I.entails(g, cmp_('>', ev.val, ZERO, False)):
                C.ok('log-domain', 'logarithm of %s only where it is positive' % show(ev.val), C.evwhere(ev))
            elif hasunk(ev.val) or I.unknown:
                C.und('log-domain', 'logarithm of %s' % show(ev.val), C.evwhere(ev))
            else:
                C.bad('log-domain', 'logarithm of %s evaluated when %s: not restricted to positive values' % (show(ev.val), show(ev.guard)), C.evwhere(ev))
    # logarithms elsewhere
    for k, f in C.P.functions.items():
        if f.get('b') is None or f in (fer, fdv) or k in I.inlined or f.get('implicit'):
            continue
        if not any(x.get('q') in ('std::log', 'log', 'std::log2', 'log2', 'logl', 'std::pow', 'pow') or x.get('n') == 'entropy' for x in calls(f)):
            continue
        J = C.interp()
        try:
            J.call(k)
        except Exception:
            C.und('log-elsewhere', 'not modelled', C.where(f))
            continue
        for ev, loops in walk(J.events):
            if ev.kind == 'math' and ev.op.startswith('log') and const(ev.val) is None:
                fs = [x for l in loops for x in l.facts] + list(conj(ev.guard))
                if J.entails(fs, cmp_('>', ev.val, ZERO, False)):
                    C.ok('log-elsewhere', show(ev.val), C.evwhere(ev))
                else:
                    C.und('log-elsewhere', 'logarithm of %s in %s' % (show(ev.val)[:100], f['q']), C.evwhere(ev))


def calls(f):
    out = []
    def w(o):
        if isinstance(o, dict):
            if 'q' in o and ('args' in o or 'f' in o):
                out.append(o)
            for v in o.values():
                w(v)
        elif isinstance(o, list):
            for v in o:
                w(v)
    w(f.get('b'))
    w(f.get('inits'))
    return out


def walk(evs, loops=()):
    for e in evs:
        if isinstance(e, Loop):
            yield from walk(e.body, loops + (e,))
        else:
            yield e, loops


# ------------------------------------------------------------------ C13
PARTS = {'OPartition': 'OPart', 'HPartition': 'HPart', 'DPartition': 'DPart'}


def rule_partition_quality(C):
    """getQuality() after construction = sum of the parts' qualities; getParameter() = constructor parameter"""
    Q = C.cls('Quality')
    for pn, en in PARTS.items():
        c = C.cls(pn)
        for ctor in C.ctors(c):
            I = C.interp(('utm',))
            I.call(ctor['key'], cls=c)
            w = C.where(ctor)
            fl = [i for i, p in enumerate(ctor['ps']) if strip(p['t']) == 'float']
            g = C.meth(c, 'getParameter', 0)
            v = I.call(g['key'], cls=c)
            if len(fl) == 1:
                judge(C, I, pn + '.parameter', v, A(('sym', fl[0], ctor['ps'][fl[0]]['n'])), (), 'reported parameter', C.where(g))
            parts = I.call(C.meth(c, 'getParts', 0)['key'], cls=c)
            q = I.call(C.meth(c, 'getQuality', 0)['key'], cls=c)
            if not isinstance(parts, LV) or q is None:
                C.und(pn + '.quality', 'parts not modelled', w)
                continue
            qo = I.deref(q, Q)
            N = I.size(parts.loc)
            bv = ('iv', 900, 'k')
            pe = I.elem(parts.loc, A(bv), C.cls(en))
            pq = I.call(C.meth(C.cls(en), 'getQuality', 0)['key'], this=pe.loc, cls=C.cls(en))
            po = I.deref(pq, Q)
            for m in ('getGain', 'getLoss'):
                gm = C.meth(Q, m, 0)
                got = I.call(gm['key'], this=qo.loc, cls=Q)
                el = I.call(gm['key'], this=po.loc, cls=Q)
                want = mk_sum(bv, ZERO, sub(N, ONE), el)
                want = ite(cmp_('>=', N, ONE, True), want, ZERO)
                facts = [cmp_('>=', N, ZERO, True)]
                if not eqt(I, got, want, facts):
                    # an empty sum needs no guard
                    want2 = mk_sum(bv, ZERO, sub(N, ONE), el)
                    if eqt(I, got, want2, facts):
                        want = want2
                judge(C, I, '%s.%s' % (pn, m), got, want, facts, '%s of the partition against the sum over its parts' % m[3:].lower(), w, allow=(N,))
            C.used(I, ctor)


# ------------------------------------------------------------------ C20
OPS = {'+': add, '-': sub, '*': mul, '/': div}


def comps(C, I, loc, cls):
    """observable components through the getters"""
    Q, TR = C.cls('Quality'), C.cls('Tradeoff')
    if cls == Q:
        return {m: I.call(C.meth(Q, m, 0)['key'], this=loc, cls=Q) for m in ('getGain', 'getLoss')}
    out = {'getValue': I.call(C.meth(TR, 'getValue', 0)['key'], this=loc, cls=TR)}
    q = I.call(C.meth(TR, 'getQuality', 0)['key'], this=loc, cls=TR)
    qo = I.deref(q, Q)
    for k, v in comps(C, I, qo.loc, Q).items():
        out['quality.' + k] = v
    return out


def rule_arith(C):
    """net effect of every arithmetic operator on each component, also with aliased operands"""
    for cn in ('Quality', 'Tradeoff'):
        c = C.cls(cn)
        for op, F_ in OPS.items():
            f = C.meth(c, 'operator%s=' % op, 1)
            for alias in (False, True):
                I = C.interp()
                a, b = ('this',), (('this',) if alias else ('arg', 0))
                a0, b0 = comps(C, I, a, c), comps(C, I, b, c)
                I.events = []
                I.call(f['key'], cls=c, args={0: LV(b, c)})
                oid = '%s%s=%s' % (cn, op, '.alias' if alias else '')
                a1 = comps(C, I, a, c)
                for k in a0:
                    judge(C, I, oid + '.' + k, a1[k], F_(a0[k], b0[k]), (), '%s after in-place %s' % (k, op), C.where(f))
                if not alias:
                    b1 = comps(C, I, b, c)
                    for k in b0:
                        judge(C, I, oid + '.right.' + k, b1[k], b0[k], (), '%s of the right operand after in-place %s' % (k, op), C.where(f))
                C.used(I, f)
            fs = [g for g in C.P.functions.values() if g['n'] == 'operator' + op and not g.get('cls') and len(g['ps']) == 2 and strip(g['ps'][0]['t']) == c and g.get('b') is not None]
            if len(fs) != 1:
                C.und('%s%s' % (cn, op), 'two-operand form not found')
                continue
            g = fs[0]
            for alias in (False, True):
                I = C.interp()
                a, b = ('arg', 0), (('arg', 0) if alias else ('arg', 1))
                a0, b0 = comps(C, I, a, c), comps(C, I, b, c)
                r = I.call(g['key'], args={0: LV(a, c), 1: LV(b, c)})
                oid = '%s%s%s' % (cn, op, '.alias' if alias else '')
                if not isinstance(r, LV):
                    C.und(oid, 'result not modelled', C.where(g))
                    continue
                r1 = comps(C, I, r.loc, c)
                for k in a0:
                    judge(C, I, oid + '.' + k, r1[k], F_(a0[k], b0[k]), (), '%s of the two-operand %s' % (k, op), C.where(g))
                for nm, l, v0 in (('left', a, a0), ('right', b, b0)):
                    v1 = comps(C, I, l, c)
                    for k in v0:
                        judge(C, I, '%s.%s.%s' % (oid, nm, k), v1[k], v0[k], (), '%s of the %s operand after the two-operand %s' % (k, nm, op), C.where(g))
                C.used(I, g)


def rule_accessors(C):
    """setters, adders, constructors and getters of Quality and Tradeoff"""
    Q, TR = C.cls('Quality'), C.cls('Tradeoff')
    for nm in ('Gain', 'Loss'):
        other = 'Loss' if nm == 'Gain' else 'Gain'
        for pre, F_ in (('set', lambda o, v: v), ('addTo', add)):
            f = C.meth(Q, pre + nm, 1)
            I = C.interp()
            a0 = comps(C, I, ('this',), Q)
            x = A(('sym', 'x', 'x'))
            I.call(f['key'], cls=Q, args={0: x})
            a1 = comps(C, I, ('this',), Q)
            judge(C, I, pre + nm, a1['get' + nm], F_(a0['get' + nm], x), (), '%s after %s' % (nm, pre + nm), C.where(f))
            judge(C, I, pre + nm + '.other', a1['get' + other], a0['get' + other], (), '%s after %s' % (other, pre + nm), C.where(f))
            C.used(I, f)
    for ctor in C.ctors(Q):
        I = C.interp()
        n = len(ctor['ps'])
        x, y = A(('sym', 'x', 'x')), A(('sym', 'y', 'y'))
        I.call(ctor['key'], cls=Q, args={0: x, 1: y} if n == 2 else {})
        a1 = comps(C, I, ('this',), Q)
        if n == 0:
            x = y = ZERO
        elif n != 2:
            continue
        judge(C, I, 'Quality%d.gain' % n, a1['getGain'], x, (), 'gain after construction', C.where(ctor))
        judge(C, I, 'Quality%d.loss' % n, a1['getLoss'], y, (), 'loss after construction', C.where(ctor))
        C.used(I, ctor)
    # trade-offs
    p, v = A(('sym', 'p', 'p')), A(('sym', 'v', 'v'))
    src = ('deref', ('ldp', ('arg', 0), 0))
    forms = []
    for f in C.ctors(TR) + C.meths(TR, 'set') + C.meths(TR, 'computePIC'):
        ts = [I_kind(C, x['t']) for x in f['ps']]
        forms.append((f, ts))
    for f, ts in forms:
        I = C.interp()
        args = {}
        qi = None
        for i, t in enumerate(ts):
            if t == 'ptr':
                args[i] = ('ldp', ('arg', 'q'), 0)
                qi = i
            elif t == 'real':
                args[i] = p if strip(f['ps'][i]['t']) == 'float' else v
            else:
                args = None
                break
        if args is None:
            continue
        oid = '%s(%s)' % (f['n'], ','.join(ts))
        so = ('deref', ('ldp', ('arg', 'q'), 0))
        if qi is None and f.get('ctor'):
            continue
        if qi is None:
            q0 = I.call(C.meth(TR, 'getQuality', 0)['key'], cls=TR)
            so = I.deref(q0, Q).loc
        s0 = comps(C, I, so, Q)
        I.events = []
        I.call(f['key'], cls=TR, args=args)
        a1 = comps(C, I, ('this',), TR)
        w = C.where(f)
        hasp = any(args[i] == p for i in args)
        if hasp:
            want = sub(mul(p, s0['getGain']), mul(sub(ONE, p), s0['getLoss']))
            judge(C, I, oid + '.value', a1['getValue'], want, (), 'trade-off value', w)
        elif any(args[i] == v for i in args):
            judge(C, I, oid + '.value', a1['getValue'], v, (), 'trade-off value', w)
        for m in ('getGain', 'getLoss'):
            judge(C, I, '%s.%s' % (oid, m), a1['quality.' + m], s0[m], (), m + ' of the stored quality', w)
        s1 = comps(C, I, so, Q)
        for m in ('getGain', 'getLoss'):
            judge(C, I, '%s.source.%s' % (oid, m), s1[m], s0[m], (), m + ' of the source quality afterwards', w)
        if qi is not None:
            q1 = I.call(C.meth(TR, 'getQuality', 0)['key'], cls=TR)
            own(C, I, oid + '.own', q1, ('this',), w)
        C.used(I, f)


def own(C, I, oid, ptr, this, w):
    """the pointer leads to an object created by the operation (or one the target already owned)"""
    if isinstance(ptr, tuple) and ptr[0] == 'ptr' and root(ptr[1])[0] == 'new':
        C.ok(oid, 'own copy', w)
    elif isinstance(ptr, tuple) and ptr[0] == 'ldp' and isinstance(ptr[1], tuple) and root(ptr[1]) == this:
        C.ok(oid, 'own object kept', w)
    elif I.unknown or hasunk(ptr):
        C.und(oid, 'not modelled', w)
    else:
        C.bad(oid, 'the stored quality is shared with the source: %s' % show(ptr), w)


def I_kind(C, t):
    return C.interp().kind(t) if not strip(t).endswith(('Tradeoff', 'Quality')) else 'rec'


# ------------------------------------------------------------------ C21
def opfun(C, cls, op):
    fs = [g for g in C.P.functions.values() if g['n'] == 'operator' + op and len(g['ps']) == 2 and not g.get('cls') and strip(g['ps'][0]['t']) == cls and g.get('b') is not None]
    if not fs:
        raise Anchor('operator%s(%s)' % (op, cls))
    return fs[0]


def cmpform(C, cls, op, I=None):
    f = opfun(C, cls, op)
    I = I or C.interp()
    r = I.call(f['key'], args={0: LV(('arg', 0), cls), 1: LV(('arg', 1), cls)})
    C.used(I, f)
    return r, I, f


def swap(t):
    return rewrite(rewrite(rewrite(t, lambda n: ('arg', 'X') if n == ('arg', 0) else None), lambda n: ('arg', 0) if n == ('arg', 1) else None), lambda n: ('arg', 1) if n == ('arg', 'X') else None)


def same(t):
    return rewrite(t, lambda n: ('arg', 0) if n == ('arg', 1) else None)


def bjudge(C, I, oid, got, want, msg, w):
    if got is None or not is_bool(got):
        C.und(oid, msg + ': no boolean result', w)
        return
    e = b_equiv(got, want)
    if e:
        C.ok(oid, msg, w)
    elif hasunk(got) or I.unknown or e is None:
        C.und(oid, msg + ': not fully modelled', w)
    else:
        C.bad(oid, '%s: the code computes %s where %s is required' % (msg, show(got)[:500], show(want)[:500]), w)


def rule_tradeoff_order(C):
    """the six trade-off comparisons against the total order value, larger gain, smaller loss"""
    TR = C.cls('Tradeoff')
    J = C.interp()
    a, b = comps(C, J, ('arg', 0), TR), comps(C, J, ('arg', 1), TR)
    V, G, L = [(a[k], b[k]) for k in ('getValue', 'quality.getGain', 'quality.getLoss')]
    gt = lambda x: cmp_('>', x[0], x[1], False)
    lt = lambda x: cmp_('<', x[0], x[1], False)
    eq = lambda x: cmp_('==', x[0], x[1], False)
    GT = b_or(gt(V), b_and(eq(V), b_or(gt(G), b_and(eq(G), lt(L)))))
    EQ = b_and(eq(V), eq(G), eq(L))
    spec = {'>': GT, '==': EQ, '!=': b_not(EQ), '<': b_and(b_not(GT), b_not(EQ)), '<=': b_not(GT), '>=': b_or(GT, EQ)}
    for op, want in spec.items():
        r, I, f = cmpform(C, TR, op)
        bjudge(C, I, 'Tradeoff' + op, r, want, 'operator' + op, C.where(f))


def rule_equality(C):
    """equality of qualities and parts: reflexive, symmetric, sensitive to each component; != is the negation"""
    Q = C.cls('Quality')
    r, I, f = cmpform(C, Q, '==')
    w = C.where(f)
    eqlaws(C, I, 'Quality', r, w)
    if r is not None and is_bool(r):
        a = comps(C, I, ('arg', 0), Q)
        b = comps(C, I, ('arg', 1), Q)
        sym = lambda m: {single(x): y for x, y in m}
        import itertools
        pts = [Fraction(0), Fraction(1), Fraction(2), Fraction(-1), Fraction(1, 2), Fraction(100), Fraction(101), Fraction(1, 1000)]
        n = bad = 0
        for comp, oth in (('getGain', 'getLoss'), ('getLoss', 'getGain')):
            for x, y in itertools.product(pts, pts):
                for o in (Fraction(0), Fraction(1)):
                    m = sym([(a[comp], num(x)), (b[comp], num(y)), (a[oth], num(o)), (b[oth], num(o))])
                    v = rewrite(rewrite(r, lambda k: m.get(k)), foldabs)
                    n += 1
                    want = T if x == y else F
                    if v not in (T, F):
                        C.und('Quality==.depends', 'condition not decided for distinct %s: %s' % (comp, show(v)[:200]), w)
                        bad = 2
                        break
                    if v != want:
                        C.bad('Quality==.depends', 'qualities with %s %s and %s (other component equal) compare %s' % (comp[3:].lower(), x, y, 'equal' if v == T else 'different'), w)
                        bad = 1
                        break
                if bad:
                    break
            if bad:
                break
        if not bad:
            C.ok('Quality==.depends', 'each component decides (%d symbolic specialisations)' % n, w)
    neg(C, Q, r)
    for cn, req in (('OPart', ('getStart', 'getEnd')), ('HPart', ('getH', 'getSize')), ('DPart', ('getH', 'getStart', 'getEnd'))):
        c = C.cls(cn)
        r, I, f = cmpform(C, c, '==')
        w = C.where(f)
        eqlaws(C, I, cn, r, w)
        if r is None or not is_bool(r):
            continue
        reqs = []
        for m in req:
            g = C.meth(c, m, 0)
            x, y = I.call(g['key'], this=('arg', 0), cls=c), I.call(g['key'], this=('arg', 1), cls=c)
            e = cmp_('==', x, y, True)
            reqs.append(e)
            if I.entails(list(conj(r)), e) or b_equiv(b_and(r, e), r):
                C.ok('%s==.%s' % (cn, m), 'equal parts agree on ' + m, w)
            elif hasunk(r) or I.unknown:
                C.und('%s==.%s' % (cn, m), 'not modelled', w)
            else:
                C.bad('%s==.%s' % (cn, m), 'parts can compare equal although %s differs: %s' % (m, show(r)[:400]), w)
        # equal in every field => equal
        neg(C, c, r)


def foldabs(n):
    if n[0] == 'fn' and n[1] == 'abs':
        c = const(n[2])
        if c is not None:
            return num(abs(c))
    if n[0] == 'inv' and const(n[1]):
        return num(1 / const(n[1]))
    if n[0] == 'ite' and n[1] in (T, F):
        return n[2] if n[1] == T else ZERO
    return None


def eqlaws(C, I, nm, r, w):
    if r is None or not is_bool(r):
        C.und(nm + '==', 'no boolean result', w)
        return
    bjudge(C, I, nm + '==.symmetric', swap(r), r, 'equality with swapped operands', w)
    s = same(r)
    s = rewrite(s, foldabs)
    if s == T or b_equiv(s, T):
        C.ok(nm + '==.reflexive', 'an object equals itself', w)
    elif hasunk(r) or I.unknown:
        C.und(nm + '==.reflexive', 'not modelled', w)
    else:
        C.bad(nm + '==.reflexive', 'an object compared with itself gives %s' % show(s)[:300], w)


def neg(C, cls, r):
    n = cls.split('::')[-1]
    r2, I, f = cmpform(C, cls, '!=')
    if r is None or not is_bool(r):
        return
    bjudge(C, I, n + '!=', r2, b_not(r), 'inequality', C.where(f))


def rule_partition_equality(C):
    """partition equality: same number of parts and all parts equal"""
    for pn, en in PARTS.items():
        c, e = C.cls(pn), C.cls(en)
        r, I, f = cmpform(C, c, '==')
        w = C.where(f)
        neg(C, c, r)
        if r is None or not is_bool(r):
            C.und(pn + '==', 'no boolean result', w)
            continue
        pl = []
        for i in (0, 1):
            lv = I.call(C.meth(c, 'getParts', 0)['key'], this=('arg', i), cls=c)
            pl.append(I.canon(lv.loc))
        n0, n1 = I.size(pl[0]), I.size(pl[1])
        pr, J, pf = cmpform(C, e, '==')
        def parteq(i, j):
            return rewrite(rewrite(pr, lambda n: ('idx', pl[0], i) if n == ('arg', 0) else None), lambda n: ('idx', pl[1], j) if n == ('arg', 1) else None)
        # parteq was computed on arguments: rebase them on the parts of the two partitions
        a0 = rewrite(pr, lambda n: ('HOLE', n[1]) if n[0] == 'arg' else None)
        def pe(i, j):
            return rewrite(a0, lambda n: ('idx', pl[n[1]], i if n[1] == 0 else j) if n[0] == 'HOLE' else None)
        I1, I2 = ('iv', 901, 'i'), ('iv', 902, 'j')
        ordered = b_and(cmp_('==', n0, n1, True), mk_forall(I1, ZERO, sub(n0, ONE), pe(A(I1), A(I1))))
        exists = lambda: b_not(mk_forall(I2, ZERO, sub(n0, ONE), b_not(pe(A(I1), A(I2)))))
        sets = b_and(cmp_('==', n0, n1, True), mk_forall(I1, ZERO, sub(n0, ONE), exists()))
        # under equal sizes either size may bound the loops
        s1 = single(n1)
        got = r
        if cmp_('==', n0, n1, True) in conj(r) and s1 is not None:
            rest = [x for x in conj(r) if x != cmp_('==', n0, n1, True)]
            m = {s1: n0}
            got = b_and(cmp_('==', n0, n1, True), *[substitute(x, m) for x in rest])
        def norm(t):
            return normbv(t)
        if norm(got) == norm(ordered) or norm(got) == norm(sets) or b_equiv(norm(got), norm(ordered)) or b_equiv(norm(got), norm(sets)):
            C.ok(pn + '==', 'same number of parts and all parts equal', w)
        elif hasunk(r) or I.unknown:
            C.und(pn + '==', 'not fully modelled', w)
        else:
            C.bad(pn + '==', 'partition equality is %s; required: same number of parts and every part equal' % show(r)[:700], w)


def normbv(t):
    """rename bound variables of nested quantifiers canonically (innermost 0)"""
    def depth(n):
        d = 0
        for x in nodes(n[4]) if n[0] in ('forall', 'sum') else ():
            if x[0] in ('forall', 'sum'):
                d = max(d, depth(x) + 1)
        return d
    def f(n):
        if n[0] == 'forall':
            d = depth(n)
            bv = ('bv', 1000 + d)
            if n[1] != bv:
                return ('forall', bv, n[2], n[3], substitute(n[4], {n[1]: A(bv)}))
        return None
    return rewrite(t, f)


RULES = {
    'C04': [rule_entropy],
    'C13': [rule_partition_quality],
    'C20': [rule_arith, rule_accessors],
    'C21': [rule_tradeoff_order, rule_equality, rule_partition_equality],
}
