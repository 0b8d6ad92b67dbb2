"""C08: normalisation."""
from .core import *


def fields(C, I, qloc):
    """{'gain': location, 'loss': location} of the quality object at qloc"""
    Q = C.cls('Quality')
    out = {}
    for n in ('Gain', 'Loss'):
        J = C.interp()
        r = J.call(C.meth(Q, 'get' + n, 0)['key'], this=('obj',), cls=Q)
        s = single(r)
        if s is None or s[0] != 'ld':
            raise Undecided('Quality fields')
        out[n.lower()] = s[1][2]
    return out


def uncond_ld(t, loc):
    """loads of loc in t (any version)"""
    return [n for n in nodes(t) if n[0] == 'ld' and n[1] == loc]


def rule_normalize(C):
    """every stored gain (loss) is divided exactly once by the full aggregate's value from before, zero totals divide by one"""
    Q = C.cls('Quality')
    for kind, cn in (('O', 'OQualities'), ('H', 'HQualities'), ('D', 'DQualities')):
        c = C.cls(cn)
        f = C.meth(c, 'normalize', 0)
        w = C.where(f)
        I = C.interp(('utm',))
        qp = I.call(C.meth(c, 'getQualities', 0)['key'], cls=c)
        QL = I.deref(qp, 'obj').loc
        facts = []
        if kind in 'HD':
            md = I.call(C.meth(c, 'getMetaData', 0)['key'], cls=c)
            mc = C.cls('HValuesMetaData')
            root = I.call(C.meth(mc, 'getRoot', 0)['key'], this=md.loc, cls=mc)
            hs = I.call(C.meth(mc, 'getHsize', 0)['key'], this=md.loc, cls=mc)
        if kind == 'O':
            M = QL
            cell = ('cell', M, ZERO, sub(I.load(('dim', M), 'unsigned int'), ONE))
        elif kind == 'H':
            cell = ('idx', QL, root)
        else:
            M = I.deref(I.load(('idx', QL, root), 'std::shared_ptr<X>'), 'obj').loc
            cell = ('cell', M, ZERO, sub(I.load(('dim', M), 'unsigned int'), ONE))
        whole = I.deref(I.load(cell, 'std::shared_ptr<Q>'), Q).loc
        tot = {n.lower(): I.call(C.meth(Q, 'get' + n, 0)['key'], this=whole, cls=Q) for n in ('Gain', 'Loss')}
        fl = fields(C, I, whole)
        I.events = []
        I.call(f['key'], cls=c)
        C.used(I, f)
        if I.unknown:
            C.und(kind + '.model', str(I.unknown[:2]), w)
            continue
        evs = list(flat(I.events))
        ws = [x for x in writes(evs) if root_(x.loc) == ('this',) or x.loc[0] == 'fld' and x.loc[1][0] == 'deref']
        ws = [x for x in ws if x.loc[0] == 'fld' and x.loc[2] in fl.values() and x.loc[1][0] == 'deref']
        # the ready-made case: nothing else may be dereferenced (a null member is only found at run time)
        for m in ('gain', 'loss'):
            mine = [x for x in ws if x.loc[2] == fl[m]]
            z = cmp_('==', tot[m], ZERO, False)
            if not mine:
                C.bad('%s.%s' % (kind, m), 'the %s is not normalised' % m, w)
                continue
            for rn, fs in (('nonzero', [b_not(z)]), ('zero', [z])):
                act = []
                und = False
                for x in mine:
                    g = simp(I, x.guard, fs)
                    gl = b_and(*[simp(I, L.guard, fs) for L in x.loops])
                    g = b_and(g, gl)
                    if g == F or not feasible(fs + list(conj(g))):
                        continue
                    v = simp(I, x.val, fs)
                    own = uncond_ld(v, x.loc)
                    if rn == 'zero' and own and v == A(own[0]):
                        continue
                    act.append((x, v, g))
                oid = '%s.%s.%s' % (kind, m, rn)
                if rn == 'zero':
                    if not act:
                        C.ok(oid, 'a %s total of zero leaves the measure unchanged' % m, w)
                    for x, v, g in act:
                        own = uncond_ld(v, x.loc)
                        if hasunk(v):
                            C.und(oid, 'value not modelled', C.evwhere(x.e))
                        else:
                            C.bad(oid, 'with a %s total of zero the code stores %s' % (m, show(v)[:300]), C.evwhere(x.e))
                    continue
                if not act:
                    C.bad(oid, 'a non-zero total is not divided by', w)
                for x, v, g in act:
                    own = uncond_ld(v, x.loc)
                    want = div(A(own[0]), tot[m]) if own else None
                    xw = C.evwhere(x.e)
                    if own and v == want and g == T:
                        C.ok(oid + '.value', 'divided by the %s of the full aggregate before normalisation' % m, xw)
                    elif hasunk(v) or hasunk(g):
                        C.und(oid + '.value', 'not modelled: %s' % show(v)[:200], xw)
                    elif g != T and own and v == want:
                        C.bad(oid + '.value', 'divided only when %s' % show(g)[:300], xw)
                    else:
                        C.bad(oid + '.value', 'the code stores %s where the property requires the value divided by the %s the full aggregate had before normalisation' % (show(v)[:300], m), xw)
                if len(act) > 1:
                    C.bad(oid + '.once', 'divided at %d places' % len(act), w)
                    continue
                if act:
                    coverage(C, I, kind, oid + '.cover', act[0][0], QL, hs if kind in 'HD' else None, M if kind == 'O' else None)


def root_(loc):
    return root(loc)


def coverage(C, I, kind, oid, x, QL, hs, M):
    w = C.evwhere(x.e)
    p = x.loc[1][1][1]         # location of the pointer
    i, j, h, k = [A(('c', n)) for n in 'ijhk']
    if early(x.loops):
        C.und(oid, 'loop with early exit', w)
        return
    def sz(loc):
        return A(('ld', ('size', loc), 0))
    def dim(loc):
        return A(('ld', ('dim', loc), 0))
    keys, syms, regs = [], [], []
    facts = []
    if kind in 'HD':
        q = p
        if kind == 'D':
            m = p[1]
            if m[0] != 'deref' or m[1][0] != 'ldp':
                C.und(oid, 'location %s' % show(p), w)
                return
            q = m[1][1]
        if q[0] != 'idx' or q[1] != QL:
            C.und(oid, 'location %s' % show(p), w)
            return
        keys.append(q[2])
        syms.append(h)
        facts.append(cmp_('==', sz(QL), hs, True))
        regs += [cmp_('>=', h, ZERO, True), cmp_('<', h, hs, True)]
    if kind in 'OD':
        mat = p[1]
        if p[0] == 'lin':
            keys.append(p[2])
            syms.append(k)
            d = dim(mat)
            top = scale(mul(d, add(d, ONE)), Fraction(1, 2))
            regs += [cmp_('>=', k, ZERO, True), cmp_('<', k, top, True)]
        elif p[0] == 'cell':
            keys += [p[2], p[3]]
            syms += [i, j]
            d = dim(mat)
            regs += [cmp_('>=', i, ZERO, True), cmp_('>=', j, i, True), cmp_('<', j, d, True)]
        else:
            C.und(oid, 'location %s' % show(p), w)
            return
    got = instances(x.loops, x.guard if not contains(x.guard, lambda n: n[0] == 'ld' and n[1][0] == 'fld') else T, keys, syms)
    if got is None:
        C.und(oid, 'loop nest not linear', w)
        return
    # the length of a node's matrix: same for every node
    region = b_and(*regs)
    def norm(t):
        if kind != 'D':
            return t
        return rewrite(t, lambda n: ('ld', ('dim', ('every',)), 0) if n[0] == 'ld' and n[1][0] == 'dim' else None)
    r = covers(I, norm(got), norm(region), [norm(f) for f in facts] + [cmp_('>=', A(('ld', ('dim', ('every',)), 0)), ONE, True)])
    if r is True:
        C.ok(oid, 'every %s is divided exactly once' % {'O': 'interval', 'H': 'node', 'D': 'node and interval'}[kind], w)
    elif hasunk(got):
        C.und(oid, 'index set %s' % show(got)[:300], w)
    else:
        C.bad(oid, 'the divided index set %s is %s (required %s)' % (show(got)[:300], r[1], show(region)[:300]), w)


def rule_readymade(C):
    """qualities supplied ready-made: normalising only needs what that constructor provides"""
    for cn in ('OQualities', 'HQualities', 'DQualities'):
        c = C.cls(cn)
        f = C.meth(c, 'normalize', 0)
        n = 0
        for ctor in C.ctors(c):
            if not any('Quality>' in strip(p['t']) for p in ctor['ps']):
                continue
            n += 1
            I = C.interp(('utm',), opaque=[NS + 'HValuesMetaData::setPath'])
            I.call(ctor['key'], cls=c)
            a = len(I.events)
            I.call(f['key'], cls=c)
            C.used(I, ctor, f)
            evs = list(flat(I.events[a:]))
            bad = [e for e, _ in evs if e.kind in ('nullderef', 'undef')]
            if bad:
                C.bad(cn + '.readymade', 'normalising qualities supplied ready-made uses a null or unset member', C.evwhere(bad[0]))
            elif I.unknown:
                C.und(cn + '.readymade', str(I.unknown[:2]), C.where(ctor))
            elif not any(x.loc[0] == 'fld' and x.loc[1][0] == 'deref' and root(x.loc) != ('this',) or True for x in writes(evs)):
                C.bad(cn + '.readymade', 'nothing is normalised', C.where(f))
            else:
                C.ok(cn + '.readymade', 'ready-made qualities are normalised without further inputs', C.where(ctor))
        if not n:
            C.und(cn + '.readymade', 'no constructor from ready-made qualities', C.where(f))


RULES = {'C08': [rule_normalize, rule_readymade]}
