"""C18: parameter and curve queries."""
from .core import *
from .terms import rewrite

STRAT = {'P_MIN': 0, 'P_MAX': 1, 'P_OPT': 2}


class Q:
    def __init__(s, C):
        s.C = C
        s.c = C.cls('Partitioner')
        J = C.interp()
        s.pl, s.ql = [member(C, J, s.c, g) for g in ('getPList', 'getQualityList')]
        s.n = A(('ld', ('size', s.pl), 0))

    def norm(s, t):
        """the quality list read in key order is the quality list read along the parameter list"""
        def f(n):
            if n[0] == 'ld' and n[1] == ('size', s.ql):
                return s.n
            if n[0] == 'ld' and n[1][0] == 'fld' and n[1][2] == 'first' and n[1][1][0] == 'idx' and n[1][1][1] == s.ql:
                return A(('ld', ('idx', s.pl, n[1][1][2]), 0))
            if n[0] == 'ldp' and n[1][0] == 'fld' and n[1][2] == 'second' and n[1][1][0] == 'idx' and n[1][1][1] == s.ql:
                return ('ldp', ('at', s.ql, A(('ld', ('idx', s.pl, n[1][1][2]), 0))), 0)
            if n[0] in ('ld', 'ldp') and len(n) > 2 and n[2] != 0:
                return A(('ld', n[1], 0)) if n[0] == 'ld' else ('ldp', n[1], 0)
            return None
        return rewrite(t, f) if isinstance(t, tuple) else t

    def el(s, i):
        return A(('ld', ('idx', s.pl, i), 0))

    def gl(s, i):
        """gain and loss filed under parameter number i"""
        qc = s.C.cls('Quality')
        q = ('deref', ('ldp', ('at', s.ql, s.el(i)), 0))
        K = s.C.interp()
        return [K.call(s.C.meth(qc, g, 0)['key'], this=q, cls=qc) for g in ('getGain', 'getLoss')]


def member(C, J, cls, getter):
    v = J.call(C.meth(cls, getter, 0)['key'], cls=cls)
    l = J.canon(v.loc) if isinstance(v, LV) else None
    if l is None or l[0] != 'fld' or l[1] != ('this',):
        raise Undecided('%s::%s does not return a member' % (cls, getter))
    return l


def rule_getp(C):
    """getP: first, last, optimal retained parameter; a defined value when there is none"""
    s = Q(C)
    f = C.meth(s.c, 'getP', 1)
    w = C.where(f)
    x = A(('sym', 0, f['ps'][0]['n'] or 'arg0'))
    for nm, v in STRAT.items():
        mv = macro(C, nm)
        if mv is None:
            C.und('getP.' + nm, 'strategy value not found', w)
            continue
        I = C.interp()
        r = s.norm(I.call(f['key'], cls=s.c, args={0: num(mv)}))
        C.used(I, f)
        for reg, facts in (('empty', [cmp_('==', s.n, ZERO, True)]), ('one', [cmp_('==', s.n, ONE, True)]), ('some', [cmp_('>=', s.n, num(2), True)])):
            oid = 'getP.%s.%s' % (nm, reg)
            got = at(I, s, reg, r, facts)
            if got is None:
                C.und(oid, 'no value', w)
                continue
            if reg == 'empty':
                defined(C, I, oid, got, w, 'getP(%s) without results' % nm)
                wrapping(C, I, s, oid, w)
            elif nm != 'P_OPT':
                judge(C, I, oid, got, s.el(ZERO) if nm == 'P_MIN' or reg == 'one' else s.el(sub(s.n, ONE)), facts, 'getP(%s) is the %s retained parameter' % (nm, 'first' if nm == 'P_MIN' else 'last'), w)
            else:
                optimum(C, I, s, oid, got, facts, w)


def at(I, s, reg, r, facts):
    if not isinstance(r, tuple):
        return None
    if reg != 'some':
        r = substitute(r, {single(s.n): num({'empty': 0, 'one': 1}[reg])})
    return simp(I, r, facts)


def macro(C, name):
    for m in C.P.macros.get(name, []) if hasattr(C.P, 'macros') else []:
        try:
            return int(m)
        except ValueError:
            pass
    return STRAT[name]


def defined(C, I, oid, got, w, what):
    if is_poly(got) and (const(got) is not None or not contains(got, lambda n: n[0] in UNK + ('ld', 'ldp'))):
        C.ok(oid, what + ' is a defined value', w)
    elif contains(got, lambda n: n[0] == 'undef') or contains(got, lambda n: n[0] in ('ld', 'ldp')) and not hasunk(got):
        C.bad(oid, '%s: the code yields %s, which does not exist' % (what, show(got)[:200]), w)
    else:
        C.und(oid, what + ': not modelled', w)


def wrapping(C, I, s, oid, w):
    for at_, t in wraps(I, [cmp_('==', s.n, ZERO, True)], {single(s.n): ZERO}):
        C.bad(oid + '.wrap', 'without results an unsigned difference below zero is compared, so the branch is taken that is meant for many results', at_)


def lifted(got):
    """an element chosen through the index of the best one is the best element"""
    best = []
    rewrite(got, lambda n: best.append(n) if n[0] == 'bestarg' and n not in best else None)
    if len(best) != 1 or is_poly(got) and single(got) == best[0]:
        return got
    b = best[0]
    ap = lambda x: substitute(got, {b: x})
    return A(b[:2] + (ap(b[2]),) + b[3:8] + (ap(b[8]),) + b[9:])


def optimum(C, I, s, oid, got, facts, w):
    what = 'optimal parameter'
    got = lifted(got)
    a = single(got) if is_poly(got) else None
    n = s.n
    if I.entails(facts, cmp_('==', n, ONE, True)) and eqt(I, got, s.el(ZERO), facts):
        C.ok(oid, 'the only retained parameter', w)
        return
    if a is None or a[0] != 'bestarg':
        if hasunk(got) or I.unknown or contains(got, lambda x: x[0] in ('bestarg', 'best', 'fin')):
            C.und(oid, what + ' not modelled', w)
        else:
            C.bad(oid, '%s: the code yields %s, not the retained parameter nearest to gain one and loss zero' % (what, show(got)[:200]), w)
        return
    _, op, a0, v0, bv, lo, hi, g, ar, dr = a
    t = A(('sym', 'T0', 't'))
    g, ar = [substitute(y, {bv: t}) for y in (g, ar)]
    if isinstance(op, tuple) and op[0] == 'only':
        flt, op = s.norm(substitute(op[2], {bv: t})), op[1]
        if not I.entails(facts + [cmp_('>=', t, ZERO, True), cmp_('<', t, n, True)], flt):
            if hasunk(flt) or I.unknown:
                C.und(oid + '.all', 'parameters passed over under a condition that is not modelled', w)
            else:
                C.bad(oid + '.all', 'a retained parameter is judged only where %s' % show(flt)[:300], w)
    if isinstance(op, tuple):
        C.bad(oid + '.ties', 'some of the equally near parameters win, others do not: %s' % show(op[2])[:200], w)
        op = '<' if dr == -1 else '<='
    if dr == -1:
        keepop = '<'
    else:
        keepop = '<='
    if op != keepop:
        if op in ('<', '<='):
            C.bad(oid + '.ties', 'among equally near parameters the smallest is returned, required: the largest', w)
        else:
            C.bad(oid + '.best', 'a parameter replaces the current choice when it is farther away', w)
    else:
        C.ok(oid + '.ties', 'the largest of equally near parameters wins', w)
    gain, loss = s.gl(t)
    want = add(mul(sub(gain, ONE), sub(gain, ONE)), mul(loss, loss))
    x = single(g) if is_poly(g) else None
    if x is not None and x[0] == 'fn' and x[1] == 'sqrt':
        g = x[2]
    fs = facts + [cmp_('>=', t, ZERO, True), cmp_('<', t, n, True)]
    judge(C, I, oid + '.score', s.norm(g), want, fs, 'a parameter is judged by the squared distance of its quality from gain one and loss zero', w)
    judge(C, I, oid + '.choice', s.norm(ar), s.el(t), fs, 'the parameter judged is the one returned', w)
    if v0 == ('inf',) or isinstance(v0, tuple) and contains(v0, lambda n: n[0] in ('inf',) or n[0] == 'fn' and n[1] in ('infinity', 'max', 'inf')):
        first, last = ZERO, sub(n, ONE)
        C.ok(oid + '.init', 'the first parameter examined always replaces the initial choice', w)
    else:
        at = ZERO if dr == 1 else sub(n, ONE)
        g0, l0 = s.gl(at)
        judge(C, I, oid + '.init', s.norm(v0), add(mul(sub(g0, ONE), sub(g0, ONE)), mul(l0, l0)), facts, 'the search starts from a score no retained parameter can miss', w)
        judge(C, I, oid + '.init0', s.norm(a0), s.el(at), facts, 'the search starts from a retained parameter', w)
        first, last = (ONE, sub(n, ONE)) if dr == 1 else (ZERO, sub(n, num(2)))
    lo, hi = simp(I, s.norm(lo), facts), simp(I, s.norm(hi), facts)
    if lo != first and I.entails(facts, b_and(cmp_('>=', lo, ZERO, True), cmp_('<=', lo, first, True))):
        lo = first
    if hi != last and dr == -1 and I.entails(facts, b_and(cmp_('<=', hi, sub(n, ONE), True), cmp_('>=', hi, last, True))):
        hi = last
    judge(C, I, oid + '.first', lo, first, facts, 'every retained parameter is examined: first', w)
    judge(C, I, oid + '.last', hi, last, facts, 'every retained parameter is examined: last', w)


def rule_auc(C):
    """computeAUC: one minus the trapezoid sum over all consecutive retained parameters"""
    s = Q(C)
    f = C.meth(s.c, 'computeAUC', 0)
    w = C.where(f)
    I = C.interp()
    r = s.norm(I.call(f['key'], cls=s.c))
    C.used(I, f)
    n = s.n
    for reg, facts in (('empty', [cmp_('==', n, ZERO, True)]), ('one', [cmp_('==', n, ONE, True)]), ('some', [cmp_('>=', n, num(2), True)])):
        got = at(I, s, reg, r, facts)
        oid = 'auc.' + reg
        if got is None:
            C.und(oid, 'no value', w)
        elif reg == 'empty':
            defined(C, I, oid, got, w, 'the area without results')
            wrapping(C, I, s, oid, w)
        elif reg == 'one':
            judge(C, I, oid, got, ONE, facts, 'the area of a single retained parameter is one', w)
        else:
            def body(t):
                (g0, l0), (g1, l1) = s.gl(t), s.gl(add(t, ONE))
                return scale(mul(sub(g1, g0), add(l1, l0)), Fraction(1, 2))
            want = sub(ONE, msum(body, ZERO, sub(n, num(2))))
            judge(C, I, oid, shift(I, got), shift(I, want), facts, 'the area is one minus the trapezoid sum of loss over gain', w)


def msum(body, lo, hi):
    from . import terms as TT
    v = ('iv', 'q', 'it')
    return TT.mk_sum(v, lo, hi, body(A(v)))


def shift(I, t):
    """sums start at zero"""
    from . import terms as TT
    from .r_quality import up
    v = ('iv', 'q', 'it')

    def f(n):
        if n[0] == 'sum' and n[2] != ZERO:
            return TT.mk_sum(v, ZERO, sub(n[3], n[2]), substitute(n[4], {n[1]: add(A(v), n[2])}))
        return None
    return up(t, f)


RULES = {'C18': [rule_getp, rule_auc]}
