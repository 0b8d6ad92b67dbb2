"""C14 C15 C16 C17 (C++ part): the sweep over the parameter range."""
from .core import *
from .terms import rewrite
from .r_dp import loops_of, isqual_

KINDS = ('O', 'H', 'D')
MEMBERS = {'getPList': 'parameter list', 'getPartitions': 'retained partitions', 'getPartitionsTuples': 'tuple list', 'getQualityList': 'quality list'}
LO, HI, TH = ('sym', 'lo', 'lo'), ('sym', 'hi', 'hi'), ('sym', 'thr', 'threshold')


def exact(t):
    """drop rounding marks"""
    return rewrite(t, lambda n: n[2] if n[0] == 'fn' and n[1] in ('fl32', 'fl64', 'fl80') else None) if isinstance(t, tuple) else t


class BadStart(Undecided):
    def __init__(s, msg, w):
        Undecided.__init__(s, msg)
        s.msg, s.w = msg, w


class Sweep:
    def __init__(s, C, p):
        s.C, s.p = C, p
        P = C.P
        s.c = C.cls(p + 'Partitioner')
        s.pc = C.cls(p + 'Partition')
        s.f = C.meth(s.c, 'computeBestPartitions', 3)
        s.best = C.meth(s.c, 'computeBestPartition', 1)
        s.getp = C.meth(s.pc, 'getParameter', 0)
        s.w = C.where(s.f)
        s.eq = {}
        for f in P.functions.values():
            n = f['q'].rsplit('::', 1)[-1]
            if n in ('operator==', 'operator!='):
                ts = [strip(x['t']) for x in f['ps']] + ([f['cls']] if f.get('cls') else [])
                if ts == [s.pc, s.pc]:
                    s.eq[f['key']] = n == 'operator=='
        rec = [k for k in P.reach(s.f['key']) | {s.f['key']} if P.recursive(k) and s.best['key'] in P.reach(k) and P.functions[k].get('b') is not None]
        top = [k for k in rec if any(k in P.callees(g) for g in (P.reach(s.f['key']) | {s.f['key']}) - P.scc(k))]
        if not top:
            J = C.interp(opaque=[s.best['key']] + list(s.eq))
            J.call(s.f['key'], cls=s.c)
            cs = [(e, l) for e, l in flat(J.events) if e.kind == 'call' and e.key == s.best['key']]
            if not J.unknown and not any(l for e, l in cs):
                raise BadStart('best partitions are only computed for %d fixed parameters: the range between them is never refined' % len(cs), s.w)
        if len(top) != 1:
            raise Undecided('%s: %d recursive refinement functions' % (s.f['q'], len(top)))
        s.R = P.functions[top[0]]
        J = C.interp()
        J.thisloc, J.thiscls = ('this',), s.c
        s.m = {}
        for g in MEMBERS:
            v = J.call(C.meth(s.c, g, 0)['key'], cls=s.c)
            l = J.canon(v.loc) if isinstance(v, LV) else None
            if l is None or l[0] != 'fld' or l[1] != ('this',):
                raise Undecided('%s::%s does not return a member' % (s.c, g))
            s.m[g] = l
        s.pl, s.pm, s.tl, s.ql = (s.m[g] for g in MEMBERS)
        # ------------------------------------------------ top level
        I = s.I = s.mk()
        s.a = {}
        I.call(s.f['key'], cls=s.c)
        C.used(I, s.f)
        s.evs = list(flat(I.events))
        names = [x['n'] for x in s.f['ps']]
        s.thr, s.min, s.max = [A(('sym', i, x['n'] or 'arg%d' % i)) for i, x in enumerate(s.f['ps'])]
        # ------------------------------------------------ refinement
        s.top = [(e, l) for e, l in s.evs if e.kind == 'call' and e.key == s.R['key']]
        s.roles = None

    def mk(s):
        I = s.C.interp(opaque=[s.best['key'], s.R['key']] + list(s.eq))
        I.rounding = True
        I.thisloc, I.thiscls = ('this',), s.c
        w = []
        for c in (s.pl, s.pm):
            w += [('size', fam(c)), ('idx', fam(c), '*')]
        I.recw[s.R['key']] = w
        return I

    def isbest(s, v):
        """parameter x when v is the best partition for x"""
        if isinstance(v, tuple) and v and v[0] == 'ldp' and v[1][0] == 'call' and v[1][1] == s.best['q']:
            return exact(v[1][3])
        return None

    def paramof(s, I, v):
        """term for the parameter a partition (given as pointer value) is labelled with"""
        return I.call(s.getp['key'], this=('deref', v), cls=s.pc)

    def norm(s, t, parts):
        """parts: {pointer value: (name, parameter term)}; equalities become EQ atoms, labels become parameters"""
        names = {('deref', k): n for k, (n, p) in parts.items()}
        pf = s.paramfield()

        def obj(v):
            if isinstance(v, tuple) and v and v[0] == 'ptr':
                if v[1] not in names and v[1][0] == 'deref' and s.isbest(v[1][1]) is not None:
                    # its argument has been rewritten already
                    for k, (n, p) in parts.items():
                        if n == 'M' and p == s.isbest(v[1][1]):
                            return n
                return names.get(v[1], v[1])
            return v

        def f(n):
            if n[0] == 'fn' and n[1] in ('fl32', 'fl64', 'fl80'):
                return n[2]
            if n[0] == 'ld' and n[1][0] == 'fld' and n[1][2] == pf:
                o = n[1][1]
                for k, (nm, p) in parts.items():
                    if o == ('deref', k):
                        return p
                if o[0] == 'deref' and s.isbest(o[1]) is not None:
                    return s.isbest(o[1])
            if n[0] == 'bat' and n[1][0] == 'call':
                q = [x for k, x in s.eq.items() if s.C.P.functions[k]['q'] == n[1][1]]
                if q:
                    xs = tuple(sorted([repr(obj(x)) for x in n[1][2:] if x != ('null',)]))
                    b = ('bat', ('EQ',) + xs) if len(set(xs)) == 2 else T
                    return b if q[0] else b_not(b)
            if n[0] == 'bat' and n[1][0] == 'has':
                return F
            return None
        return rewrite(t, f) if isinstance(t, tuple) else t

    def paramfield(s):
        if not hasattr(s, '_pf'):
            J = s.C.interp()
            r = J.call(s.getp['key'], this=('obj',), cls=s.pc)
            a = single(r) if is_poly(r) else None
            if a is None or a[0] != 'ld' or a[1][0] != 'fld':
                raise Undecided('getParameter of ' + s.pc)
            s._pf = a[1][2]
        return s._pf


def EQ(a, b):
    return ('bat', ('EQ',) + tuple(sorted([repr(a), repr(b)])))


def sweep(C, p):
    if not hasattr(C, '_sweep'):
        C._sweep = {}
    if p not in C._sweep:
        try:
            C._sweep[p] = Sweep(C, p)
        except (Undecided, Anchor) as e:
            C._sweep[p] = e
    if isinstance(C._sweep[p], Exception):
        raise C._sweep[p]
    return C._sweep[p]


class Refine:
    """one activation of the refinement function, in terms of lo, hi, A, B, threshold"""
    def __init__(r, s, C):
        r.s, r.C = s, C
        if len(s.top) != 1 or s.top[0][1]:
            raise Undecided('%d initial refinements' % len(s.top))
        e = s.top[0][0]
        I = r.I = s.mk()
        r.roles = []
        args = {}
        bl = []
        for i, (v, p) in enumerate(zip(e.args, s.R['ps'])):
            x = s.isbest(v)
            v2 = exact(v)
            if x is not None:
                role = 'A' if x == s.min else 'B' if x == s.max else None
                if s.min == s.max:
                    role = None
            elif v2 == s.thr:
                role = 'T'
            elif v2 == s.min:
                role = 'lo'
            elif v2 == s.max:
                role = 'hi'
            elif isinstance(v, tuple) and v and v[0] == 'ptr' and root(v[1]) == ('this',):
                role = 'other'
                args[i] = LV(v[1], p['t'])
            else:
                role = None
            r.roles.append(role)
        r.e = e
        if r.roles.count('A') > 1 or r.roles.count('B') > 1:
            if not unclear(s, s.I, e.args):
                raise BadStart('both ends of the refinement are the best partition for the same parameter', C.evwhere(e))
            raise Undecided('initial refinement')
        I.call(s.R['key'], cls=s.c if s.R.get('cls') else None, args=args)
        C.used(I, s.R)
        r.evs = list(flat(I.events))
        parts = {}
        r.parts = parts
        r.num = {}
        for i, (role, p) in enumerate(zip(r.roles, s.R['ps'])):
            if role in ('A', 'B'):
                parts[('ldp', ('arg', i), 0)] = (role, A(LO) if role == 'A' else A(HI))
            elif role in ('T', 'lo', 'hi'):
                r.num[('sym', i, p['n'] or 'arg%d' % i)] = A({'T': TH, 'lo': LO, 'hi': HI}[role])

        for e, l in r.evs:
            if e.kind == 'call' and e.key == s.R['key']:
                for v in e.args:
                    x = r.P(v)
                    if isinstance(x, tuple):
                        parts[v] = ('M', x[1])

    def top(r, C, want, facts):
        """guard of the first refinement in terms of lo, hi, A, B: None when it is not at least the refinement condition, True when it is exactly that"""
        s = r.s
        parts = {v: (role, A(LO) if role == 'A' else A(HI)) for v, role in zip(r.e.args, r.roles) if role in ('A', 'B')}
        m = {s.min: A(LO), s.max: A(HI), s.thr: A(TH)}
        g = rewrite(s.norm(r.e.guard, parts), lambda n: m.get(A(n)) if n[0] == 'sym' else None)
        if not b_equiv(b_and(g, want), want, facts):
            return None
        return bool(b_equiv(g, want, facts))

    def N(r, t):
        return rewrite(r.s.norm(t, r.parts), lambda n: r.num.get(n)) if isinstance(t, tuple) else t

    def P(r, v):
        """role of a partition pointer"""
        if v in r.parts and r.parts[v][0] != 'M':
            return r.parts[v][0]
        x = r.s.isbest(v)
        if x is not None:
            return ('M', r.N(x))
        return None


def cond(C, I, oid, got, want, facts, msg, w):
    r = b_equiv(got, want, facts)
    if r:
        C.ok(oid, msg, w)
    elif r is None or hasunk(got) or I.unknown:
        C.und(oid, msg + ': condition not modelled', w)
    else:
        C.bad(oid, '%s: the code does it under %s, required: %s' % (msg, show(got)[:300], show(want)[:200]), w)
    return bool(r)


def unclear(s, I, t):
    return hasunk(t) or bool(I.unknown)


def rule_refine(C, p):
    """refine(A,B): where A and B differ and are further apart than the threshold: best partition at the midpoint kept between the refinements of both halves"""
    try:
        s = sweep(C, p)
        r = Refine(s, C)
    except BadStart as b:
        C.bad(p + '.refine.start', b.msg, b.w)
        return
    I, N = r.I, r.N
    w = C.where(s.R)
    for role in ('A', 'B', 'T'):
        if role not in r.roles:
            if None in r.roles and not unclear(s, s.I, r.e.args):
                C.bad(p + '.refine.start', 'the refinement is not started with the threshold and the best partitions for both ends of the range: %s' % ', '.join(show(a)[:80] for a in r.e.args), C.evwhere(r.e))
            else:
                C.und(p + '.refine.start', 'arguments of the refinement', C.evwhere(r.e))
            return
    for L in loops_of(I.events):
        C.und(p + '.refine', 'loop in the refinement', L.where())
        return
    facts = [cmp_('>', A(HI), A(LO), False)]
    want = b_and(b_not(EQ('A', 'B')), cmp_('>', sub(A(HI), A(LO)), A(TH), False))
    mid = scale(add(A(LO), A(HI)), Fraction(1, 2))
    seq = []
    for n, (e, l) in enumerate(r.evs):
        g = N(e.guard)
        if not feasible(list(conj(g)) + facts):
            continue
        if e.kind == 'call' and e.key == s.R['key']:
            seq.append(('rec', e, g))
        elif e.kind == 'push' and e.loc == s.pl:
            seq.append(('push', e, g))
        elif e.kind == 'write' and e.loc is not None and e.loc[0] in ('at', 'idx') and e.loc[1] == s.pm and not e.promoted:
            seq.append(('store', e, g))
        elif e.kind in ('call', 'init', 'access', 'alloc', 'math'):
            pass
        elif e.loc is not None and any(q in (s.pl, s.pm) for q in prefixes(e.loc)):
            C.und(p + '.refine', 'another change of the results', C.evwhere(e))
            return
    kinds = [k for k, e, g in seq]
    if unclear(s, I, None) and sorted(kinds) != ['push', 'rec', 'rec', 'store']:
        C.und(p + '.refine', 'refinement not modelled: %s' % (I.unknown[:1],), w)
        return
    for k, n, what in (('rec', 2, 'recursive refinements'), ('push', 1, 'additions to the parameter list'), ('store', 1, 'retained partitions')):
        if kinds.count(k) != n:
            C.bad(p + '.refine.' + k, 'one refinement step has %d %s, required %d' % (kinds.count(k), what, n), w)
            return
    order = [k for k in kinds if k != 'store']
    if order != ['rec', 'push', 'rec']:
        C.bad(p + '.refine.order', 'the midpoint is added to the parameter list %s the refinements of both halves, so the list is not ascending' % ('before' if order[0] == 'push' else 'after'), w)
    else:
        C.ok(p + '.refine.order', 'the midpoint is listed between the refinements of the two halves', w)
    kids = iter((('A', 'M'), ('M', 'B')))
    nmid = {'A': A(LO), 'B': A(HI), 'M': mid}
    pre = r.top(C, want, facts)
    hoisted = pre and not any(b_equiv(g, want, facts) for k, e, g in seq)
    for k, e, g in seq:
        if k == 'rec':
            a, b = next(kids)
            child = b_and(b_not(EQ(a, b)), cmp_('>', sub(nmid[b], nmid[a]), A(TH), False))
            both = b_and(want, child)
            # a call whose activation would do nothing may be left out
            if hoisted:
                want_ = both
                g = b_and(g, want)
            else:
                want_ = g if b_equiv(b_and(g, want), g, facts) and b_equiv(b_and(g, both), both, facts) else want
        else:
            want_ = want
            if hoisted:
                g = b_and(g, want)
        cond(C, I, '%s.refine.cond@%s' % (p, k), g, want_, facts, {'rec': 'halves are refined', 'push': 'the midpoint is listed', 'store': 'the partition at the midpoint is kept'}[k] + ' exactly where the neighbours differ and are further apart than the threshold', C.evwhere(e))
    recs = [e for k, e, g in seq if k == 'rec']
    for e, (a, b), nm in zip(recs, (('A', 'M'), ('M', 'B')), ('lower', 'upper')):
        for v, role in zip(e.args, r.roles):
            if role is None or role == 'other':
                continue
            oid = '%s.refine.%s.%s' % (p, nm, role)
            we = C.evwhere(e)
            if role in ('A', 'B'):
                x = a if role == 'A' else b
                got = r.P(v)
                ok = got == x if x != 'M' else isinstance(got, tuple) and eqt(I, got[1], mid, facts)
                if ok:
                    C.ok(oid, 'the %s half is refined between %s and %s' % (nm, a, b), we)
                elif got is None:
                    C.und(oid, 'partition handed to the recursion not modelled', we)
                else:
                    C.bad(oid, 'the %s half is refined with %s as its %s end, required: %s' % (nm, pname(got), 'lower' if role == 'A' else 'upper', {'A': 'the lower neighbour', 'B': 'the upper neighbour', 'M': 'the best partition for the midpoint'}[x]), we)
            else:
                x = {'T': A(TH), 'lo': A(LO) if a == 'A' else mid, 'hi': A(HI) if b == 'B' else mid}[role]
                judge(C, I, oid, N(v), x, facts, 'the %s half is refined with the right %s' % (nm, {'T': 'threshold', 'lo': 'lower end', 'hi': 'upper end'}[role]), we)
    for k, e, g in seq:
        if k == 'push':
            judge(C, I, p + '.refine.listed', N(e.val), mid, facts, 'the midpoint is what is listed', C.evwhere(e))
        if k == 'store':
            judge(C, I, p + '.refine.key', N(e.loc[2]), mid, facts, 'the partition is filed under the midpoint', C.evwhere(e))
            got = r.P(e.val)
            if isinstance(got, tuple) and eqt(I, got[1], mid, facts):
                C.ok(p + '.refine.kept', 'the best partition for the midpoint is kept', C.evwhere(e))
            elif got is None:
                C.und(p + '.refine.kept', 'partition kept not modelled', C.evwhere(e))
            else:
                C.bad(p + '.refine.kept', 'kept under the midpoint: %s' % pname(got), C.evwhere(e))


def pname(x):
    return {'A': 'the lower neighbour', 'B': 'the upper neighbour'}.get(x) or 'the best partition for ' + show(x[1])[:120]


def rule_ends(C, p):
    """the sweep lists min, what the refinement finds, max, and keeps the best partitions for both ends"""
    s = sweep(C, p)
    I = s.I
    N = lambda t: s.norm(t, {})
    facts = [cmp_('>', s.max, s.min, False)]
    eqf = [cmp_('==', s.max, s.min, False)]
    seq = []
    for e, l in s.evs:
        if l:
            continue
        if e.kind == 'call' and e.key == s.R['key']:
            seq.append(('rec', e))
        elif e.kind == 'push' and e.loc == s.pl:
            seq.append(('push', e))
        elif e.kind == 'write' and e.loc is not None and e.loc[0] in ('at', 'idx') and e.loc[1] == s.pm and not e.promoted:
            seq.append(('store', e))
    if unclear(s, I, None):
        C.und(p + '.ends', 'sweep not modelled: %s' % (I.unknown[:1],), s.w)
        return
    order = [k for k, e in seq if k != 'store']
    ps = [e for k, e in seq if k == 'push']
    if order != ['push', 'rec', 'push']:
        grown = [e for e, l in s.evs if l and e.kind == 'push' and e.loc == s.pl]
        if grown:
            C.und(p + '.ends', 'the parameter list grows in a loop', s.w)
        else:
            C.bad(p + '.ends.order', 'the sweep lists %s, required: the lower end, the refinements, the upper end' % ', '.join({'push': show(N(e.val))[:60], 'rec': 'the refinements'}[k] for k, e in seq if k != 'store'), s.w)
        return
    C.ok(p + '.ends.order', 'the lower end is listed first, the upper end last', s.w)
    for e, x, nm in zip(ps, (s.min, s.max), ('lower', 'upper')):
        judge(C, I, '%s.ends.%s' % (p, nm), N(e.val), x, facts, 'the %s end of the range is listed' % nm, C.evwhere(e))
    st = [e for k, e in seq if k == 'store']
    for x, nm in ((s.min, 'lower'), (s.max, 'upper')):
        m = [e for e in st if N(e.loc[2]) == x and b_equiv(N(e.guard), T, facts)]
        oid = '%s.ends.kept.%s' % (p, nm)
        if not m:
            C.bad(oid, 'no partition is kept for the %s end of the range' % nm, s.w)
            continue
        e = m[-1]
        got = s.isbest(e.val)
        if got is None:
            C.und(oid, 'kept partition not modelled', C.evwhere(e))
        elif eqt(I, N(got), x, facts):
            C.ok(oid, 'the best partition for the %s end is kept under it' % nm, C.evwhere(e))
        else:
            C.bad(oid, 'kept for the %s end: the best partition for %s' % (nm, show(got)[:100]), C.evwhere(e))
    for e in st:
        if not any(eqt(I, N(e.loc[2]), x, facts) for x in (s.min, s.max)):
            C.bad(p + '.ends.kept.other', 'a partition is kept for %s, which is not in the parameter list' % show(N(e.loc[2]))[:100], C.evwhere(e))
    for k, e in seq:
        g = N(e.guard)
        if k == 'rec' and b_equiv(g, T, facts) is not True:
            try:
                r = Refine(s, C)
                if r.top(C, b_and(b_not(EQ('A', 'B')), cmp_('>', sub(A(HI), A(LO)), A(TH), False)), [cmp_('>', A(HI), A(LO), False)]) is not None:
                    g = T       # the condition under which the refinement does something at all
            except Undecided:
                pass
        if b_equiv(g, T, facts) is not True:
            C.bad('%s.ends.always' % p, '%s only if %s' % ({'push': 'the end of the range is listed', 'rec': 'the range is refined', 'store': 'the partition is kept'}[k], show(g)[:200]), C.evwhere(e))
        elif k == 'push' and e is ps[0] and b_equiv(g, T, eqf) is not True:
            C.bad('%s.ends.always' % p, 'nothing is listed for a range of a single parameter', C.evwhere(e))
        else:
            C.ok('%s.ends.always' % p, 'done for every range', C.evwhere(e))
    s.double = b_equiv(N(ps[1].guard), F, eqf) is not True


def rule_distinct(C, p):
    """from the last parameter down, a parameter whose partition equals its predecessor's is dropped from list and map"""
    s = sweep(C, p)
    I = s.I
    P0 = s.pl
    er = [(e, l) for e, l in s.evs if e.kind == 'erase' and I.canon(e.loc) in (s.pl, s.pm)]
    if unclear(s, I, None):
        C.und(p + '.distinct', 'sweep not modelled: %s' % (I.unknown[:1],), s.w)
        return
    other = [e for e, l in s.evs if e.kind in ('pop', 'resize', 'clobber') and e.loc is not None and any(q in (s.pl, s.pm) for q in prefixes(e.loc))]
    copies = [e for e, l in s.evs if e.kind in ('copy', 'copyobj') and e.loc in (s.pl, s.pm)]
    if not er and not copies and not other:
        C.bad(p + '.distinct', 'no parameter is ever dropped although its partition equals the preceding one', s.w)
        return
    le = [(e, l) for e, l in er if I.canon(e.loc) == s.pl]
    me = [(e, l) for e, l in er if I.canon(e.loc) == s.pm]
    if len(le) != 1 or len(me) > 1 or other or copies and not (len(le) == 1 and all(s.evs.index((e, ())) < s.evs.index(le[0]) for e in copies if (e, ()) in s.evs)):
        C.und(p + '.distinct', 'the way duplicates are dropped is not modelled', s.w)
        return
    e, l = le[0]
    w = C.evwhere(e)
    if len(l) == 1 and l[0].iv is not None and l[0].dir == 1 and e.at is not None and const(sub(e.at, l[0].iv)) is not None and not (I.canon(e.loc) != s.pl):
        C.bad(p + '.distinct.direction', 'parameters are dropped while walking the list forwards: the one that moves into the gap is never examined', w)
        return
    if len(l) != 1 or l[0].lo is None or l[0].hi is None or l[0].ivatom is None or l[0].problem:
        C.und(p + '.distinct', 'loop that drops duplicates not modelled', w)
        return
    if not me:
        C.bad(p + '.distinct.map', 'parameters are dropped from the list but their partitions stay', w)
        return
    m, ml = me[0]
    if ml != l:
        C.und(p + '.distinct', 'list and map are reduced separately', w)
        return
    L = l[0]
    iv = A(L.ivatom) if not is_poly(L.ivatom) else L.ivatom
    sz = None
    for x, xl in s.evs:
        if x is e:
            break
        if x.kind == 'push' and x.loc == s.pl:
            sz = add(x.at, ONE)
    at = e.at
    if at is None or sz is None:
        C.und(p + '.distinct', 'position dropped not modelled', w)
        return
    # position visited as a function of the iteration: at = iv + c, descending
    c = const(sub(at, iv))
    d = L.dir
    if c is None:
        c = const(add(at, iv))
        d = -d
        lo = None
        if c is None:
            x = add(at, iv)
            if contains(x, lambda n: n == single(iv)) or hasunk(x):
                C.und(p + '.distinct', 'position dropped not modelled', w)
                return
            lo, hi = sub(x, L.hi), sub(x, L.lo)
        else:
            lo, hi = sub(num(c), L.hi), sub(num(c), L.lo)
    else:
        lo, hi = add(L.lo, num(c)), add(L.hi, num(c))
    for x in l[0].exits:
        if x.get('kind') != 'head':
            g = s.norm(unverall(x['cond']), {})
            if contains(g, lambda n: n[0] == 'EQ') and not hasunk(g):
                C.bad(p + '.distinct.all', 'the search for equal neighbours stops where %s: later ones are never dropped' % show(g)[:200], w)
            else:
                C.und(p + '.distinct', 'loop that drops duplicates may stop early', w)
            return
    facts = [cmp_('>=', sz, num(2), True)]
    judge(C, I, p + '.distinct.last', hi, sub(sz, ONE), facts, 'duplicates are searched up to the last parameter', w)
    judge(C, I, p + '.distinct.first', lo, ONE, facts, 'duplicates are searched down to the second parameter', w)
    if d != -1:
        C.bad(p + '.distinct.direction', 'parameters are dropped while walking the list forwards: the one that moves into the gap is never examined', w)
        return
    C.ok(p + '.distinct.direction', 'the list is walked from the end, so dropping never skips a parameter', w)
    V = lambda t: s.norm(unverall(t), {})
    el = lambda i: A(('ld', ('idx', s.pl, i), 0))
    pt = lambda i: ('deref', ('ldp', ('at', s.pm, el(i)), 0))
    dup = EQ(pt(at), pt(sub(at, ONE)))
    dif = b_not(cmp_('==', el(at), el(sub(at, ONE)), False))
    g = b_and(*([V(e.guard)] + [V(x) for x in conj(L.guard)]))
    gm = b_and(*([V(m.guard)] + [V(x) for x in conj(L.guard)]))
    cond(C, I, p + '.distinct.list', g, dup, [], 'a parameter is dropped from the list exactly where its partition equals the preceding one', w)
    double = getattr(s, 'double', True)
    fs = [] if double else [dif]
    cond(C, I, p + '.distinct.map', gm, b_and(dup, dif), fs, 'a partition is dropped exactly where it equals the preceding one and is filed under another parameter', C.evwhere(m))
    k = m.key
    if k is None:
        C.und(p + '.distinct.key', 'partition dropped not modelled', C.evwhere(m))
    else:
        judge(C, I, p + '.distinct.key', V(k), el(at), [], 'the partition dropped is the one of the parameter dropped', C.evwhere(m))
    # the list entry is still in place when the partition's key is read
    if s.evs.index((m, ml)) > s.evs.index((e, l)):
        if not (is_poly(k) and V(k) == el(at)):
            C.und(p + '.distinct.key', 'key read after the list changed', C.evwhere(m))


def unverall(t):
    def f(n):
        if n[0] == 'ld' and len(n) > 2 and n[2] != 0:
            return A(('ld', n[1], 0))
        if n[0] == 'ldp' and len(n) > 2 and n[2] != 0:
            return ('ldp', n[1], 0)
        return None
    return rewrite(t, f) if isinstance(t, tuple) else t


# ------------------------------------------------------------------ termination
def rule_terminates(C, p):
    """every recursive refinement works on an interval whose ends are the old end and a point strictly inside"""
    s = sweep(C, p)
    r = Refine(s, C)
    I = r.I
    recs = [(e, l) for e, l in r.evs if e.kind == 'call' and e.key == s.R['key']]
    if not recs:
        C.ok(p + '.terminates', 'no recursion')
    for n, (e, l) in enumerate(recs):
        we = C.evwhere(e)
        oid = '%s.strict.%d' % (p, n + 1)
        A_, B_ = [v for v, role in zip(e.args, r.roles) if role == 'A'], [v for v, role in zip(e.args, r.roles) if role == 'B']
        if len(A_) != 1 or len(B_) != 1 or l:
            C.und(oid, 'recursive call not modelled', we)
            continue
        pA, pB = [A(x) for x in (LO, HI)]

        def keep(t):
            """labels to lo/hi but rounding marks stay"""
            pf = s.paramfield()

            def f(n):
                if n[0] == 'ld' and n[1][0] == 'fld' and n[1][2] == pf:
                    for k, (nm, q) in r.parts.items():
                        if n[1][1] == ('deref', k):
                            return q
                    o = n[1][1]
                    if o[0] == 'deref' and o[1][0] == 'ldp' and o[1][1][0] == 'call' and o[1][1][1] == s.best['q']:
                        return o[1][1][3]
                return r.num.get(n)
            return rewrite(t, f)
        g = keep(e.guard)
        a, b = r.P(A_[0]), r.P(B_[0])
        mids = []
        for v, q in ((A_[0], a), (B_[0], b)):
            if q not in ('A', 'B'):
                if q is None:
                    mids = None
                    break
                mids.append(keep(v[1][3]))
        if mids is None:
            C.und(oid, 'ends of the recursion not modelled', we)
            continue
        if (a, b) == ('A', 'B'):
            C.bad(oid, 'the recursion is entered again with the same interval', we)
            continue
        facts = list(conj(g))
        between = []
        for m in mids:
            x = exact(m)
            if isavg(x):
                # rounding is monotone: a rounded midpoint never leaves the closed interval
                between += [cmp_('>=', m, pA, False), cmp_('<=', m, pB, False)]
        good = True
        for m in mids:
            lo = cmp_('>', m, pA, False)
            hi = cmp_('<', m, pB, False)
            # [A, M]: M must lie below B (and not below A); [M, B]: M above A
            need = ([hi] if a == 'A' else []) + ([lo] if b == 'B' else []) if isavg(exact(m)) else [lo, hi]
            facts2 = facts + between + [cmp_('>=', pB, pA, False)]
            bad = [q for q in need if not I.entails(facts2, q)]
            if not bad:
                continue
            good = False
            if unclear(s, I, g) or contains(g, lambda n: n[0] == 'fn' and n[1] not in ('fl32', 'fl64', 'fl80', 'max', 'min', 'abs')):
                C.und(oid, 'condition of the recursion not modelled: %s' % show(g)[:200], we)
            else:
                C.bad(oid, 'the recursive refinement is reached without the condition that the midpoint, rounded to the parameter type, lies strictly inside the interval: once the ends are neighbouring numbers the same interval is refined for ever', we, show(g)[:400])
            break
        if good:
            C.ok(oid, 'the recursive call is guarded by the rounded midpoint lying strictly inside the interval', we)
    for J, f in ((s.I, s.f), (I, s.R)):
        for L in loops_of(J.events):
            if L.problem or L.lo is None or L.hi is None:
                C.und(p + '.loop', 'loop bound not established: %s' % (L.problem,), L.where())
            else:
                C.ok(p + '.loop', 'counting loop', L.where())


def isavg(x):
    return x == scale(add(A(LO), A(HI)), Fraction(1, 2))


# ------------------------------------------------------------------ fresh start
def rule_fresh(C, p):
    """every result container is emptied or replaced before the sweep adds to it; nothing else of the object survives a sweep"""
    s = sweep(C, p)
    I = s.I
    eqf = [cmp_('>=', s.max, s.min, False)]
    for g, loc in s.m.items():
        done = False
        for e, l in s.evs:
            grow = e.kind == 'call' and e.key == s.R['key'] and g in ('getPList', 'getPartitions')
            if not grow and (e.loc is None or loc not in prefixes(e.loc) or e.promoted):
                continue
            we = C.evwhere(e)
            whole = e.loc == loc and e.kind in ('clear', 'init', 'copy', 'copyobj')
            if whole and not l and b_equiv(s.norm(e.guard, {}), T, []) is True:
                if e.kind in ('copy', 'copyobj') and isinstance(e.val, tuple) and e.val[0] == 'ptr' and loc in prefixes(e.val[1]):
                    C.und('%s.fresh.%s' % (p, g), 'container replaced by itself', we)
                else:
                    C.ok('%s.fresh.%s' % (p, g), 'the %s starts afresh' % MEMBERS[g], we)
                done = True
                break
            if e.kind in ('access', 'resize') or unclear(s, I, e.guard):
                C.und('%s.fresh.%s' % (p, g), 'use of the %s before it is emptied not modelled' % MEMBERS[g], we)
            elif whole:
                C.bad('%s.fresh.%s' % (p, g), 'the %s is emptied only if %s: what an earlier sweep left stays otherwise' % (MEMBERS[g], show(s.norm(e.guard, {}))[:200]), we)
            else:
                C.bad('%s.fresh.%s' % (p, g), 'the %s is extended without having been emptied: what an earlier sweep left stays visible' % MEMBERS[g], we)
            done = True
            break
        if not done:
            C.und('%s.fresh.%s' % (p, g), 'the %s is not touched by the sweep' % MEMBERS[g], s.w)
    # reads of any member that keeps a value of an earlier sweep
    J = C.interp(opaque=list(s.eq))
    const_ = constfields(C, s)
    n = 0
    for K_, what in ((s.I, s.f), (None, s.best)):
        if K_ is None:
            K_ = C.interp(('utm', 'tradeoff'), opaque=[g['key'] for g in C.ctors(s.pc)])
            ret = K_.call(s.best['key'], cls=s.c)
            C.used(K_, s.best)
            extra = [ret]
        else:
            extra = []
        own = set(s.m.values())
        terms = [(e, x) for e, l in flat(K_.events) for x in [e.val, e.guard, e.loc] + list(getattr(e, 'args', None) or []) if isinstance(x, tuple)]
        terms += [(None, x) for x in extra if isinstance(x, tuple)]
        for L in loops_of(K_.events):
            terms += [(None, x) for x in (L.lo, L.hi) if isinstance(x, tuple)]
        seen = set()
        cleared = set()
        for e, x in terms:
            if e is not None and e.kind in ('clear', 'init', 'copy', 'copyobj') and e.loc in own:
                cleared.add(e.loc)
            for a in nodes(x):
                if a[0] in ('ld', 'ldp') and len(a) > 2 and isinstance(a[1], tuple):
                    for q in prefixes(a[1]) if a[1][0] != 'size' else prefixes(a[1][1]):
                        if q[0] == 'fld' and q[1] == ('this',) and q[2] not in const_ and a[2] == 0:
                            if q in cleared and a[1] != ('size', q):
                                continue          # emptied in this very call (elements found later are this call's own)
                            seen.add((q, C.evwhere(e) if e else C.where(what)))
        for e, l in flat(K_.events):
            if what is s.best and e.loc is not None and e.kind in ('write', 'push', 'clear', 'erase', 'copyobj', 'copy', 'pop', 'resize') and not e.promoted:
                q = [q for q in prefixes(e.loc) if q[0] == 'fld' and q[1] == ('this',)]
                if q and q[-1][2] in [x[2] for x in own]:
                    C.bad('%s.fresh.best' % p, 'computing one best partition changes %s, which a sweep reports' % q[-1][2], C.evwhere(e))
        for q, w in sorted(seen, key=repr):
            C.bad('%s.fresh.read.%s' % (p, q[2].rsplit('::', 1)[-1]), '%s reads %s, which still holds what an earlier call on the same object left there' % (what['q'], q[2]), w)
        if not seen:
            C.ok('%s.fresh.reads.%s' % (p, what['n']), 'nothing left by an earlier call is read', C.where(what))


def rule_kept(C, p):
    """what a query stores in the partitioner for its next call is forgotten by the next sweep"""
    from . import r_effects
    s = sweep(C, p)
    cs = [s.c] + C.P.bases(s.c)
    done = set()
    for e, l in s.evs:
        if e.loc is not None and e.kind in ('write', 'clear', 'init', 'copy', 'copyobj') and not l and e.guard == T and not e.promoted:
            done |= {q for q in prefixes(e.loc) if q == e.loc}
    bad = False
    n = 0
    for f in r_effects.entries(C, cs):
        if f.get('ctor') or f['key'] not in r_effects.declared(C) or f['key'] in (s.f['key'], s.best['key']) or f['n'] in ('computeBestPartitions', 'computeBestPartition'):
            continue
        I = r_effects.analyse(C, f, {})
        n += 1
        for loc, e in r_effects.kept(I):
            m = [q for q in prefixes(loc) if q[0] == 'fld' and q[1] == ('this',)]
            if not m or m[-1] in done or any(q in done for q in prefixes(loc)) or m[-1] in s.m.values():
                continue
            bad = True
            C.bad('%s.fresh.kept.%s' % (p, m[-1][2].rsplit('::', 1)[-1]), '%s answers from %s, which it stored in an earlier call and which a new sweep does not reset' % (f['q'], m[-1][2].replace(NS, '')), C.evwhere(e))
            break
    if not bad:
        C.ok('%s.fresh.kept' % p, 'no query of %d keeps an answer beyond the next sweep' % n, s.w)


def constfields(C, s):
    """members only constructors assign"""
    P = C.P
    cs = [s.c] + P.bases(s.c)
    fields = {c + '::' + f['n'] for c in cs for f in P.records.get(c, {}).get('fields', [])}
    written = set()
    for f in P.functions.values():
        if f.get('cls') in cs and not f.get('ctor') and f.get('b') is not None and f['key'] in (P.reach(s.f['key']) | {s.f['key'], s.best['key']}):
            J = C.interp(opaque=[s.best['key'], s.R['key']] + list(s.eq))
            try:
                J.call(f['key'], cls=s.c)
            except (Undecided, RecursionError):
                return fields - {x[2] for x in s.m.values()}
            for e, l in flat(J.events):
                if e.loc is not None and e.kind in ('write', 'push', 'clear', 'erase', 'copyobj', 'copy', 'pop', 'resize', 'init', 'clobber'):
                    q = [q for q in prefixes(e.loc) if q[0] == 'fld' and q[1] == ('this',)]
                    if q:
                        written.add(q[-1][2])
    return fields - written


# ------------------------------------------------------------------ reported rows
COLS = {'O': ('getStart', 'getEnd'), 'H': ('getH', 'getSize'), 'D': ('getH', 'getSize', 'getStart', 'getEnd')}
PART = {'O': 'OPart', 'H': 'HPart', 'D': 'DPart'}


def maporder(C, c, loc):
    """1: the map member is ordered by ascending keys, -1: descending, None: not known"""
    t = None
    todo = [c]
    while todo:
        k = todo.pop()
        r = C.P.records.get(k)
        if not r:
            continue
        for f in r['fields']:
            if loc[0] == 'fld' and loc[2] in (f['n'], k + '::' + f['n']):
                t = t or f['t']
        todo += [b if isinstance(b, str) else b.get('t', b.get('n', '')) for b in r['bases']]
    if t is None or not t.startswith('std::map<'):
        return None
    if ' std::less<' in t:
        return 1
    if ' std::greater<' in t:
        return -1
    return None


def outer(s, I, L, keyt):
    """does the loop visit every retained partition once, in ascending parameter order?  -> (pointer loads accepted, key term)"""
    iv = A(L.ivatom) if not is_poly(L.ivatom) else L.ivatom
    psz, lsz = I.size(s.pm), I.size(s.pl)
    key = A(('ld', ('fld', ('idx', s.pm, iv), 'first'), 0))
    val = ('ldp', ('fld', ('idx', s.pm, iv), 'second'), 0)
    lk = A(('ld', ('idx', s.pl, iv), 0))
    lv = ('ldp', ('at', s.pm, lk), 0)
    return [('map', key, val, sub(psz, ONE)), ('list', lk, lv, sub(lsz, ONE))]


def rule_rows(C, p):
    """one row per part of each retained partition, columns in the documented order"""
    s = sweep(C, p)
    I = s.I
    w = s.w
    U = unverall
    ps = [(e, l) for e, l in s.evs if e.kind == 'push' and e.loc in (s.tl, I.canon(s.tl))]
    if unclear(s, I, None):
        C.und(p + '.rows', 'sweep not modelled: %s' % (I.unknown[:1],), w)
        return
    if not ps:
        other = [e for e, l in s.evs if e.loc is not None and s.tl in prefixes(e.loc) and e.kind not in ('clear', 'init')]
        (C.und if other else C.bad)(p + '.rows', 'no row is ever added to the tuple list', w)
        return
    if len(ps) != 1 or len(ps[0][1]) != 2:
        C.und(p + '.rows', '%d places add rows' % len(ps), C.evwhere(ps[0][0]))
        return
    e, (L, M) = ps[0]
    w = C.evwhere(e)
    comps = getattr(e, 'comps', None)
    n = len(COLS[p]) + 3
    if not comps or any(k not in comps for k in range(n)):
        C.und(p + '.rows', 'row not modelled', w)
        return
    for X in (L, M):
        if X.problem or X.lo is None or X.hi is None or X.ivatom is None or early([X]):
            C.und(p + '.rows', 'loop not modelled', X.where())
            return
    # which partition does the inner loop walk?
    c0 = U(comps[0])
    forms = outer(s, I, L, c0)
    sizes = [a for a in nodes(U(M.hi)) if a[0] == 'ld' and a[1][0] == 'size']
    getparts = C.meth(s.pc, 'getParts', 0)
    hit = None
    for nm, key, val, last in forms:
        J = C.interp()
        pv = J.call(getparts['key'], this=('deref', val), cls=s.pc)
        X = unverall(J.canon(pv.loc)) if isinstance(pv, LV) else None
        if any(a[1][1] == X for a in sizes):
            hit = (nm, key, val, last, X)
    if not hit:
        if hasunk(M.hi) or not sizes or len(sizes) > 1:
            C.und(p + '.rows.parts', 'the parts walked are not modelled', M.where())
        else:
            C.bad(p + '.rows.parts', 'rows are made for the elements of %s, not for the parts of each retained partition' % show(sizes[0][1][1])[:150], M.where())
        return
    nm, key, val, last, X = hit
    C.ok(p + '.rows.parts', 'rows are made for the parts of the retained partitions', M.where())
    iv2 = A(M.ivatom) if not is_poly(M.ivatom) else M.ivatom
    judge(C, I, p + '.rows.first', U(M.lo), ZERO, [], 'every part has a row: first part', M.where())
    judge(C, I, p + '.rows.last', U(M.hi), sub(A(('ld', ('size', X), 0)), ONE), [], 'every part has a row: last part', M.where())
    judge(C, I, p + '.rows.from', L.lo, ZERO, [], 'every retained partition has rows: first one', L.where())
    judge(C, I, p + '.rows.to', simp(I, L.hi, []), last, [], 'every retained partition has rows: last one', L.where(), allow=[last])
    d = (L.dir, M.dir)
    if nm == 'map':
        o = maporder(C, s.c, s.pm)
        if o is None:
            C.und(p + '.rows.order', 'the retained partitions are kept under an unknown order', w)
            d = (1, 1)
        else:
            d = (L.dir * o, M.dir)
    if d != (1, 1):
        C.bad(p + '.rows.order', 'rows are not in ascending order of parameter and part', w)
    else:
        C.ok(p + '.rows.order', 'rows in ascending order of parameter, then part order', w)
    g = b_and(U(e.guard), *[U(x) for K_ in (L, M) for x in conj(K_.guard)])
    cond(C, I, p + '.rows.all', g, T, [], 'every part of every retained partition has a row', w)
    elt = ('idx', X, iv2)
    part = C.cls(PART[p])
    cols = [('the parameter', key)]
    K_ = C.interp()
    for gname in COLS[p]:
        cols.append((gname, K_.call(C.meth(part, gname, 0)['key'], this=elt, cls=part)))
    q = K_.call(C.meth(part, 'getQuality', 0)['key'], this=elt, cls=part)
    qc = C.cls('Quality')
    for gname in ('getGain', 'getLoss'):
        cols.append((gname, K_.call(C.meth(qc, gname, 0)['key'], this=('deref', q), cls=qc)))
    label = U(s.paramof(C.interp(), val))
    for k, (name, want) in enumerate(cols):
        got = exact(U(comps[k]))
        if is_poly(got):
            got = substitute(got, {single(label): key})
        want = U(want)
        if got == want or eqt(I, got, want, []):
            C.ok('%s.rows.col%d' % (p, k), 'column %d is %s' % (k, name), w)
        elif hasunk(got):
            C.und('%s.rows.col%d' % (p, k), 'column %d not modelled' % k, w)
        else:
            C.bad('%s.rows.col%d' % (p, k), 'column %d of the rows is %s, documented: %s of the part' % (k, show(got)[:200], name), w)


def rule_qlist(C, p):
    """the quality list maps each retained parameter to its partition's quality"""
    s = sweep(C, p)
    I = s.I
    U = unverall
    if unclear(s, I, None):
        C.und(p + '.qlist', 'sweep not modelled: %s' % (I.unknown[:1],), s.w)
        return
    ws = [(e, l) for e, l in s.evs if e.kind == 'write' and e.loc is not None and e.loc[0] in ('at', 'idx') and e.loc[1] == s.ql and not e.promoted]
    if not ws:
        other = [e for e, l in s.evs if e.loc is not None and s.ql in prefixes(e.loc) and e.kind not in ('clear', 'init')]
        (C.und if other else C.bad)(p + '.qlist', 'the quality list is never filled', s.w)
        return
    if len(ws) != 1 or len(ws[0][1]) not in (1, 2):
        C.und(p + '.qlist', '%d places fill the quality list' % len(ws), C.evwhere(ws[0][0]))
        return
    e, l = ws[0]
    w = C.evwhere(e)
    L = l[0]
    if any(X.problem or X.lo is None or X.hi is None or X.ivatom is None or early([X]) for X in l):
        C.und(p + '.qlist', 'loop not modelled', w)
        return
    getq = C.meth(s.pc, 'getQuality', 0)
    hit = None
    for nm, key, val, last in outer(s, I, L, None):
        if U(exact(e.loc[2])) in (key, U(s.paramof(C.interp(), val))):
            hit = (key, val, last)
    if not hit:
        (C.und if hasunk(e.loc[2]) else C.bad)(p + '.qlist.key', 'the quality is filed under %s, not under the parameter of each retained partition' % show(e.loc[2])[:200], w)
        return
    key, val, last = hit
    C.ok(p + '.qlist.key', 'filed under the retained parameter', w)
    judge(C, I, p + '.qlist.from', L.lo, ZERO, [], 'every retained partition: first one', L.where())
    judge(C, I, p + '.qlist.to', simp(I, L.hi, []), last, [], 'every retained partition: last one', L.where(), allow=[last])
    g = b_and(U(e.guard), *[U(x) for K_ in l for x in conj(K_.guard)])
    if len(l) == 2:
        g = b_and(g, cmp_('>=', U(l[1].hi), U(l[1].lo), True))
        C.und(p + '.qlist.all', 'filled once per part', w)
    else:
        cond(C, I, p + '.qlist.all', exact(s.norm(g, {})), T, [], 'every retained partition has an entry', w)
    want = C.interp().call(getq['key'], this=('deref', val), cls=s.pc)
    got, want = U(e.val), U(want)
    if got == want:
        C.ok(p + '.qlist.value', 'the entry is the partition\'s own quality', w)
    elif hasunk(got) or not isinstance(got, tuple):
        C.und(p + '.qlist.value', 'entry not modelled', w)
    else:
        C.bad(p + '.qlist.value', 'the quality list entry is %s, required: the quality of the partition filed under that parameter' % show(got)[:200], w)
    # nothing is dropped once the reports are made
    ix = s.evs.index((e, l))
    for x, xl in s.evs[ix:]:
        if x.loc is not None and any(q in (s.pm, s.pl) for q in prefixes(x.loc)) and x.kind in ('erase', 'clear', 'pop', 'push') :
            C.bad(p + '.qlist.final', 'the retained partitions change after they were reported', C.evwhere(x))


def per_kind(rule):
    out = []
    for k in KINDS:
        def r(C, k=k):
            rule(C, k)
        r.__name__ = '%s_%s' % (rule.__name__, k)
        r.__doc__ = rule.__doc__
        out.append(r)
    return out


RULES = {
    'C14': per_kind(rule_ends) + per_kind(rule_refine) + per_kind(rule_distinct),
    'C15': per_kind(rule_terminates),
    'C16': per_kind(rule_fresh) + per_kind(rule_kept),
    'C17': per_kind(rule_rows) + per_kind(rule_qlist),
}
