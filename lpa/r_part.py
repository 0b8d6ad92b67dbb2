"""C12: parts tile the whole and describe themselves."""
from .core import *

KIND = {'O': ('OPartition', 'OPart'), 'H': ('HPartition', 'HPart'), 'D': ('DPartition', 'DPart')}


def viaget(C, cls, getter, comps):
    """value a getter returns on an object with the given field values"""
    f = C.meth(cls, getter, 0)
    J = C.interp()
    r = J.call(f['key'], this=('obj',), cls=cls)
    m = {}
    for k, v in comps.items():
        m[('ld', ('fld', ('obj',), k), 0)] = v
    if isinstance(r, tuple) and r and r[0] == 'ldp' and r[1][0] == 'fld' and r[1][1] == ('obj',):
        return comps.get(r[1][2])
    if not isinstance(r, tuple):
        return None
    return substitute(r, {k: v for k, v in m.items() if is_poly(v)})


def param(C, ctor, pred):
    ix = [i for i, p in enumerate(ctor['ps']) if pred(strip(p['t']))]
    if len(ix) != 1:
        raise Undecided('parameters of ' + ctor['q'])
    return ix[0]


def isqual(t):
    return t.startswith('std::shared_ptr') and 'Quality' in t


class Meta:
    """metadata of an object at a location, through its getters"""
    def __init__(s, C, I, loc):
        c = C.cls('HValuesMetaData')
        g = lambda n: I.call(C.meth(c, n, 0)['key'], this=loc, cls=c)
        s.root, s.nodes, s.leaves = g('getRoot'), g('getHsize'), g('getLeaveSize')
        s.children, s.size, s.path, s.parents = [I.canon(g(n).loc) for n in ('getChildren', 'getSize', 'getPath', 'getParents')]

    def sz(s, h):
        return A(('ld', ('at', s.size, h), 0))

    def kids(s, h):
        return ('idx', s.children, h)

    def par(s, h):
        return A(('ld', ('idx', s.parents, h), 0))


def partpush(C, I, c, evs):
    parts = I.call(C.meth(c, 'getParts', 0)['key'], cls=c)
    loc = I.canon(parts.loc)
    return loc, [(e, l) for e, l in evs if e.kind == 'push' and fam(e.loc) == fam(loc)], [(e, l) for e, l in evs if e.loc is not None and e.loc == loc and e.kind != 'push']


def jd(C, I, oid, got, want, msg, w, facts=(), allow=()):
    """compare terms of any sort"""
    if got is None:
        C.und(oid, msg + ': not modelled', w)
    elif got == want or (is_poly(got) and is_poly(want) and eqt(I, got, want, facts)):
        C.ok(oid, msg, w)
    elif hasunk(got, allow) or I.unknown:
        C.und(oid, '%s: not fully modelled' % msg, w)
    else:
        C.bad(oid, '%s: the code yields %s, required %s' % (msg, show(got)[:300], show(want)[:300]), w)


def rule_ordered(C):
    """ordered partition: parts chain from element 0 along the cuts to the end"""
    pn, en = KIND['O']
    c, e_ = C.cls(pn), C.cls(en)
    for ctor in C.ctors(c):
        I = C.interp(('utm',))
        I.call(ctor['key'], cls=c)
        C.used(I, ctor)
        w = C.where(ctor)
        ic = param(C, ctor, lambda t: t.startswith('std::vector<int'))
        iq = param(C, ctor, isqual)
        CUT, Q = ('arg', ic), I.deref(('ldp', ('arg', iq), 0), 'obj').loc
        evs = list(flat(I.events))
        loc, ps, other = partpush(C, I, c, evs)
        if len(ps) != 1 or len(ps[0][1]) != 1:
            C.und('O.parts', 'parts are appended at %d places' % len(ps), w)
            continue
        e, (L,) = ps[0]
        ew = C.evwhere(e)
        s = viaget(C, e_, 'getStart', e.comps)
        t = viaget(C, e_, 'getEnd', e.comps)
        q = viaget(C, e_, 'getQuality', e.comps)
        n = viaget(C, e_, 'getSize', e.comps)
        a = single(s) if s is not None else None
        if a is None or a[0] not in ('in', 'iv'):
            C.und('O.start', 'start of a part is %s' % (show(s) if s is not None else None), ew)
            continue
        jd(C, I, 'O.end', t, A(('ld', ('idx', CUT, s), 0)), 'end of the part starting at s', ew, (), (s,))
        jd(C, I, 'O.quality', q, ('ldp', ('cell', Q, s, t), 0), 'quality of part [s,e]', ew, (), (s,))
        jd(C, I, 'O.size', n, add(sub(t, s), ONE), 'size of part [s,e]', ew, (), (s,))
        if a[0] == 'iv':
            C.bad('O.chain', 'the next part starts at the next element instead of after the cut', ew)
        else:
            ch = None
            for m, (v0, ve, fin, fo) in L.carried.items():
                if ('in',) and contains(s, lambda x: x[0] == 'in' and x[1:] == a[1:]) and inmatch(a, L, m):
                    ch = (v0, ve)
            if ch is None:
                C.und('O.chain', 'chain variable not found', ew)
            else:
                jd(C, I, 'O.first', ch[0], ZERO, 'start of the first part', ew)
                jd(C, I, 'O.chain', simp(I, ch[1], list(conj(e.guard))) if is_poly(ch[1]) else ch[1], add(t, ONE), 'start of the next part', ew, (), (s,))
        lo = cmp_('<', s, I.size(CUT), True)
        g = e.guard
        ex = b_or(*[x.get('cond', x.get('guard', F)) if isinstance(x, dict) else F for x in L.exits]) if L.exits else F
        le = cmp_('<=', s, I.size(CUT), True)
        nxt = add(t, ONE)
        last = [cmp_('>=', nxt, I.size(CUT), True), cmp_('==', nxt, I.size(CUT), True)]
        if L.guard != T and not I.entails([cmp_('>=', I.size(CUT), ONE, True)], L.guard):
            C.bad('O.cover', 'parts are only built when %s' % show(L.guard), ew)
        elif b_equiv(g, lo) or I.entails([lo], g) and I.entails(list(conj(g)), lo):
            C.ok('O.cover', 'a part is appended for every start below the element count', ew)
        elif b_equiv(b_and(g, le), lo, [le]) or I.entails([le] + list(conj(g)), lo) and I.entails([lo, le], g):
            C.ok('O.cover', 'a part is appended for every start below the element count', ew)
        elif g == T and any(b_equiv(ex, x) for x in last):
            C.ok('O.cover', 'parts are appended until the next start reaches the element count', ew)
        elif hasunk(g, (s,)) or g == T and hasunk(ex, (s,)):
            C.und('O.cover', 'condition %s' % show(g), ew)
        else:
            C.bad('O.cover', 'a part is appended only when %s; required: for every start s below the element count' % show(g), ew)
        emptied(C, 'O', loc, evs, ps, w)


def inmatch(a, L, m):
    """is the atom the value at the iteration's beginning of the carried location m?"""
    return a[0] == 'in' and len(a) > 2 and a[1] == L.id and (a[2] == m or (isinstance(m, tuple) and m[-1] == a[2]) or a[2] == m[-1])


def emptied(C, p, loc, evs, ps, w):
    """the part list starts empty"""
    for e, l in evs:
        if e is ps[0][0]:
            break
        if e.loc == loc and e.kind in ('init', 'clear') and not l and e.guard == T:
            C.ok(p + '.empty', 'the part list starts empty', C.evwhere(e))
            return
    C.bad(p + '.empty', 'the part list is not empty when the first part is appended', w)


def recfun(C, ctor):
    """recursive function called from the constructor's side"""
    P = C.P
    rec = [k for k in P.reach(ctor['key']) if P.recursive(k) and P.functions[k].get('b') is not None]
    out = []
    for k in rec:
        scc = P.scc(k)
        for g in P.reach(ctor['key']) | {ctor['key']}:
            if g not in scc and k in P.callees(g):
                out.append(k)
                break
    return out


def regions(C, I, oid, evs, regs, what):
    """events that happen in each region (guards must be decided there)"""
    res = {}
    for rn, facts in regs.items():
        res[rn] = []
        for e, l in evs:
            g = e.guard
            ls = []
            for L in l:
                ls += list(conj(L.guard))
            gg = simp(I, b_and(g, *ls), facts)
            if gg == F or not feasible(list(facts) + list(conj(gg))):
                continue
            if gg != T and not I.entails(list(facts), gg):
                lf = [x for L in l for x in L.facts]
                if not I.entails(list(facts) + lf, gg):
                    if hasunk(gg) or I.unknown:
                        C.und('%s.%s' % (oid, rn), '%s: condition %s not modelled' % (what, show(gg)[:200]), C.evwhere(e))
                        return None
                    res[rn].append((e, l, gg))
                    continue
            res[rn].append((e, l, T))
    return res


def top_and_body(C, I, ctor, c, pn):
    """the initial call of the recursive function and its own effects"""
    rf = recfun(C, ctor)
    if not rf:
        J = C.interp(('utm',))
        J.call(ctor['key'], cls=c)
        evs = list(flat(J.events))
        n0 = len(evs)
        loc, ps, other = partpush(C, J, c, evs)
        if not ps and not J.unknown and not any(e.kind in ('write', 'copy', 'copyobj', 'call') and (e.loc is None or fam(loc) in [fam(q) for q in prefixes(e.loc)]) for e, l in evs[:n0]):
            C.bad(pn[0] + '.parts', 'no part is ever added to the partition', C.where(ctor))
    if len(rf) != 1:
        raise Undecided('%s: %d recursive functions reachable' % (pn, len(rf)))
    R = C.P.functions[rf[0]]
    I = C.interp(('utm',), opaque=[R['key']])
    I.call(ctor['key'], cls=c)
    evs = list(flat(I.events))
    tops = [(e, l) for e, l in evs if e.kind == 'call' and e.key == R['key']]
    if len(tops) != 1:
        raise Undecided('%s: %d initial calls' % (pn, len(tops)))
    return I, R, evs, tops[0]


def rule_hier(C):
    """hierarchical partition: recursion from the root, a part at every aggregated node, all children otherwise"""
    pn, en = KIND['H']
    c, e_ = C.cls(pn), C.cls(en)
    for ctor in C.ctors(c):
        w = C.where(ctor)
        I, R, evs, (top, tl) = top_and_body(C, None, ctor, c, pn)
        ia = param(C, ctor, lambda t: t.startswith('std::vector<bool'))
        iq = param(C, ctor, isqual)
        im = param(C, ctor, lambda t: t.endswith('HValuesMetaData'))
        AGG, Q, M = ('arg', ia), I.deref(('ldp', ('arg', iq), 0), 'obj').loc, Meta(C, I, ('arg', im))
        if tl or top.guard != T:
            C.bad('H.root', 'the recursion is started when %s' % show(top.guard), C.evwhere(top))
        hi = [k for k, a in enumerate(top.args) if a == M.root]
        if len(hi) != 1:
            vals = [a for a in top.args if is_poly(a)]
            if vals and not any(hasunk(a) for a in vals):
                C.bad('H.root', 'the recursion starts at %s instead of the root' % ', '.join(show(a) for a in vals), C.evwhere(top))
            else:
                C.und('H.root', 'start of the recursion not modelled', C.evwhere(top))
            continue
        C.ok('H.root', 'the recursion starts at the root', C.evwhere(top))
        H = A(('sym', 'h', 'h'))
        I.events = []
        args = {k: a for k, a in enumerate(top.args)}
        args = {k: argval(C, R, k, a) for k, a in args.items()}
        args[hi[0]] = H
        I.call(R['key'], cls=c, args=args, tag='r')
        C.used(I, ctor, R)
        if I.unknown:
            C.und('H.model', str(I.unknown[:2]), C.where(R))
            continue
        revs = list(flat(I.events))
        loc, ps, other = partpush(C, I, c, revs)
        emptied(C, 'H', loc, evs, [(top, tl)], w)
        agg = ('bat', ('ld', ('idx', AGG, H), 0))
        calls = [(e, l) for e, l in revs if e.kind == 'call' and e.key == R['key']]
        reg = regions(C, I, 'H.cond', ps + calls, {'whole': [agg], 'split': [b_not(agg)]}, 'part or recursion')
        if reg is None:
            continue
        rw = C.where(R)
        # aggregated node: exactly one part
        pw = [x for x in reg['whole'] if x[0].kind == 'push']
        cw = [x for x in reg['whole'] if x[0].kind == 'call']
        psp = [x for x in reg['split'] if x[0].kind == 'push']
        csp = [x for x in reg['split'] if x[0].kind == 'call']
        expect(C, 'H.whole', len(pw) == 1 and pw[0][2] == T and not pw[0][1] and not cw, 'an aggregated node becomes exactly one part and is not descended into', rw, desc(pw + cw))
        expect(C, 'H.split', not psp, 'a node that is not aggregated becomes no part', rw, desc(psp))
        allkids(C, I, 'H.children', csp, M, H, hi[0], {}, rw)
        for e, l, g in pw:
            part(C, I, 'H', e_, e, {'getH': H, 'getSize': M.sz(H)}, ('ldp', ('idx', Q, H), 0))


def argval(C, R, k, a):
    t = R['ps'][k]['t'] if k < len(R['ps']) else ''
    if isinstance(a, tuple) and a and a[0] == 'ptr' and R['ps'][k].get('ref'):
        return LV(a[1], t)
    return a


def desc(xs):
    return '; '.join('%s at line %s when %s' % ('a part is appended' if x[0].kind == 'push' else 'recursion into %s' % ', '.join(show(a) for a in x[0].args), x[0].line, show(x[2])) for x in xs)[:400]


def expect(C, oid, ok, msg, w, got):
    if ok:
        C.ok(oid, msg, w)
    else:
        C.bad(oid, '%s; the code: %s' % (msg, got or 'nothing'), w)


def allkids(C, I, oid, cs, M, H, hi, rest, w):
    """exactly one loop over all children of H, recursing into each with the remaining arguments unchanged"""
    if len(cs) != 1:
        C.bad(oid, 'every child must be descended into exactly once; the code: %s' % (desc(cs) or 'no recursion'), w)
        return
    e, l, g = cs[0]
    ew = C.evwhere(e)
    if g != T:
        C.bad(oid, 'a child is descended into only when %s' % show(g), ew)
        return
    if len(l) != 1:
        C.und(oid, 'loop structure', ew)
        return
    L = l[0]
    a = e.args[hi]
    N = A(('ld', ('size', M.kids(H)), 0))
    s = single(a) if is_poly(a) else None
    k = s[1][2] if s and s[0] == 'ld' and s[1][0] == 'idx' else None
    if s is None or s[0] != 'ld' or s[1][0] != 'idx' or fam(s[1][1]) != fam(M.kids(H)):
        (C.und if hasunk(a) else C.bad)(oid, 'recursion into %s instead of a child' % show(a), ew)
        return
    if s[1][1] != M.kids(H):
        C.bad(oid, 'recursion into the children of another node: %s' % show(a), ew)
        return
    lo, hi_ = L.lo, L.hi
    cover(C, I, oid, L, k, ZERO, sub(N, ONE), 'every child is descended into exactly once', ew)
    for i, want in rest.items():
        jd(C, I, oid + '.arg%d' % i, e.args[i], want, 'interval passed to a child', ew)


def cover(C, I, oid, L, k, lo, hi, msg, w, facts=()):
    """index k takes each value lo..hi exactly once over the loop"""
    if L.exits and any((x.get('kind') if isinstance(x, dict) else '') != 'head' for x in L.exits):
        C.und(oid, msg + ': loop with early exit', w)
        return False
    s = lin_in(k, L)
    if s is None or L.hi is None or L.lo is None:
        C.und(oid, '%s: index %s' % (msg, show(k) if is_poly(k) else k), w)
        return False
    c, r = s
    a, b = add(scale(L.lo, c), r), add(scale(L.hi, c), r)
    if c == -1:
        a, b = b, a
    elif c != 1:
        C.bad(oid, '%s: the index advances by %s' % (msg, c), w)
        return False
    if eqt(I, a, lo, facts) and eqt(I, b, hi, facts):
        C.ok(oid, msg, w)
        return True
    if hasunk(a) or hasunk(b):
        C.und(oid, '%s: range %s..%s' % (msg, show(a), show(b)), w)
        return False
    C.bad(oid, '%s: the code covers %s..%s, required %s..%s' % (msg, show(a), show(b), show(lo), show(hi)), w)
    return False


def lin_in(k, L):
    """k = c*iv + r -> (c, r)"""
    if not is_poly(k):
        return None
    iv = [n for n in nodes(k) if n[0] == 'iv' and n[1] == L.id]
    if len(set(iv)) != 1:
        return None
    r = substitute(k, {iv[0]: ZERO})
    d = sub(substitute(k, {iv[0]: ONE}), r)
    c = const(d)
    if c is None or add(scale(A(iv[0]), c), r) != k:
        return None
    return c, r


def part(C, I, p, e_, e, want, q):
    ew = C.evwhere(e)
    for g, v in want.items():
        jd(C, I, '%s.%s' % (p, g), viaget(C, e_, g, e.comps), v, '%s() of the part' % g, ew)
    jd(C, I, p + '.quality', viaget(C, e_, 'getQuality', e.comps), q, 'quality of the part', ew)


def rule_spatio(C):
    """spatiotemporal partition: recursion over (node, interval) following the cuts"""
    pn, en = KIND['D']
    c, e_ = C.cls(pn), C.cls(en)
    for ctor in C.ctors(c):
        w = C.where(ctor)
        I, R, evs, (top, tl) = top_and_body(C, None, ctor, c, pn)
        ia = param(C, ctor, lambda t: t.startswith('std::vector<std::shared_ptr') and 'int' in t and 'Quality' not in t)
        iq = param(C, ctor, isqual)
        im = param(C, ctor, lambda t: t.endswith('HValuesMetaData'))
        CUTS, Q, M = ('arg', ia), I.deref(('ldp', ('arg', iq), 0), 'obj').loc, Meta(C, I, ('arg', im))
        if tl or top.guard != T:
            C.bad('D.root', 'the recursion is started when %s' % show(top.guard), C.evwhere(top))
        def isdim(a):
            s = single(add(a, ONE)) if is_poly(a) else None
            return s is not None and s[0] == 'ld' and s[1][0] == 'dim' and s[1][1][0] == 'deref' and s[1][1][1][0] == 'ldp' and s[1][1][1][1][0] == 'idx' and s[1][1][1][1][1] in (Q, CUTS)
        hi = [k for k, a in enumerate(top.args) if a == M.root]
        ji = [k for k, a in enumerate(top.args) if isdim(a)]
        ii = [k for k, a in enumerate(top.args) if a == ZERO and k not in hi]
        if len(hi) != 1 or len(ji) != 1 or len(ii) != 1:
            vals = [a for a in top.args if is_poly(a)]
            if vals and len(vals) == 3 and not any(hasunk(a) for a in vals):
                C.bad('D.root', 'the recursion starts at %s instead of the root over the whole length' % ', '.join(show(a) for a in vals), C.evwhere(top))
            else:
                C.und('D.root', 'start of the recursion not modelled: %s' % ', '.join(show(a) for a in vals), C.evwhere(top))
            continue
        C.ok('D.root', 'the recursion starts at the root over the whole length', C.evwhere(top))
        hi, ii, ji = hi[0], ii[0], ji[0]
        H, X, Y = A(('sym', 'h', 'h')), A(('sym', 'i', 'i')), A(('sym', 'j', 'j'))
        I.events = []
        args = {k: argval(C, R, k, a) for k, a in enumerate(top.args)}
        args.update({hi: H, ii: X, ji: Y})
        I.call(R['key'], cls=c, args=args, tag='r')
        C.used(I, ctor, R)
        if I.unknown:
            C.und('D.model', str(I.unknown[:2]), C.where(R))
            continue
        revs = list(flat(I.events))
        loc, ps, other = partpush(C, I, c, revs)
        emptied(C, 'D', loc, evs, [(top, tl)], w)
        cut = A(('ld', ('cell', ('deref', ('ldp', ('idx', CUTS, H), 0)), X, Y), 0))
        wf = [cmp_('>=', X, ZERO, True), cmp_('>=', Y, X, True), cmp_('>=', H, ZERO, True)]
        regs = {
            'children': wf + [cmp_('==', cut, num(-1), True)],
            'cut': wf + [cmp_('>=', cut, X, True), cmp_('<', cut, Y, True)],
            'whole': wf + [cmp_('==', cut, Y, True)],
        }
        calls = [(e, l) for e, l in revs if e.kind == 'call' and e.key == R['key']]
        reg = regions(C, I, 'D.cond', ps + calls, regs, 'part or recursion')
        if reg is None:
            continue
        rw = C.where(R)
        k = {r: ([x for x in v if x[0].kind == 'push'], [x for x in v if x[0].kind == 'call']) for r, v in reg.items()}
        p, cs = k['whole']
        expect(C, 'D.whole', len(p) == 1 and p[0][2] == T and not p[0][1] and not cs, 'an uncut area becomes exactly one part', rw, desc(p + cs))
        for e, l, g in p:
            n = add(sub(Y, X), ONE)
            fs = regs['whole']
            for gname, v in {'getH': H, 'getHSize': M.sz(H), 'getStart': X, 'getEnd': Y, 'getOSize': n, 'getSize': mul(M.sz(H), n)}.items():
                jd(C, I, 'D.' + gname, subst_eq(viaget(C, e_, gname, e.comps), cut, Y), v, '%s() of the part' % gname, C.evwhere(e), fs)
            jd(C, I, 'D.quality', subst_eq(viaget(C, e_, 'getQuality', e.comps), cut, Y), ('ldp', ('cell', ('deref', ('ldp', ('idx', Q, H), 0)), X, Y), 0), 'quality of the part', C.evwhere(e))
        p, cs = k['cut']
        expect(C, 'D.cut.part', not p, 'a cut area becomes no part itself', rw, desc(p))
        got = sorted([tuple(e.args[i] for i in (hi, ii, ji)) for e, l, g in cs], key=repr)
        want = sorted([(H, X, cut), (H, add(cut, ONE), Y)], key=repr)
        if any(l for _, l, _ in cs):
            C.und('D.cut', 'recursion inside a loop', rw)
        else:
            expect(C, 'D.cut', got == want and all(g == T for _, _, g in cs), 'a cut area is divided into [i,cut] and [cut+1,j] of the same node', rw, desc(cs))
        p, cs = k['children']
        expect(C, 'D.children.part', not p, 'an area divided into its child nodes becomes no part itself', rw, desc(p))
        allkids(C, I, 'D.children', cs, M, H, hi, {ii: X, ji: Y}, rw)


def subst_eq(t, cut, y):
    """use cut == j"""
    if t is None:
        return None
    return substitute(t, {single(cut): y})


RULES = {'C12': [rule_ordered, rule_hier, rule_spatio]}
