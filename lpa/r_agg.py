"""C19: aggregated values are the sum and the mean of exactly the part's own data."""
from .core import *
from .r_effects import each
from .terms import mk_sum
from .r_dp import solve
from .r_values import chain, nesting
from .r_part import Meta

KIND = {'O': ('OAggregate', 'OAggregation', 'OPart', 'OPartition', 'OValues'),
        'H': ('HAggregate', 'HAggregation', 'HPart', 'HPartition', 'HValues'),
        'D': ('DAggregate', 'DAggregation', 'DPart', 'DPartition', 'DValues')}
DIMS = {'O': (1, 2, 3, 4), 'H': (1, 2, 3, 4), 'D': (2, 3, 4)}
SELF = {'O': 1, 'H': 1, 'D': 2}        # coordinates that are the part's own (instants, node)


def relkeys(base, loc):
    """indices of loc below base, from the outside in; None when loc is not inside base"""
    ks = []
    while loc != base:
        if loc[0] not in ('idx', 'at'):
            return None
        ks.append(loc[2])
        loc = loc[1]
    return ks[::-1]


class St:
    def __init__(s, keys, val, guard, loops, e, rank):
        s.keys, s.val, s.guard, s.loops, s.e, s.rank = keys, val, guard, loops, e, rank


def gather(I, evs, base, upto=None, rows_=None):
    """scalar stores below a container (rows pushed into it are followed to where they were filled)"""
    out = []
    for n, (e, loops) in enumerate(evs):
        if upto is not None and n >= upto:
            break
        if e.loc is None or getattr(e, 'promoted', False):
            continue
        ks = relkeys(base, I.canon(e.loc)) if e.loc[0] != 'size' else None
        if ks is None:
            continue
        if e.kind == 'write':
            out.append(St(ks, e.val, e.guard, loops, e, (n,)))
        elif e.kind in ('push', 'copy', 'copyobj'):
            k2 = ks + ([e.at] if e.kind == 'push' else [])
            v = e.val
            if isinstance(v, tuple) and v and v[0] == 'ptr' and not is_poly(v):
                if rows_ is not None:
                    rows_.append(St(k2, None, e.guard, loops, e, (n,)))
                src = I.canon(v[1])
                rows = gather(I, evs, v[1], n) or (gather(I, evs, src, n) if src != v[1] else [])
                for r in rows:
                    if r.loops[:len(loops)] != loops:
                        out.append(St(None, None, e.guard, loops, e, (n,)))
                    else:
                        out.append(St(k2 + r.keys, r.val, b_and(e.guard, r.guard), r.loops, r.e, (n,) + r.rank))
            elif is_poly(v):
                out.append(St(k2, v, e.guard, loops, e, (n,)))
        elif e.kind == 'init' and is_poly(e.val):
            out.append(St(ks, e.val, e.guard, loops, e, (n,)))
    return out


def content(C, I, oid, base, syms, facts, w, what, other=None):
    """final value of the cell named by syms"""
    evs = list(flat(I.events))
    d = len(syms)
    cur, rank = None, None
    for s in sorted(gather(I, evs, base), key=lambda s: s.rank):
        if s.keys is None:
            return None, None
        if s.e.kind == 'init':
            if len(s.keys) < d:
                cur, rank = s.val, s.rank
            continue
        if len(s.keys) != d:
            continue
        if any(hasunk(k) for k in s.keys):
            return None, None
        so = solve(s.loops, s.keys, [single(x) for x in syms])
        if so is None:
            return None, None
        cond, sol, free = so
        cond = simp(I, b_and(cond, substitute(s.guard, sol)), facts)
        if not feasible(list(conj(cond)) + list(facts)):
            continue
        v = substitute(s.val, sol)
        me = chain(base, syms)
        mine = [n for n in nodes(v) if n[0] == 'ld' and substitute(I.canon(n[1]), sol) == me]
        if free:
            # a running total filled by a loop that does not choose the entry
            own = A(mine[0]) if len(set(mine)) == 1 else None
            g = sub(v, own) if own is not None else None
            if cur is None or g is None or contains(g, lambda n: n in mine) or hasunk(g) or not I.entails(list(facts), b_and(*[x for x in conj(cond) if not contains(x, lambda n: n[0] == 'iv')])):
                return None, None
            ok = True
            for L in free:
                at = L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)
                if any(contains(x, lambda n: n[0] == 'iv') for x in (L.lo, L.hi)) or any(contains(x, lambda n: n == at) and not I.entails([cmp_('>=', A(at), L.lo, True), cmp_('<=', A(at), L.hi, True)], x) for x in conj(cond)):
                    ok = False
                g = mk_sum(at, L.lo, L.hi, g)
            if not ok or not all(I.entails(list(facts), cmp_('<=', L.lo, L.hi, True)) for L in free):
                return None, None
            cur, rank = add(cur, g), s.rank
            continue
        if mine:
            if cur is None:
                return None, None
            v = substitute(v, {n: cur for n in mine})
        if I.entails(list(facts), cond):
            cur, rank = v, s.rank
        elif cur is not None and is_poly(v):
            cur, rank = ite(cond, v, cur), s.rank
        else:
            # not every cell is filled
            return ('part', cond, v), s.rank
    return cur, rank


def calls_of(t):
    return [n for n in nodes(t) if n[0] == 'call'] if isinstance(t, tuple) else []


def apart(t):
    """bound variables renamed so that nothing substituted is captured"""
    bvs = {n: A(('bv', n[1] + 1000)) for n in nodes(t) if n[0] == 'bv'} if isinstance(t, tuple) else {}
    if not bvs:
        return t
    from .r_quality import up
    return up(t, lambda n: A(('sum', ('bv', n[1][1] + 1000), n[2], n[3], substitute(n[4], bvs))) if n[0] == 'sum' and n[1] in bvs else None)


class Rec:
    """a recursive helper and what it yields for a leaf, as a function of its arguments"""
    def __init__(s, C, I, e, cls, LV_, M, oid):
        P = C.P
        s.q, s.key, s.ok = e.q, e.key, None
        f = P.functions[e.key]
        s.f = f
        s.w = C.where(f)
        s.syms = []
        args = {}
        for i, a in enumerate(e.args):
            if is_poly(a):
                x = A(('sym', ('r', i), (f['ps'][i]['n'] or 'arg%d' % i) + '_r'))
                args[i] = x
                s.syms.append(x)
            else:
                s.syms.append(None)
                args[i] = a if not (isinstance(a, tuple) and a and a[0] == 'ptr' and strip(f['ps'][i]['t']) in P.records) else LV(a[1], f['ps'][i]['t'])
        s.args = args
        I.unknown = list(I.unknown)
        n0 = len(I.unknown)
        this = None
        if e.obj is not None and isinstance(e.obj, tuple) and e.obj[0] == 'ptr':
            this = e.obj[1]
        r = I.call(e.key, this=this or ('this',), cls=cls if f.get('cls') else None, args=args, tag='r')
        C.used(I, f)
        s.r = r
        s.unk = I.unknown[n0:]


def rule(C, kind):
    for n in DIMS[kind]:
        aggregate(C, kind, n)


def param(f, pred, what):
    ix = [i for i, p in enumerate(f['ps']) if pred(strip(p['t']).replace('const ', ''))]
    if len(ix) != 1:
        raise Undecided(what + ' of ' + f['q'])
    return ix[0]


def setting(C, kind, n):
    an, _, pn, _, vn = KIND[kind]
    c = C.cls('%sN%d' % (an, n))
    pc, vc = C.cls(pn), C.cls('%sN%d' % (vn, n))
    return c, pc, vc


def aggregate(C, kind, n):
    c, pc, vc = setting(C, kind, n)
    p = c.split('::')[-1]
    for ctor in C.ctors(c):
        w = C.where(ctor)
        ip = param(ctor, lambda t: t == pc or t.startswith(pc), 'part')
        iv = param(ctor, lambda t: t.startswith('std::shared_ptr') and vc in t or t == vc, 'values')
        I = C.interp()
        I.call(ctor['key'], this=('this',), cls=c)
        C.used(I, ctor)
        K = C.interp()
        V = ('deref', ('ldp', ('arg', iv), 0)) if strip(ctor['ps'][iv]['t']).startswith('std::shared_ptr') else ('arg', iv)
        PT = ('arg', ip)
        get = lambda cl, g, this: K.call(C.meth(cl, g, 0)['key'], this=this, cls=cl)
        facts, S, E, H, M = [], None, None, None, None
        if kind in 'OD':
            S, E = get(pc, 'getStart', PT), get(pc, 'getEnd', PT)
            facts += [cmp_('>=', S, ZERO, True), cmp_('<=', S, E, True)]
        if kind in 'HD':
            H = get(pc, 'getH', PT)
            md = K.call(C.meth(vc, 'getMetaData', 0)['key'], this=V, cls=vc)
            M = Meta(C, K, K.canon(md.loc))
            facts += [cmp_('>=', H, ZERO, True), cmp_('>=', M.leaves, ONE, True)]
        size = get(pc, 'getSize', PT)
        d = n - SELF[kind]
        dims = [get(vc, g, V) for g in (['getVsize'] if d == 1 else ['getI', 'getJ', 'getK'][:d])]
        cs = [A(('sym', ('c', i), 'xyz'[i])) for i in range(d)]
        for x, m in zip(cs, dims):
            facts += [cmp_('>=', x, ZERO, True), cmp_('<', x, m, True)]
        op = [f for f in C.meths(vc, 'operator()') if len(f['ps']) == n]
        if len(op) != 1:
            raise Anchor(vc + '::operator()')
        O = ('iv', 'qo', 'o')

        def val(h, o):
            a = {'O': cs + [o], 'H': [h] + cs, 'D': [h] + cs + [o]}[kind]
            return K.call(op[0]['key'], this=V, cls=vc, args=dict(enumerate(a)))

        def over(h, t):
            """sum over the part's instants of a term in instant O"""
            return mk_sum(O, S, E, t) if kind in 'OD' else t
        res = {}
        for g in ('getSum', 'getMean'):
            gf = C.meth(c, g, 0)
            v = I.call(gf['key'], cls=c)
            C.used(I, gf)
            gw = C.where(gf)
            oid = '%s.%s' % (p, g[3:].lower())
            if d == 0:
                t = v if is_poly(v) else None
            else:
                if not isinstance(v, LV):
                    C.und(oid, 'not modelled', gw)
                    continue
                base = I.canon(v.loc)
                loc = base
                for x, m, k in zip(cs, dims, range(d)):
                    if k == 0:
                        judge(C, I, '%s.size' % oid, I.load(('size', v.loc), 'int'), m, facts, '%s has one entry per series' % g, gw)
                    else:
                        innersize(C, I, '%s.size%d' % (oid, k), base, cs[:k], dims, m, facts, gw)
                t, rank = content(C, I, oid, base, cs, facts, w, g)
                if isinstance(t, tuple) and t and t[0] == 'part':
                    if hasunk(t[1]) or I.unknown:
                        C.und(oid, 'not every entry is modelled', w)
                    else:
                        C.bad(oid, 'an entry of %s gets its value only when %s' % (g, show(t[1])[:200]), w)
                    continue
            if t is None:
                if d and unfilled(C, I, base, d):
                    C.bad(oid, 'the entries of %s are never given a value' % g, w)
                else:
                    C.und(oid, 'value not modelled %s' % I.unknown[:1], w)
                continue
            res[g] = t
        t = res.get('getSum')
        regs = [('', [])] if kind == 'O' else [('.leaf', [cmp_('<', H, M.leaves, True)]), ('.inner', [cmp_('>=', H, M.leaves, True)])]
        # entries of the sum read back to compute the mean
        if 'getMean' in res and d:
            v = I.call(C.meth(c, 'getSum', 0)['key'], cls=c)
            base = I.canon(v.loc)
            mine = [x for x in nodes(res['getMean']) if x[0] == 'ld' and I.canon(x[1]) == chain(base, cs)]
            if mine and t is not None:
                res['getMean'] = substitute(res['getMean'], {x: t for x in mine})
            elif mine:
                C.und('%s.mean' % p, 'the sum it is computed from is not modelled', w)
                del res['getMean']
        for g in ('getSum', 'getMean'):
            if g not in res:
                continue
            oid = '%s.%s' % (p, g[3:].lower())
            recs = {}
            for nm, rf in regs:
                fs = facts + rf
                got = simp(I, res[g], fs)
                if kind == 'O':
                    wants = [over(None, val(None, A(O)))]
                elif nm == '.leaf':
                    wants = [over(H, val(H, A(O)))]
                else:
                    k = ('iv', 'qk', 'k')
                    last = sub(A(('ld', ('size', M.kids(H)), 0)), ONE)
                    child = A(('ld', ('idx', M.kids(H), A(k)), 0))
                    wants = [over(H, mk_sum(k, ZERO, last, val(child, A(O)))), mk_sum(k, ZERO, last, over(child, val(child, A(O))))]
                    fs = fs + [cmp_('>=', last, ZERO, True)]
                    got = simp(I, got, fs)
                # recursive helpers: what they yield for a leaf stands for what they yield below a node
                got = expand(C, I, kind, c, p, got, M, recs, fs, V)
                if got is None:
                    continue
                if g == 'getMean':
                    if kind in 'HD':
                        hs = size if kind == 'H' else get(pc, 'getHSize', PT)
                        got = subst_size(got, M, H, hs)
                    wants = [mul(x, inv(size)) for x in wants]
                for x in wants[1:]:
                    if eqt(I, alpha(pull(got)), alpha(pull(x)), fs):
                        wants[0] = x
                got, wants[0] = alpha(pull(got)), alpha(pull(wants[0]))
                judge(C, I, oid + nm, got, wants[0], fs, 'the %s of a part%s is %s exactly its own values' % (g[3:].lower(), {'': '', '.leaf': ' that is a leaf', '.inner': ' that is an inner node'}[nm], 'the sum of' if g == 'getSum' else 'the sum divided by the count of'), w)
        gp = C.meth(c, 'getPart', 0) if C.meths(c, 'getPart') else None
        if gp is not None:
            v = I.call(gp['key'], cls=c)
            for g in [x for x in ('getStart', 'getEnd', 'getH') if C.meths(pc, x)]:
                if not isinstance(v, LV):
                    C.und('%s.part' % p, 'part not modelled', C.where(gp))
                    break
                judge(C, I, '%s.part.%s' % (p, g), I.call(C.meth(pc, g, 0)['key'], this=v.loc, cls=pc), get(pc, g, PT), facts, 'the part is the one given', C.where(gp))


def pull(t):
    """factors that do not depend on the summation variable leave the sum"""
    from .r_quality import up
    from . import terms as TT

    def f(n):
        if n[0] != 'sum':
            return None
        p = n[4]
        if len(p[1]) != 1:
            return None
        m, c = p[1][0]
        out, rest = ONE, ONE
        for i, e in m:
            a = atom_of(i)
            x = A(a)
            for _ in range(e - 1):
                x = mul(x, A(a))
            if contains(A(a), lambda y: y == n[1]):
                rest = mul(rest, x)
            else:
                out = mul(out, x)
        if out == ONE and c == 1:
            return None
        return scale(mul(out, TT.mk_sum_raw(n[1], n[2], n[3], rest)), c)
    return up(t, f)


def subst_size(t, M, H, hs):
    """the metadata's size of the part's node is the part's own node size (C12)"""
    ats = [n for n in nodes(t) if n[0] == 'ld' and n[1][0] in ('at', 'idx') and n[1][1] == M.size and n[1][2] == H]
    return substitute(t, {n: hs for n in ats}) if ats else t


def unfilled(C, I, base, d):
    """nothing is ever stored as deep as the entries of a container (its rows are only created)"""
    if I.unknown:
        return False
    for e, l in flat(I.events):
        if e.kind == 'call':
            # an opaque callee that could store there (by name, or through an argument)
            name = base[2].rsplit('::', 1)[-1] if base[0] == 'fld' else None
            hit = [name is None]
            for k in {e.key} | set(C.P.reach(e.key)):
                f = C.P.functions.get(k)
                if f is not None:
                    each(f.get('b'), lambda n: hit.append(True) if n.get('k') == 'mem' and n.get('n') == name else None)
            if any(hit) or any(isinstance(a, tuple) and a and a[0] == 'ptr' and root(a[1]) == root(base) and a[1] != ('this',) for a in e.args or ()):
                return False
            continue
        if e.loc is None or getattr(e, 'promoted', False):
            continue
        ks = relkeys(base, I.canon(e.loc)) if e.loc[0] != 'size' else None
        if ks is None:
            continue
        if e.kind == 'push' and len(ks) < d - 1:
            v = e.val
            if isinstance(v, tuple) and v and v[0] == 'ptr' and not is_poly(v) and any(x.loc is not None and x is not e and v[1] in prefixes(x.loc) and x.kind != 'access' and not (x.kind == 'init' and x.val in (None, ZERO)) for x, _ in flat(I.events)):
                return False
            continue
        if e.kind in ('copy', 'copyobj') and isinstance(e.val, tuple) and e.val[0] == 'ptr' and I.canon(e.val[1]) == I.canon(base):
            continue
        if e.kind not in ('access', 'clear') and not (e.kind == 'init' and e.val is None and not ks):
            return False
    return True


def innersize(C, I, oid, base, cs, dims, m, facts, w):
    v = I.load(('size', chain(base, cs)), 'int')
    if is_poly(v) and not contains(v, lambda n: n[0] == 'ld' and n[1][0] == 'size' and root(n[1][1]) == root(base)) and not hasunk(v):
        judge(C, I, oid, v, m, facts, 'every row has one entry per series', w)
        return
    # rows: the number of entries stored in row cs
    evs = list(flat(I.events))
    rr = []
    ss = [s for s in gather(I, evs, base, rows_=rr) if s.keys is not None and len(s.keys) > len(cs)]
    rr = [s for s in rr if len(s.keys) == len(cs) + 1]
    if rr:
        ss = rr
    if not ss or any(hasunk(k) for s in ss for k in s.keys):
        C.und(oid, 'row sizes not modelled', w)
        return
    y = ('sym', ('c', 'z'), 'entry')
    reach = []
    for s in ss:
        so = solve(s.loops, s.keys[:len(cs) + 1], [single(x) for x in cs] + [y])
        if so is None:
            C.und(oid, 'row sizes not modelled', w)
            return
        reach.append(b_and(so[0], substitute(s.guard, so[1])) if not so[2] or True else None)
    good = b_and(cmp_('>=', A(y), ZERO, True), cmp_('<', A(y), m, True))
    fs = list(facts)
    if all(contains(x, lambda n: n[0] == 'iv') for x in reach):
        C.und(oid, 'row sizes not modelled', w)
        return
    reach = [x for x in reach if not contains(x, lambda n: n[0] == 'iv')]
    if any(I.entails(fs + list(conj(good)), x) for x in reach) and all(I.entails(fs + list(conj(x)), good) for x in reach):
        C.ok(oid, 'every row has one entry per series', w)
    elif I.unknown:
        C.und(oid, 'row sizes not modelled', w)
    else:
        C.bad(oid, 'row entries are filled for %s, required: one per series' % ' / '.join(show(x)[:150] for x in reach), w)


def expand(C, I, kind, c, p, got, M, recs, facts, V):
    for _ in range(4):
        cl = calls_of(got)
        if not cl:
            return got
        m = {}
        for a in cl:
            R = recs.get(a[1])
            if R is None:
                R = recs[a[1]] = recursion(C, I, kind, c, p, a, M, V)
            if R is False:
                return None
            args = list(a[2:])
            if len(args) == len(R.syms) + 1:
                args = args[1:]
            if len(args) != len(R.syms):
                C.und('%s.%s' % (p, a[1].split('::')[-1]), 'call of the recursive helper not modelled', None)
                return None
            sub_ = {single(s): x for s, x in zip(R.syms, args) if s is not None}
            m[a] = substitute(apart(R.leaf), sub_)
        got = substitute(got, m)
    return got


def recursion(C, I, kind, c, p, a, M, V):
    """R(node, ...) is the sum over the leaves below the node of what R yields for a leaf"""
    name = a[1].split('::')[-1]
    oid = '%s.%s' % (p, name)
    es = [e for e, l in flat(I.events) if e.kind == 'call' and e.q == a[1]]
    if not es:
        C.und(oid, 'recursive helper not found', None)
        return False
    R = Rec(C, I, es[0], c, None, M, oid)
    if not is_poly(R.r) or R.unk:
        C.und(oid, 'recursive helper not modelled %s' % R.unk[:1], R.w)
        return False
    # the node parameter: the one whose being a leaf decides
    for s in R.syms:
        if s is None:
            continue
        leaf, inner = cmp_('<', s, M.leaves, True), cmp_('>=', s, M.leaves, True)
        lows = [cmp_('>=', s, ZERO, True)]
        L = simp(I, R.r, lows + [leaf])
        if not calls_of(L):
            break
    else:
        s = None
    if s is None:
        L = simp(I, R.r, [])
        C.bad(oid + '.leaf', 'the recursion does not stop at the leaves: %s' % show(L)[:200], R.w) if not hasunk(L) else C.und(oid, 'recursion not modelled', R.w)
        return False
    R.leaf, R.node = L, s
    extra = [cmp_('>=', A(('ld', ('size', M.kids(s)), 0)), ONE, True)]
    N = simp(I, R.r, lows + [inner] + extra)
    k = ('iv', 'qk', 'k')
    last = sub(A(('ld', ('size', M.kids(s)), 0)), ONE)
    child = A(('ld', ('idx', M.kids(s), A(k)), 0))
    at = [x for x in calls_of(N)]
    off = 3 if a[2:] and len(a) - 2 == len(R.syms) + 1 else 2
    tmpl = list(a[:off]) + [None] * len(R.syms)
    for i, x in enumerate(R.syms):
        tmpl[off + i] = a[off + i] if x is None else child if x == s else x
    want = mk_sum(k, ZERO, last, A(tuple(tmpl)))
    judge(C, I, oid + '.inner', alpha(N), alpha(want), lows + [inner] + extra, 'below an inner node the values of every child are added once', R.w)
    return R


def aggregation(C, kind):
    an, gn, pn, qn, vn = KIND[kind]
    for n in DIMS[kind]:
        c, ac = C.cls('%sN%d' % (gn, n)), C.cls('%sN%d' % (an, n))
        _, pc, vc = setting(C, kind, n)
        p = c.split('::')[-1]
        qc = C.cls(qn)
        for ctor in C.ctors(c):
            w = C.where(ctor)
            ip = param(ctor, lambda t: t.startswith('std::shared_ptr') and qc in t, 'partition')
            iv = param(ctor, lambda t: t.startswith('std::shared_ptr') and vc in t, 'values')
            I = C.interp(opaque=[ac + '::' + ac.split('::')[-1]])
            I.call(ctor['key'], this=('this',), cls=c)
            C.used(I, ctor)
            K = C.interp()
            pl = K.call(C.meth(qc, 'getParts', 0)['key'], this=('deref', ('ldp', ('arg', ip), 0)), cls=qc)
            PL = K.canon(pl.loc)
            N = A(('ld', ('size', PL), 0))
            gf = C.meth(c, 'getAggregates', 0)
            v = I.call(gf['key'], cls=c)
            C.used(I, gf)
            if not isinstance(v, LV):
                C.und(p + '.count', 'aggregates not modelled', w)
                continue
            judge(C, I, p + '.count', I.load(('size', v.loc), 'int'), N, [], 'there is one aggregate per part', w)
            base = I.canon(v.loc)
            evs = list(flat(I.events))
            made = [(e, l) for e, l in evs if e.kind == 'call' and e.q == ac + '::' + ac.split('::')[-1]]
            put = []
            for e, l in evs:
                if e.kind == 'push' and I.canon(e.loc) == base:
                    put.append((e, l, e.at))
                elif e.loc is not None and e.kind in ('copyobj', 'write') and relkeys(base, I.canon(e.loc)):
                    put.append((e, l, relkeys(base, I.canon(e.loc))[0]))
            if len(put) != 1 or len(made) != 1 or len(put[0][1]) != 1 or made[0][1] != put[0][1]:
                C.und(p + '.order', 'aggregates are not stored by one statement per part', w)
                continue
            (e, l, at), (m, ml) = put[0], made[0]
            t = ('sym', 't', 't')
            so = solve(l, [at], [t])
            if so is None or not isinstance(e.val, tuple) or e.val[0] != 'ptr' or m.obj != e.val:
                C.und(p + '.order', 'aggregates are not modelled', C.evwhere(e))
                continue
            fs = [cmp_('>=', A(t), ZERO, True), cmp_('<', A(t), N, True)]
            cond = b_and(so[0], substitute(b_and(e.guard, m.guard), so[1]))
            if not I.entails(fs, cond):
                (C.und if hasunk(cond) or I.unknown else C.bad)(p + '.every', 'a part gets its aggregate only when %s' % show(cond)[:200], C.evwhere(e))
                continue
            C.ok(p + '.every', 'every part gets its aggregate', C.evwhere(e))
            cf = C.P.functions[m.key]
            jp = param(cf, lambda x: x == pc or x.startswith(pc), 'part')
            jv = param(cf, lambda x: x.startswith('std::shared_ptr') and vc in x or x == vc, 'values')
            a = m.args[jp]
            want = ('idx', PL, A(t))
            for g in [x for x in ('getStart', 'getEnd', 'getH') if C.meths(pc, x)]:
                f = C.meth(pc, g, 0)
                if not (isinstance(a, tuple) and a and a[0] == 'ptr'):
                    C.und(p + '.order', 'part handed over not modelled', C.evwhere(m))
                    break
                x = argpart(I, C, m, jp, f, pc)
                x = substitute(x, so[1]) if isinstance(x, tuple) else x
                judge(C, I, '%s.order.%s' % (p, g), x, K.call(f['key'], this=want, cls=pc), fs, 'the aggregates are those of the parts, in part order', C.evwhere(m))
            b = m.args[jv]
            if b == ('ldp', ('arg', iv), 0):
                C.ok(p + '.values', 'aggregates are computed from the values given', C.evwhere(m))
            else:
                C.und(p + '.values', 'values handed over not modelled: %s' % (b,), C.evwhere(m))


def argpart(I, C, m, jp, f, pc):
    """what a getter of the part handed over yields"""
    comps = m.acomps.get(jp) or {}
    K = C.interp()
    v = K.call(f['key'], this=('arg', 'part'), cls=pc)
    for n in nodes(v):
        if n[0] == 'ld' and n[1][0] == 'fld' and n[1][1] == ('arg', 'part') and n[1][2] in comps:
            v = substitute(v, {n: comps[n[1][2]]})
    return v


def rule_o(C):
    """ordered aggregates: closed form of sums and means"""
    rule(C, 'O')


def rule_h(C):
    """hierarchical aggregates: recursion over the leaves, means"""
    rule(C, 'H')


def rule_d(C):
    """spatiotemporal aggregates: recursion over the leaves at every instant, means"""
    rule(C, 'D')


def rule_lists(C):
    """one aggregate per part, in part order"""
    for k in KIND:
        aggregation(C, k)


RULES = {'C19': [rule_o, rule_h, rule_d, rule_lists]}
