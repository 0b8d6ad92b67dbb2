"""C09 C10 C11: the best partition is the optimum of the recursive trade-off, split only where strictly better."""
from fractions import Fraction
from .core import *
from .r_part import Meta, jd, param, isqual

SYM = lambda n: A(('sym', n, n))
K, HS_, PAR, II, JJ = ('sym', 'K', 'k'), ('sym', 'H', 'h'), ('sym', 'PAR', 'parent'), ('sym', 'I', 'i'), ('sym', 'J', 'j')


def unver(t):
    def f(n):
        if n[0] == 'ld' and len(n) > 2 and n[2] != 0:
            return A(('ld', n[1], 0))
        if n[0] == 'ldp' and len(n) > 2 and n[2] != 0:
            return ('ldp', n[1], 0)
        if n[0] == 'bat' and is_poly(n[1]):
            return ('bat', single(n[1]))
        return None
    return rewrite(t, f) if isinstance(t, tuple) else t


def keyseq(loc):
    """(root, indices from the outside in) of a location reached through containers and pointers"""
    h = loc[0]
    if h in ('idx', 'at'):
        r, k = keyseq(loc[1])
        return r, k + [loc[2]]
    if h == 'cell':
        r, k = keyseq(loc[1])
        return r, k + [loc[2], loc[3]]
    if h == 'deref' and loc[1][0] == 'ldp':
        return keyseq(loc[1][1])
    return loc, []


def solve(loops, keys, syms):
    """(constraint, {iv: poly}, free loops) for keys(ivs) = syms; None when not linear"""
    ivs, cons = [], []
    for L in loops:
        if L.lo is None or L.hi is None or L.ivatom is None:
            return None
        iv = L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)
        ivs.append(iv)
        cons += [cmp_('>=', A(iv), L.lo, True), cmp_('<=', A(iv), L.hi, True), *conj(L.guard)]
    eqs = [sub(k, A(s)) for k, s in zip(keys, syms)]
    sol, left = {}, list(ivs)
    for _ in range(len(eqs)):
        for e in list(eqs):
            e2 = substitute(e, sol)
            hit = None
            for v in left:
                r0 = substitute(e2, {v: ZERO})
                c = const(sub(substitute(e2, {v: ONE}), r0))
                if c is None or contains(r0, lambda n: n == v):
                    return None
                if c in (1, -1) and not any(contains(r0, lambda n, w=w: n == w) for w in left):
                    hit = (v, scale(r0, -1 / c))
            if hit:
                sol[hit[0]] = hit[1]
                sol = {k: substitute(x, {hit[0]: hit[1]}) for k, x in sol.items()}
                left.remove(hit[0])
                eqs.remove(e)
                break
    cs = [substitute(c, sol) for c in cons]
    for e in eqs:
        e2 = substitute(e, sol)
        if any(contains(e2, lambda n, w=w: n == w) for w in left):
            return None
        cs.append(cmp_('==', e2, ZERO, True))
    return b_and(*cs), sol, [L for L in loops if (L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)) in left]


class Store:
    """one assignment to a container that takes part in the recurrence"""
    def __init__(s, e, loops, root, keys, unit, n):
        s.e, s.loops, s.root, s.keys, s.unit, s.n = e, loops, root, keys, unit, n
        s.val, s.guard = unver(e.val), unver(e.guard)


class DP:
    def __init__(s, C, p, axioms):
        s.C, s.p = C, p
        s.c = C.cls(p + 'Partitioner')
        s.pc = C.cls(p + 'Partition')
        s.f = C.meth(s.c, 'computeBestPartition', 1)
        s.w = C.where(s.f)
        s.fields = {}
        for c in [s.c] + C.P.bases(s.c):
            for x in C.P.records.get(c, {}).get('fields', []):
                s.fields[x['n']] = (c, strip(x['t']))
        def one(pred, what):
            r = [(c, n) for n, (c, t) in s.fields.items() if pred(t)]
            if len(r) != 1:
                raise Undecided('%s of %s' % (what, s.c))
            return ('fld', ('this',), r[0][0] + '::' + r[0][1])
        s.qf = one(isqual_, 'qualities')
        J = C.interp(('utm', 'tradeoff'))
        J.thisloc, J.thiscls = ('this',), s.c
        s.M = Meta(C, J, one(lambda t: t == NS + 'HValuesMetaData', 'metadata')) if p != 'O' else None
        s.Q = ('deref', ('ldp', s.qf, 0))
        if p == 'O':
            s.dim = A(('ld', ('dim', s.Q), 0))
        elif p == 'D':
            s.dim = A(('ld', ('dim', ('deref', ('ldp', ('idx', s.Q, ZERO), 0))), 0))
        s.ax = axioms(s)
        s.I = C.interp(('utm', 'tradeoff'), opaque=[g['key'] for g in C.ctors(s.pc)], axioms=lambda seen: s.ax)
        s.ret = s.I.call(s.f['key'], cls=s.c)
        C.used(s.I, s.f)
        for L in loops_of(s.I.events):
            if getattr(L, 'problem', None):
                s.stopped(L)
                raise Undecided('loop at %s: %s' % (L.where(), L.problem))
        s.evs = list(flat(s.I.events))
        s.par = A(('sym', 0, s.f['ps'][0]['n'] or 'arg0'))

    def stopped(s, L):
        """an enumeration that records candidates is ended by what has been recorded so far"""
        roots = set()
        for e, _ in flat(L.body):
            if e.kind == 'write' and e.loc is not None:
                r, ks = keyseq(e.loc)
                if ks and r[0] in ('var', 'tmp'):
                    roots.add(r)
        def recorded(loc):
            r, ks = keyseq(loc)
            return bool(ks) and r in roots

        def follows(m):
            # a variable whose next value depends on what has been recorded
            nx = next((v[1] for k, v in L.carried.items() if tuple(k[:2]) == tuple(m[:2])), None)
            return nx is not None and contains(nx, lambda n: n[0] == 'ld' and recorded(n[1]) or n[0] == 'in' and n[2][0] == 'loc' and recorded(n[2][1]))
        for x in L.exits:
            c = x.get('cond') if isinstance(x, dict) else next((y for y in x if is_bool(y)), None)
            if c is None or x.get('kind') not in ('head', 'break') or contains(c, lambda n: n[0] in UNK and n[0] != 'in'):
                continue
            own = [n for n in nodes(unver(c)) if n[0] == 'ld' and recorded(n[1]) or n[0] == 'in' and n[2][0] == 'loc' and recorded(n[2][1]) or n[0] == 'in' and n[2][0] == 'v' and follows(n[2])]
            if own and L.hi is not None:
                s.C.bad('search.%s' % s.p, 'the enumeration from %s to %s ends as soon as %s: later candidates are never compared' % (show(L.lo), show(L.hi), show(unver(c))), L.where() if ':' in str(L.where()) else s.w)

    def q(s, *k):
        l = s.Q
        if s.p != 'O':
            l = ('idx', l, k[0])
            k = k[1:]
            if s.p == 'D':
                l = ('deref', ('ldp', l, 0))
        if k:
            l = ('cell', l, k[0], k[1])
        return ('ldp', l, 0)

    def T(s, *k):
        return fn('T', s.q(*k), s.par)


def isqual_(t):
    return t.startswith('std::shared_ptr') and 'lpaggreg::Quality' in t


def loops_of(evs):
    for e in evs:
        if isinstance(e, Loop):
            yield e
            yield from loops_of(e.body)


def collect(d):
    """stores by container, and the containers' roles"""
    out = {}
    tops = {}
    n = 0
    for u, top in enumerate(d.I.events):
        for e, l in flat([top]):
            n += 1
            if e.kind == 'write' and not e.promoted and e.loc is not None:
                r, ks = keyseq(e.loc)
                if ks and r[0] in ('var', 'tmp'):
                    if element(e.val) and r not in out and len(l) <= 1:
                        # the container is filled with fresh elements before anything is stored in them
                        continue
                    out.setdefault(r, []).append(Store(e, l, r, [unver(k) for k in ks], u, n))
    return out


def element(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr' and v[1][:1] == ('new',)


def passed(d, oid):
    """what the returned partition is built from"""
    C, I = d.C, d.I
    cs = [(e, l) for e, l in d.evs if e.kind == 'call' and e.q.rsplit('::', 1)[-1] == d.p + 'Partition' and feasible(list(conj(e.guard)) + d.ax)]
    r = simp(I, d.ret, d.ax)
    if len(cs) > 1 and len([x for x in cs if x[0].obj == r]) == 1:
        cs = [x for x in cs if x[0].obj == r]
    if len(cs) != 1 or cs[0][1]:
        C.und(oid, '%d partitions are built' % len(cs), d.w)
        return None
    e = cs[0][0]
    ctor = C.P.functions[e.key]
    w = C.evwhere(e)
    r = simp(I, d.ret, d.ax)
    if r == e.obj:
        C.ok(oid + '.return', 'the partition built is returned', w)
    elif hasunk(r) or not isinstance(r, tuple):
        C.und(oid + '.return', 'returned value', w)
    else:
        C.bad(oid + '.return', 'the function does not return the partition it built', w)
    iq = param(C, ctor, isqual)
    jd(C, I, oid + '.qualities', unver(e.args[iq]), ('ldp', d.qf, 0), 'the partition is built on the partitioner\'s qualities', w)
    ip = [i for i, p in enumerate(ctor['ps']) if strip(p['t']) in ('float', 'double', 'long double')]
    if len(ip) == 1:
        jd(C, I, oid + '.parameter', e.args[ip[0]], d.par, 'the partition is labelled with the parameter it is best for', w)
    if d.M:
        im = param(C, ctor, lambda t: t == NS + 'HValuesMetaData')
        a = e.args[im]
        if isinstance(a, tuple) and a[0] == 'ptr':
            M2 = Meta(C, I, a[1])
            jd(C, I, oid + '.metadata', unver(M2.root), unver(d.M.root), 'the partition is built on the partitioner\'s hierarchy', w)
    rest = [i for i in range(len(ctor['ps'])) if i not in (iq,) and i not in ip and not (d.M and i == im)]
    if len(rest) != 1:
        C.und(oid + '.cuts', 'constructor parameters', w)
        return None
    a = e.args[rest[0]]
    if not (isinstance(a, tuple) and a[0] == 'ptr'):
        C.und(oid + '.cuts', 'cut argument not modelled', w)
        return None
    return I.canon(a[1]), e


class Net:
    """final content of one cell (of the node/interval under consideration) after all stores"""
    def __init__(s):
        s.v, s.last, s.stores = None, None, []


def closed(c):
    """a quantified condition over values that are not themselves conditional is an atom"""
    b = c[1] if c[0] == 'not' else c
    return ('T',) if b[0] == 'forall' and not contains(b[2:], lambda x: x[0] in ('ite', 'best', 'bestarg', 'in', 'fin', 'unk', 'forall')) else c


def leaves(I, v, facts, depth=0):
    """split a term on the conditionals that do not depend on bound variables: (facts, term)"""
    v = simp(I, v, facts)
    cs = [n[1] for n in nodes(v) if n[0] == 'ite' and not contains(closed(n[1]), lambda x: x[0] in ('bv', 'sum', 'forall', 'best', 'bestarg', 'in', 'fin', 'unk'))]
    if not cs or depth > 6:
        yield facts, v
        return
    c = min(cs, key=lambda x: len(repr(x)))
    for f in (c, b_not(c)):
        fs = list(facts) + list(conj(f))
        if feasible(fs + I.typefacts(fs)):
            yield from leaves(I, v, fs, depth + 1)


def cmpbest(d, oid, what, v, facts, init, lo, hi, body, w, arg=None):
    """is v the strict running maximum starting from init over lo..hi of body(t)?  arg: (initial argument) when v is the choice made"""
    C, I = d.C, d.I
    t = A(('sym', 'T0', 't'))
    kind = 'best' if arg is None else 'bestarg'
    good = True
    for fs, x in leaves(I, v, facts):
        a = single(x)
        if a is None or a[0] != kind:
            if I.entails(fs, cmp_('>', lo, hi, True)):
                good &= judge(C, I, oid + '.init', x, arg if arg is not None else init, fs, what + ' where nothing can be cut', w)
            elif contains(x, lambda n: n[0] == kind) or hasunk(x) or I.unknown:
                C.und(oid, what + ': not modelled', w)
                good = False
            else:
                C.bad(oid, '%s: the code yields %s, not the best over all cut positions' % (what, show(x)[:300]), w)
                good = False
            continue
        if kind == 'best':
            _, op, v0, bv, l2, h2, g, dr = a
            ai = None
        else:
            _, op, ai, v0, bv, l2, h2, g, ar, dr = a
        g = substitute(g, {bv: t})
        if isinstance(op, tuple) and op[0] == 'only':
            flt = substitute(op[2], {bv: t})
            op = op[1]
            rf = fs + [cmp_('>=', t, lo, True), cmp_('<=', t, hi, True)]
            if I.entails(rf, flt):
                pass
            elif hasunk(flt) or I.unknown:
                C.und(oid + '.all', what + ': candidates passed over under a condition that is not modelled', w)
                good = False
            else:
                C.bad(oid + '.all', '%s: a cut at t is considered only where %s' % (what, show(flt)[:300]), w)
                good = False
        if isinstance(op, tuple) and op[0] == 'ties':
            C.bad(oid + '.strict', '%s: some candidates replace an equally good choice: %s' % (what, show(op[2])[:200]), w)
            good = False
        elif op != '>':
            C.bad(oid + '.strict', '%s: a candidate replaces the current choice when it is %s, required: strictly better' % (what, {'>=': 'at least as good', '<': 'worse', '<=': 'not better'}.get(op, op)), w)
            good = False
        else:
            C.ok(oid + '.strict', what + ': replaced only by a strictly better candidate', w)
        good &= judge(C, I, oid + '.init', v0, init, fs, what + ': initial candidate', w)
        good &= judge(C, I, oid + '.first', l2, lo, fs, what + ': first cut position', w)
        good &= judge(C, I, oid + '.lastcut', h2, hi, fs, what + ': last cut position', w)
        good &= judge(C, I, oid + '.candidate', unver(g), body(t), fs + [cmp_('>=', t, lo, True), cmp_('<=', t, hi, True)], what + ': value of the candidate cut at t', w)
        if kind == 'bestarg':
            good &= judge(C, I, oid + '.arg0', ai, arg, fs, what + ': choice recorded without a better candidate', w)
            good &= judge(C, I, oid + '.arg', substitute(ar, {bv: t}), t, fs, what + ': choice recorded for a cut at t', w)
    return good


# sample trade-offs (value, gain, loss) of parameter 1/2: value = (gain - loss) / 2
EPS = [Fraction(0), Fraction(1, 10 ** 30), Fraction(1, 10 ** 13), Fraction(1, 10 ** 7), Fraction(1), Fraction(1000)]
SAMPLES = [(v, g, g - 2 * v) for e in EPS for v in ((e, -e) if e else (e,)) for g in (Fraction(5000), Fraction(5001))]


def trval(t, env):
    """trade-off triple of a sum of trade-offs, or a number; None when unknown"""
    if not is_poly(t):
        return None
    tot = None
    num_ = Fraction(0)
    for m, c in t[1]:
        if not m:
            num_ += c
            continue
        x = env.get(atom_of(m[0][0])) if len(m) == 1 and m[0][1] == 1 else None
        if x is None:
            a = atom_of(m[0][0])
            if len(m) == 1 and m[0][1] == 1 and a[0] == 'fn' and a[1] == 'val' and len(a) == 3:
                y = trval(a[2], env)
                if isinstance(y, tuple):
                    num_ += c * y[0]
                    continue
            return None
        tot = tuple(c * y + (z if tot is not None else 0) for y, z in zip(x, tot or x))
    if tot is not None:
        return None if num_ else tot
    return num_


def trcond(c, env):
    """truth of a condition over trade-offs; None when it depends on something else"""
    h = c[0]
    if h in 'TF':
        return h == 'T'
    if h == 'not':
        x = trcond(c[1], env)
        return None if x is None else not x
    if h in ('and', 'or'):
        xs = [trcond(x, env) for x in c[1]]
        stop = h == 'or'
        return stop if stop in xs else None if None in xs else not stop
    if h == 'cmp':
        x = trval(c[2], env)
        if x is None:
            return None
        if isinstance(x, tuple):
            x = next((y for y in (x[0], x[1], -x[2]) if y), Fraction(0))
        return x > 0 if c[1].endswith('>') else x >= 0 if c[1].endswith('>=') else x == 0
    return None


def adoption(d, oid):
    """a running choice takes over a candidate exactly when the candidate is strictly better (trade-off order)"""
    C, I = d.C, d.I
    seen = False
    for L in loops_of(I.events):
        for m, (v0, ve, fin, form) in L.carried.items():
            if m[0] != 'loc' or not is_poly(ve):
                continue
            cur = A(('in', L.id, m[:2]))
            for c, a, b in as_cond(ve):
                if b != cur or contains(a, lambda n: n[0] == 'in') or not contains(a, lambda n: n[0] == 'fn' and n[1] == 'T' or n[0] == 'ld'):
                    continue
                if not contains(c, lambda n: n == single(cur)):
                    continue
                parts = [single(A(atom_of(i))) for i in atoms(a)]
                if not all(x[0] in ('fn', 'ld') for x in parts) or len(parts) > 6:
                    continue
                bad = None
                for x in SAMPLES:
                    for y in SAMPLES:
                        env = {q: (Fraction(0),) * 3 for q in parts}
                        k = a[1][0][1]
                        env[atom_of(a[1][0][0][0][0])] = tuple(z / k for z in y)
                        env[single(cur)] = x
                        r = trcond(c, env)
                        if r is None:
                            bad = 'unknown'
                            break
                        if r != (y > x if y[0] != x[0] or y[1] != x[1] else y[2] < x[2]):
                            bad = (x, y, r)
                            break
                    if bad:
                        break
                w = L.where() if ':' in str(L.where()) else d.w
                if bad is None:
                    seen = True
                    C.ok(oid + '.adopt', 'a candidate is adopted exactly where it is strictly better', w)
                elif bad != 'unknown':
                    seen = True
                    x, y, r = bad
                    C.bad(oid + '.adopt', 'a candidate of (value, gain, loss) = (%s) %s the current choice of (%s): adopted only if %s' % (
                        ', '.join('%g' % z for z in y), 'replaces' if r else 'does not replace', ', '.join('%g' % z for z in x), show(c)[:300]), w)
    return seen


def rule_ordered(C):
    """ordered: V(i) = max(T(i..n-1), max_t T(i..t)+V(t+1)), strict, from the last element backwards; cut(i) its argument"""
    d = DP(C, 'O', lambda s: [cmp_('>=', s.dim, ONE, True)])
    I, n = d.I, d.dim
    pa = passed(d, 'O.built')
    adoption(d, 'O')
    if not pa:
        return
    cut, ce = pa
    cl = A(II)
    region = [cmp_('>=', cl, ZERO, True), cmp_('<', cl, n, True), cmp_('>=', n, ONE, True)]
    st = collect(d)
    vroot = [r for r, ss in st.items() if r != cut and any(contains(s.val, lambda x: x[0] == 'fn' and x[1] == 'T') for s in ss)]
    if len(vroot) != 1 or cut not in st:
        if not vroot and cut not in st and not I.unknown:
            C.bad('O.recurrence', 'no cut is ever recorded', d.w)
        else:
            C.und('O.recurrence', 'value and cut containers not identified', d.w)
        return
    V = vroot[0]
    nets = {}
    for r in (V, cut):
        nets[r] = net(d, 'O', st[r], [II], region, r, C, initval(d, r, [cl]))
        if nets[r] is None:
            return
    vl = lambda i: vload(st[V], [i])
    w = C.evwhere(nets[V].last.e)
    body = lambda t: add(d.T(cl, t), vl(add(t, ONE)))
    cmpbest(d, 'O.value', 'best value from element i on', nets[V].v, region, d.T(cl, sub(n, ONE)), cl, sub(n, num(2)), body, w)
    cmpbest(d, 'O.cut', 'end of the first part from element i on', nets[cut].v, region, d.T(cl, sub(n, ONE)), cl, sub(n, num(2)), body, C.evwhere(nets[cut].last.e), arg=sub(n, ONE))
    order(d, 'O', [s for r in (V, cut) for s in nets[r].stores], V, [II], nets[V], region)


def vload(stores, keys):
    """the load of a cell of the container the stores write"""
    loc = stores[0].e.loc
    return A(('ld', rekey(unver(loc), list(keys)), 0))


def rekey(loc, keys):
    """the same location with other indices (given from the outside in)"""
    h = loc[0]
    if h in ('idx', 'at'):
        k = keys.pop()
        return (h, rekey(loc[1], keys), k)
    if h == 'cell':
        j = keys.pop()
        i = keys.pop()
        return (h, rekey(loc[1], keys), i, j)
    if h == 'deref' and loc[1][0] == 'ldp':
        return (h, ('ldp', rekey(loc[1][1], keys), 0))
    return loc


def initval(d, r, keys):
    """content of a cell before any store: the container's initial value"""
    I = d.I
    v = None
    for e, l in d.evs:
        if e.kind == 'init' and e.loc == r and not l:
            v = e.val
        if e.kind == 'write' and not e.promoted and e.loc is not None and element(e.val) and keyseq(e.loc)[0] == r and len(l) == 1 and e.loc[0] in ('idx', 'at') and e.loc[1] == r:
            v = e.val
        if e.kind == 'push' and e.loc == r and not contains(e.val, lambda n: n[0] in ('iv',)) and l:
            v = e.val
    return v


def net(d, p, stores, syms, region, r, C, init, keymap=None, facts=None):
    """compose the stores that hit the cell named by syms"""
    I = d.I
    N = Net()
    N.v = init if isinstance(init, tuple) and (is_poly(init) or is_bool(init)) else None
    N.init = init
    own = None
    for s in stores:
        keys = s.keys if keymap is None else keymap(s)
        if keys is None:
            continue
        so = solve(s.loops, keys, syms)
        if so is None:
            C.und(p + '.stores', 'store at %s not linear in the loop variables' % C.evwhere(s.e), C.evwhere(s.e))
            return None
        cond, sol, free = so
        cond = b_and(cond, substitute(s.guard, sol))
        if not feasible(list(conj(cond)) + region + d.ax):
            continue
        v = substitute(s.val, sol)
        cond = simp(I, cond, region)
        me = unver(s.e.loc)
        ownload = ('ld', substitute(rekey(me, list(keys)), sol), 0)
        if free:
            if v == A(ownload):
                continue
            if hasunk(v) or hasunk(cond):
                C.und(p + '.stores', 'store at %s repeated in a loop' % C.evwhere(s.e), C.evwhere(s.e))
            else:
                C.bad(p + '.overwritten', 'the best value already found for this area is overwritten with %s while other areas are handled' % show(v)[:200], C.evwhere(s.e))
            return None
        prev = N.v
        if contains(v, lambda n: n == ownload) and prev is not None:
            v = substitute(v, {ownload: prev}) if is_poly(prev) else v
        if I.entails(region, cond):
            N.v = v
        elif prev is None:
            N.v = None
        elif is_poly(v) and is_poly(prev):
            N.v = ite(cond, v, prev)
        elif is_bool(v) and is_bool(prev):
            N.v = b_or(b_and(cond, v), b_and(b_not(cond), prev))
        else:
            N.v = None
        s.cond, s.sol, s.kk = cond, sol, keys
        N.stores.append(s)
        N.last = s
    if N.v is None or not N.stores:
        C.und(p + '.stores', 'no modelled value is stored', d.w)
        return None
    return N


def order(d, p, stores, V, syms, NV, region):
    """every value read has been finished before: earlier statement, or earlier in the nest by the loops' directions"""
    C, I = d.C, d.I
    fin = NV.stores
    for s in stores:
        w = C.evwhere(s.e)
        for a in nodes(s.val):
            if a[0] != 'ld' or keyseq(a[1])[0] != V:
                continue
            rk = keyseq(a[1])[1]
            if rk == s.keys and s.root == V:
                continue
            check_order(d, p, s, rk, fin, region, w)


def before(I, s, f, rk, facts):
    """is the iteration of store f that writes the cell rk earlier than the current iteration of s (common loops, their directions)?"""
    common = []
    for a, b in zip(s.loops, f.loops):
        if a is not b:
            break
        common.append(a)
    syms = [('sym', 'R%d' % i, 'r%d' % i) for i in range(len(rk))]
    fk = f.keys
    if hasattr(f, 'pos'):
        if f.pos[0] not in ('own', 'direct'):
            return None
        kind, e = position(f.d, rk[0], facts)
        if kind != f.pos[0]:
            return None
        rk, fk = [e] + list(rk[1:]), [f.pos[1]] + f.keys[1:]
    so = solve(f.loops, fk, syms)
    if so is None:
        return None
    back = dict(zip(syms, rk))
    for L in common:
        iv = L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)
        if iv not in so[1]:
            return None
        there = substitute(so[1][iv], back)
        df = sub(there, A(iv))
        if df == ZERO:
            continue
        if I.entails(facts, cmp_('==', df, ZERO, True)):
            continue
        c = cmp_('<', df, ZERO, True) if L.dir > 0 else cmp_('>', df, ZERO, True)
        if I.entails(facts, c):
            return True
        return False
    return f.n < s.n


def check_order(d, p, s, rk, fin, region, w):
    C, I = d.C, d.I
    facts = list(region_facts(I, s)) + bvfacts(s.val)
    res = True
    for f in fin:
        if f.unit < s.unit:
            continue
        b = False if f.unit > s.unit else before(I, s, f, rk, facts)
        if b is not True:
            res = b
            break
    if res is True:
        C.ok(p + '.order', 'value of %s is finished before it is used' % ','.join(show(k)[-40:] for k in rk), w)
    elif res is None:
        C.und(p + '.order', 'order of use and computation', w)
    else:
        C.bad(p + '.order', 'the value of %s is used before it has been computed' % ', '.join(show(k)[-60:] for k in rk), w)


def region_facts(I, s):
    out = []
    for L in s.loops:
        iv = A(L.ivatom) if not is_poly(L.ivatom) else L.ivatom
        if L.lo is not None and L.hi is not None:
            out += [cmp_('>=', iv, L.lo, True), cmp_('<=', iv, L.hi, True)]
    return out + list(conj(s.guard))


def bvfacts(v):
    out = []
    for n in nodes(v):
        if n[0] == 'best':
            out += [cmp_('>=', A(n[3]), n[4], True), cmp_('<=', A(n[3]), n[5], True)]
        elif n[0] == 'bestarg':
            out += [cmp_('>=', A(n[4]), n[5], True), cmp_('<=', A(n[4]), n[6], True)]
        elif n[0] == 'sum':
            out += [cmp_('>=', A(n[1]), n[2], True), cmp_('<=', A(n[1]), n[3], True)]
    return out


# ------------------------------------------------------------------ hierarchies
def regions_of(M):
    """(name, facts on the position K along the path, facts on the sizes)"""
    k, n, l = A(K), M.nodes, M.leaves
    ge, le, eq = (lambda a, b: cmp_('>=', a, b, True)), (lambda a, b: cmp_('<=', a, b, True)), (lambda a, b: cmp_('==', a, b, True))
    big = [ge(n, num(2)), ge(l, ONE), le(l, sub(n, ONE))]
    one = [eq(n, ONE), eq(l, ONE)]
    return [('leaf', big, [ge(k, ZERO), le(k, sub(l, ONE))]),
            ('inner node', big, [ge(k, l), le(k, sub(n, num(2)))]),
            ('root', big, [eq(k, sub(n, ONE))]),
            ('single node', one, [eq(k, ZERO)])]


def position(d, h, facts):
    """position along the path of node expression h: ('own'|'parent'|'direct', polynomial)"""
    M, I = d.M, d.I
    h = simp(I, h, facts)
    a = single(h)
    if a is not None and a[0] == 'ld' and a[1][0] == 'idx':
        if I.canon(a[1][1]) == M.path or a[1][1] == M.path:
            return 'own', a[1][2]
        if a[1][1] == M.parents:
            k, e = position(d, a[1][2], facts)
            return ('parent', e) if k == 'own' else ('dparent', e) if k == 'direct' else (None, None)
    if h == M.root:
        return 'own', sub(M.nodes, ONE)
    if a is not None and a[0] in ('ld', 'unk', 'fin', 'in') or h is None:
        return None, None
    if contains(h, lambda n: n[0] in ('ld',) and n[1][0] == 'idx'):
        return None, None
    return 'direct', h


def bypos(d, s):
    """the store, once per case of the conditional that selects its node"""
    r = []
    for fs, h in leaves(d.I, s.keys[0], d.ax):
        x = s
        if fs != d.ax:
            x = Store(s.e, s.loops, s.root, [h] + s.keys[1:], s.unit, s.n)
            x.guard = b_and(s.guard, *fs[len(d.ax):])
        x.pos = position(d, h, fs)
        x.d = d
        r.append(x)
    return r


def rule_hier(C):
    """hierarchical: V(node) = max(T(node), sum of V over its children), split only where the children are strictly better"""
    hierarchy(C, 'H')


def rule_spatio(C):
    """spatiotemporal: V(node,i,j) = max(T, sum over children, every binary cut in time), strict, children before parents, short before long"""
    hierarchy(C, 'D')


def hierarchy(C, p):
    for name, sizes, kf in regions_of_names():
        def ax(s, name=name):
            for nm, sz, k in regions_of(s.M):
                if nm == name:
                    e = list(sz)
                    if p == 'D':
                        e.append(cmp_('>=', s.dim, ONE, True))
                    return e
        d = DP(C, p, ax)
        kfacts = [x for x in regions_of(d.M) if x[0] == name][0][2]
        node_region(C, p, d, name, kfacts)


def regions_of_names():
    return [('leaf', 0, 0), ('inner node', 0, 0), ('root', 0, 0), ('single node', 0, 0)]


def node_facts(M, name):
    """the node at path position K, or H: the root is the node without parent"""
    out = []
    top = name in ('root', 'single node')
    for x in [A(('ld', ('idx', M.path, A(K)), 0)), A(HS_)]:
        out.append(cmp_('==' if top else '!=', x, M.root, True))
    par = [A(PAR)] + [A(('ld', ('idx', M.parents, x), 0)) for x in [A(('ld', ('idx', M.path, A(K)), 0)), A(HS_)] + ([M.root] if top else []) + ([A(K)] if name == 'leaf' else [])]
    for x in par:
        out.append(cmp_('==', x, num(-1), True) if top else cmp_('>=', x, ZERO, True))
    return out


def node_region(C, p, d, name, kfacts):
    I, M = d.I, d.M
    oid = '%s.%s' % (p, name.replace(' ', ''))
    pa = passed(d, oid + '.built')
    adoption(d, oid)
    if not pa:
        return
    choice, ce = pa
    st = collect(d)
    facts = list(d.ax) + kfacts
    ij = [II, JJ] if p == 'D' else []
    if p == 'D':
        facts += [cmp_('>=', A(II), ZERO, True), cmp_('<=', A(II), A(JJ), True), cmp_('<=', A(JJ), sub(d.dim, ONE), True)]
    # roles
    own, par = {}, {}
    for r, ss in st.items():
        ss[:] = [x for s in ss for x in bypos(d, s)]
        for s in ss:
            k, e = s.pos
            if k in ('own', 'direct'):
                own.setdefault(r, []).append(s)
            elif k in ('parent', 'dparent'):
                par.setdefault(r, []).append(s)
    H = A(HS_)
    facts += node_facts(M, name)
    Vs = [r for r, ss in own.items() if r != choice and any(contains(s.val, lambda x: x[0] == 'fn' and x[1] == 'T') for s in ss)]
    CHs = list(par)
    if any(s.pos[0] is None for ss in st.values() for s in ss) or len(Vs) > 1 or len(CHs) > 1:
        C.und(oid + '.roles', 'value containers not identified', d.w)
        return
    if name == 'single node':
        chroot = None
    V = Vs[0] if Vs else None
    CH = CHs[0] if CHs else None
    nsym = {}

    def keymap(kinds):
        def f(s):
            if s.pos[0] not in kinds:
                return None
            return [s.pos[1]] + s.keys[1:]
        return f
    syms = [K] + ij

    def named(N, direct):
        """name the node: path[K] -> H, its parent -> PAR"""
        def ispos(n):
            return n[0] == 'ld' and n[1][0] == 'idx' and n[1][1] == M.path and (n[1][2] == A(K) or I.entails(facts, cmp_('==', n[1][2], A(K), True)))
        t = rewrite(N, lambda n: H if ispos(n) else None)
        if direct:
            t = rewrite(t, lambda n: H if n == K else None)
        if name in ('root', 'single node'):
            t = rewrite(t, lambda n: H if A(n) == M.root and n[0] == 'ld' else None)
        t = rewrite(t, lambda n: A(PAR) if n == ('ld', ('idx', M.parents, H), 0) else None)
        return t
    w = d.w
    isdirect = {}
    for r in [choice] + Vs:
        ks = set(s.pos[0] for s in own.get(r, []) if live_in(d, s, [s.pos[1]] + s.keys[1:], syms, facts))
        isdirect[r] = ks == {'direct'}
    direct = any(isdirect.values())
    if direct and name in ('inner node', 'root') and CH is not None:
        hit = [s for r in [choice] + Vs for s in own.get(r, []) if s.pos[0] == 'direct']
        live = []
        for s in hit:
            so = solve(s.loops, [s.pos[1]] + s.keys[1:], syms)
            if so and feasible(list(conj(so[0])) + facts):
                live.append(s)
        if live:
            C.bad(oid + '.order', 'nodes are handled in index order, so a node can be handled before its children', C.evwhere(live[0].e))
            return
    # atoms of the root region: position n-1 is the root
    if name == 'root':
        kk = sub(M.nodes, ONE)
    nv = None
    if V is not None and own.get(V):
        # a root that is never split further needs no value of its own
        needv = not (p == 'H' and name in ('root', 'single node'))
        vs = own[V]
        if needv or any(live_in(d, s, [s.pos[1]] + s.keys[1:], syms, facts) for s in vs):
            nv = net(d, oid + '.value', vs, syms, facts, V, C, ZERO, keymap(('own', 'direct')))
            if nv is None:
                return
    N0 = initval(d, choice, None)
    if p == 'H':
        init = N0 if N0 is not None and is_bool(N0) else None
    else:
        init = None
        vals = [e.val for e, l in d.evs if e.kind == 'init' and e.loc is not None and e.loc[0] == 'new' and any(x.kind == 'push' and x.loc == choice and x.val == ('ptr', e.loc) for x, _ in d.evs)]
        if len(vals) == 1 and is_poly(vals[0]):
            init = vals[0]
    cs = own.get(choice, [])
    livec = [s for s in cs if live_in(d, s, [s.pos[1]] + s.keys[1:], syms, facts)]
    if livec:
        nc = net(d, oid + '.choice', cs, syms, facts, choice, C, init, keymap(('own', 'direct')))
        if nc is None:
            return
        cv, cw = nc.v, C.evwhere(nc.last.e)
    else:
        nc, cv, cw = None, init, C.evwhere(ce)
    if cv is None:
        C.und(oid + '.choice', 'initial choice', d.w)
        return
    TT = d.T(H, *[A(x) for x in ij])
    sub_ = name in ('inner node', 'root')
    chv = None
    if sub_:
        chv = childval(d, st, CH, V, H, ij)
    keyH = lambda r: vload(st[r], [H] + [A(x) for x in ij])
    specs = TT
    if sub_:
        if chv is None:
            C.und(oid + '.children', 'sum over the children not identified', d.w)
            return
        specs = ite(cmp_('>', chv, TT, False), chv, TT)
    if p == 'H':
        if nv is not None and not (name in ('root', 'single node')):
            judge(C, I, oid + '.value', named(nv.v, isdirect[V]), specs, facts, 'best value of a ' + name, C.evwhere(nv.last.e))
        want = T if not sub_ else b_not(cmp_('>', chv, TT, False))
        judge(C, I, oid + '.choice', named(cv, nc is not None and isdirect[choice]), want, facts, 'a %s is kept whole unless its children are strictly better' % name, cw)
    else:
        if nv is None:
            C.und(oid + '.value', 'no value stored', d.w)
            return
        i, j = A(II), A(JJ)
        body = lambda t: add(vload(st[V], [H, i, t]), vload(st[V], [H, add(t, ONE), j]))
        cmpbest(d, oid + '.value', 'best value of %s and interval' % name, named(nv.v, isdirect[V]), facts, specs, i, sub(j, ONE), body, C.evwhere(nv.last.e))
        a0 = j if not sub_ else ite(cmp_('>', chv, TT, False), num(-1), j)
        cmpbest(d, oid + '.choice', 'split of %s and interval' % name, named(cv, isdirect[choice]), facts, specs, i, sub(j, ONE), body, cw, arg=a0)
        order(d, oid, [s for N in (nv, nc) if N for s in N.stores], V, syms, nv, facts) if False else dorder(d, oid, nv, nc, V, facts)
    # contributions to the parent
    if name in ('leaf', 'inner node') and CH is not None:
        contributions(d, oid, name, par[CH], V, CH, nv, facts, syms, named, isdirect)
    if name == 'inner node' and CH is not None:
        accumulator(d, oid, CH, st, own)
    # the walk stops early only at the root
    for L in loops_of(I.events):
        for x in L.exits:
            if x.get('kind') == 'head':
                continue
            if not any(s in own.get(choice, []) + own.get(V, []) for s in [s for ss in st.values() for s in ss if L in s.loops]):
                continue
            c = unver(x.get('cond', T))
            iv = L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)
            at = substitute(c, {iv: A(K)})
            at = rewrite(at, lambda n: H if n == ('ld', ('idx', M.path, A(K)), 0) else None)
            if at == cmp_('==', H, M.root, True) or I.entails(list(conj(at)) + d.ax, cmp_('>=', A(K), sub(M.nodes, ONE), True)):
                C.ok(oid + '.exit', 'the walk ends at the root', L.where())
            elif hasunk(at):
                C.und(oid + '.exit', 'walk ends early', L.where())
            else:
                C.bad(oid + '.exit', 'the walk over the nodes ends when %s' % show(at)[:200], L.where())


def live_in(d, s, keys, syms, facts):
    so = solve(s.loops, keys, syms)
    if so is None:
        return True
    return feasible(list(conj(so[0])) + list(conj(substitute(s.guard, so[1]))) + facts)


def childval(d, st, CH, V, H, ij):
    if CH is not None:
        return vload(st[CH], [H] + [A(x) for x in ij])
    if V is None:
        return None
    bv = ('iv', 901, 'c')
    kid = A(('ld', ('idx', d.M.kids(H), A(bv)), 0))
    return mk_sum(bv, ZERO, sub(A(('ld', ('size', d.M.kids(H)), 0)), ONE), vload(st[V], [kid] + [A(x) for x in ij]))


def dorder(d, oid, nv, nc, V, facts):
    C, I = d.C, d.I
    for N in (nv, nc):
        if N is None:
            continue
        for s in N.stores:
            for a in set(n for n in nodes(s.val) if n[0] == 'ld' and keyseq(n[1])[0] == V):
                rk = keyseq(a[1])[1]
                if rk == s.keys:
                    continue
                check_order(d, oid, s, rk, nv.stores, facts, C.evwhere(s.e))


def contributions(d, oid, name, stores, V, CH, nv, facts, syms, named, isdirect):
    C, I, M = d.C, d.I, d.M
    total, seen, last = ZERO, [], None
    for s in stores:
        so = solve(s.loops, [s.pos[1]] + s.keys[1:], syms)
        if so is None:
            C.und(oid + '.parent', 'contribution not linear in the loop variables', C.evwhere(s.e))
            return
        cond, sol, free = so
        cond = simp(I, b_and(cond, substitute(s.guard, sol)), facts)
        if not feasible(list(conj(cond)) + facts):
            continue
        if free:
            C.bad(oid + '.parent', 'the value of a %s is added to its parent more than once' % name, C.evwhere(s.e))
            return
        v = substitute(s.val, sol)
        me = ('ld', substitute(unver(s.e.loc), sol), 0)
        dv = sub(v, A(me))
        if contains(dv, lambda n: n == me):
            C.bad(oid + '.parent', 'the accumulated value of the parent is overwritten, not added to', C.evwhere(s.e))
            return
        # own value at that point
        ol = unver(vload_of(nv, s, sol))
        if ol is not None and contains(dv, lambda n: n == single(ol)):
            dv = substitute(dv, {single(ol): nv.v})
        total = add(total, dv if I.entails(facts, cond) else ite(cond, dv, ZERO))
        last = s
        if nv is not None and nv.last.unit > s.unit or nv is not None and nv.last.unit == s.unit and nv.last.n > s.n and shared(nv.last, s):
            C.bad(oid + '.parent', 'the value of a %s is added to its parent before it is final' % name, C.evwhere(s.e))
            return
    if last is None:
        C.bad(oid + '.parent', 'the value of a %s is never added to its parent' % name, d.w)
        return
    dr = last.pos[0] == 'dparent'
    judge(C, I, oid + '.parent', named(total, dr or isdirect.get(V, False)), named(nv.v, isdirect.get(V, False)), facts, 'a %s adds its best value to its parent once' % name, C.evwhere(last.e))


def shared(a, b):
    return a.loops[:1] == b.loops[:1]


def vload_of(nv, s, sol):
    if nv is None:
        return None
    x = nv.stores[0]
    return A(('ld', substitute(unver(x.e.loc), x.sol), 0))


def accumulator(d, oid, CH, st, own):
    """the children's sum starts at zero for every node, is not shared, and is only ever added to"""
    C, I, M = d.C, d.I, d.M
    bad = [s for s in own.get(CH, [])]
    if bad:
        s = bad[0]
        if s.val == A(('ld', unver(s.e.loc), 0)):
            pass
        elif hasunk(s.val):
            C.und(oid + '.zero', 'other store to the accumulator', C.evwhere(s.e))
            return
        else:
            C.bad(oid + '.zero', 'the children\'s sum of a node is overwritten with %s' % show(s.val)[:200], C.evwhere(s.e))
            return
    ps = fill_events(I, CH)
    inits = [e for e, l in d.evs if e.kind == 'init' and e.loc == CH]
    ps = [(e, l, v) for e, l, v in ps if not any(s.e is e for s in st.get(CH, []))]
    w = d.w
    if not ps:
        vs = [e.val for e in inits if e.val is not None]
        if vs and vs[-1] == ZERO:
            C.ok(oid + '.zero', 'the sums start at zero', w)
        elif vs and isinstance(vs[-1], tuple) and vs[-1][0] == 'ptr':
            C.bad(oid + '.zero', 'all nodes share one sum object', C.evwhere(inits[-1]))
        elif vs and is_poly(vs[-1]) and not hasunk(vs[-1]):
            C.bad(oid + '.zero', 'the sums start at %s' % show(vs[-1]), C.evwhere(inits[-1]))
        else:
            C.und(oid + '.zero', 'start of the sums', w)
        return
    for e, l, v in ps:
        w = C.evwhere(e)
        fr = freshness(I, e, l, v) if not is_poly(v) else None
        if is_poly(v):
            judge(C, I, oid + '.zero', v, ZERO, d.ax, 'start of the sums', w)
            continue
        if fr is False:
            C.bad(oid + '.zero', 'nodes share one sum object', w)
            continue
        if fr is None:
            C.und(oid + '.zero', 'objects holding the sums', w)
            continue
        if v[0] == 'freshptr':
            C.ok(oid + '.zero', 'fresh sums', w)
            continue
        o = root(v[1])
        zs = [x.val for x, _ in d.evs if x.kind in ('write', 'init') and x.loc == o]
        if all(z == ZERO or isinstance(z, tuple) and z[0] == 'freshptr' for z in zs) and zs:
            C.ok(oid + '.zero', 'the sums start at zero, one object per node', w)
        elif zs and all(is_poly(z) and not hasunk(z) for z in zs):
            C.bad(oid + '.zero', 'the sums start at %s' % show(zs[-1])[:100], w)
        else:
            C.und(oid + '.zero', 'start of the sums', w)


RULES = {'C09': [rule_ordered], 'C10': [rule_hier], 'C11': [rule_spatio]}
