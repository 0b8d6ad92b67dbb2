"""C02: triangular storage."""
from .core import *

UT = NS + 'UpperTriangularMatrix<'


def matrices(C):
    out = [r for r in sorted(C.P.records) if r.startswith(UT)]
    if not out:
        raise Anchor('UpperTriangularMatrix')
    return out


def access(C, c):
    """(getter, setter) of the interval interface"""
    g = [f for f in C.meths(c, 'operator()') if len(f['ps']) == 2]
    s = [f for f in C.meths(c, 'operator()') if len(f['ps']) == 3]
    if len(g) != 1 or len(s) != 1:
        raise Anchor(c + '::operator()')
    return g[0], s[0]


def bijection(f, i, j, n):
    """is f a bijection from {0<=i<=j<n} onto [0, n(n+1)/2)?  -> (True, how) | (False, witness) | (None, why)"""
    # refutation on small sizes
    for k in range(1, 8):
        seen = {}
        for a in range(k):
            for b in range(a, k):
                v = evalnum(f, {i: a, j: b, n: k})
                if v is None:
                    return None, 'index not evaluable'
                if v.denominator != 1 or not 0 <= v < k * (k + 1) // 2:
                    return False, 'size %d: interval [%d,%d] uses cell %s outside [0,%d)' % (k, a, b, v, k * (k + 1) // 2)
                if v in seen:
                    return False, 'size %d: intervals %s and [%d,%d] share cell %s' % (k, list(seen[v]), a, b, v)
                seen[v] = (a, b)
    # proof: lines (outer coordinate u), contiguous and of the right lengths, in ascending or descending order
    u, r = ('u',), ('r',)
    U, R, N = A(u), A(r), A(n)
    lines = [
        ('rows', {i: U, j: add(U, R)}, sub(N, U)),                 # i fixed, j = i+r, r in [0,n-1-i]
        ('columns', {j: U, i: R}, add(U, ONE)),                    # j fixed, i = r, r in [0,j]
        ('diagonals', {i: R, j: add(R, U)}, sub(N, U)),            # j-i fixed, i = r
    ]
    tot = scale(mul(N, add(N, ONE)), Fraction(1, 2))
    for name, m, length in lines:
        g = substitute(f, m)
        step = sub(substitute(g, {r: add(R, ONE)}), g)
        if step not in (ONE, num(-1)):
            continue
        lo = substitute(g, {r: ZERO}) if step == ONE else substitute(g, {r: sub(length, ONE)})
        nxt = substitute(lo, {u: add(U, ONE)})
        if sub(nxt, lo) == length and substitute(lo, {u: ZERO}) == ZERO:
            return True, '%s laid out one after the other' % name
        if sub(lo, nxt) == substitute(length, {u: add(U, ONE)}) and substitute(lo, {u: sub(N, ONE)}) == ZERO:
            return True, '%s laid out one after the other, last first' % name
        # ascending with an offset-free total
    return None, 'no line structure recognised'


def rule_storage(C):
    """one cell per interval: index function bijective onto the storage, reader and writer agree, storage has exactly n(n+1)/2 cells"""
    n_, i_, j_ = ('sym', 'n', 'n'), ('sym', 'i', 'i'), ('sym', 'j', 'j')
    N, X, Y = A(n_), A(i_), A(j_)
    tot = scale(mul(N, add(N, ONE)), Fraction(1, 2))
    lows = {n_: 1}
    for c in matrices(C):
        nm = c[len(NS):]
        et = c[len(UT):-1].strip()
        get, put = access(C, c)
        for ctor in C.ctors(c):
            if not ctor['ps'] or strip(ctor['ps'][0]['t']) not in ('unsigned int', 'int', 'unsigned long', 'size_t'):
                continue
            I = C.interp()
            args = {0: N}
            k = I.kind(et)
            fillv = None
            if len(ctor['ps']) == 2:
                if k == 'ptr':
                    fillv = ('ldp', ('arg', 1), 0)
                else:
                    fillv = A(('sym', 'v', 'v'))
                    args[1] = fillv
            w = C.where(ctor)
            oid = '%s[%d]' % (nm, len(ctor['ps']))
            I.call(ctor['key'], cls=c, args=args)
            C.used(I, ctor, get, put)
            size = I.call(C.meth(c, 'getSize', 0)['key'], cls=c)
            judge(C, I, oid + '.size', size, N, (), 'reported size', w)
            elems = I.call(C.meth(c, 'getElements', 0)['key'], cls=c)
            judge(C, I, oid + '.elements', simp_low(I, elems, lows) if is_poly(elems) else elems, tot, (), 'reported number of cells', w)
            # the reader's cell
            ev0 = len(I.events)
            g = I.call(get['key'], cls=c, args={0: X, 1: Y})
            acc = [e for e, _ in flat(I.events[ev0:]) if e.kind == 'access' and e.loc[0] == 'idx']
            if len(acc) != 1 or I.unknown:
                C.und(oid + '.get', 'reader not modelled', C.where(get))
                continue
            cont, idx = acc[0].loc[1], acc[0].loc[2]
            cells = I.size(cont)
            judge(C, I, oid + '.storage', simp_low(I, cells, lows), tot, (), 'number of stored cells', w)
            idx = simp_low(I, idx, {**lows})
            r, how = bijection(idx, i_, j_, n_)
            if r is True:
                C.ok(oid + '.cell', 'cell index %s: %s' % (show(idx), how), C.where(get))
            elif r is False:
                C.bad(oid + '.cell', 'cell index %s of interval [i,j]: %s' % (show(idx), how), C.where(get))
            else:
                C.und(oid + '.cell', 'cell index %s: %s' % (show(idx), how), C.where(get))
            # initial contents
            if fillv is not None:
                judge(C, I, oid + '.initial', g, fillv, (), 'initial content', w)
            elif k == 'ptr':
                fs = fill_events(I, cont)
                ci = I.st.cinit.get(I.canon(cont))
                if isinstance(ci, tuple) and len(ci) > 2 and isinstance(ci[2], tuple) and ci[2][0] in ('ptr', 'ldp') and not fs:
                    C.bad(oid + '.fresh', 'all cells start with the same object %s' % show(ci[2]), w)
                elif ci and ci[2] is None and isinstance(ci[1], tuple) and not fs:
                    C.bad(oid + '.fresh', 'cells start without an object', w)
                elif not fs:
                    C.und(oid + '.fresh', 'no initial contents found', w)
                for e, loops, v in fs:
                    fr = freshness(I, e, loops, v)
                    if fr:
                        C.ok(oid + '.fresh', 'each cell gets an object created for it', C.evwhere(e))
                    elif fr is False:
                        C.bad(oid + '.fresh', 'cells share the object %s' % show(v), C.evwhere(e))
                    else:
                        C.und(oid + '.fresh', 'stored object not modelled', C.evwhere(e))
                    if isinstance(v, tuple) and v[0] == 'ptr':
                        zero_object(C, I, oid, v[1], C.evwhere(e))
            else:
                judge(C, I, oid + '.initial', g, ZERO, (), 'initial content', w)
            # the writer
            J = C.interp()
            J.call(ctor['key'], cls=c, args=args)
            ev0 = len(J.events)
            val = ('ldp', ('arg', 'v'), 0) if k == 'ptr' else A(('sym', 'val', 'val'))
            J.call(put['key'], cls=c, args={0: X, 1: Y, 2: val})
            ws = [e for e, _ in flat(J.events[ev0:]) if e.kind == 'write' and root(e.loc) == ('this',)]
            if len(ws) != 1 or J.unknown or ws[0].loc[0] != 'idx':
                if J.unknown:
                    C.und(oid + '.set', 'writer not modelled', C.where(put))
                else:
                    C.bad(oid + '.set', 'writing one interval makes %d stores' % len(ws), C.where(put))
                continue
            e = ws[0]
            if fam(e.loc[1]) != fam(cont):
                C.bad(oid + '.set', 'writer and reader use different storage', C.evwhere(e))
                continue
            widx = simp_low(J, e.loc[2], lows)
            if widx == idx:
                C.ok(oid + '.set', 'writer uses the reader\'s cell', C.evwhere(e))
            else:
                wit = None
                for a in range(6):
                    for b in range(a, 6):
                        p, q = evalnum(widx, {i_: a, j_: b, n_: 6}), evalnum(idx, {i_: a, j_: b, n_: 6})
                        if p is not None and q is not None and p != q:
                            wit = (a, b, p, q)
                if wit:
                    C.bad(oid + '.set', 'size 6: interval [%d,%d] is written at cell %s but read at cell %s' % wit, C.evwhere(e))
                else:
                    C.und(oid + '.set', 'cell indices %s and %s not compared' % (show(idx), show(widx)), C.evwhere(e))
            if e.guard != T and not J.entails([cmp_('>=', X, ZERO, True), cmp_('>=', Y, X, True), cmp_('>', N, Y, True)], e.guard):
                C.bad(oid + '.set.cond', 'the store only happens when %s' % show(e.guard), C.evwhere(e))
            got = J.call(get['key'], cls=c, args={0: X, 1: Y})
            if k == 'ptr':
                (C.ok if got == val else C.und if J.unknown else C.bad)(oid + '.readback', 'value read back after writing: %s' % show(got), C.where(put))
            else:
                judge(C, J, oid + '.readback', got, val, (), 'value read back after writing', C.where(put))
        # flat access reads the cells in storage order
        fl = [f for f in C.meths(c, 'operator[]') if len(f['ps']) == 1]
        for f in fl:
            I = C.interp()
            x = A(('sym', 'k', 'k'))
            I.call(f['key'], cls=c, args={0: x})
            acc = [e for e, _ in flat(I.events) if e.kind == 'access' and e.loc[0] == 'idx']
            if len(acc) == 1 and acc[0].loc[2] == x:
                C.ok(nm + '.flat', 'flat access k reads cell k', C.where(f))
            elif len(acc) == 1 and not I.unknown:
                C.bad(nm + '.flat', 'flat access k reads cell %s: cells would be missed or repeated' % show(acc[0].loc[2]), C.where(f))
            else:
                C.und(nm + '.flat', 'not modelled', C.where(f))


def zero_object(C, I, oid, loc, w):
    """the stored object's components are zero at creation"""
    for e, _ in flat(I.events):
        if e.kind == 'write' and e.loc and root(e.loc) == root(loc) and e.loc[0] == 'fld' and is_poly(e.val):
            if e.val == ZERO:
                C.ok(oid + '.zero.' + e.loc[2].split('::')[-1], 'zero at creation', w)
            elif not hasunk(e.val):
                C.bad(oid + '.zero.' + e.loc[2].split('::')[-1], 'created with %s' % show(e.val), w)


RULES = {'C02': [rule_storage]}
