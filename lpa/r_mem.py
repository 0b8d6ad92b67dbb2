"""C25: no operation leaves its containers or reads undefined data."""
import re, os
from .core import *
from .interp import targs
from .r_part import Meta
from .r_effects import declared, heavy, isptr, show_loc

# symbols of the well-formed input every obligation is stated over
def sym(n):
    return A(('sym', n, n))

H, L, R, N, V = sym('nodes'), sym('leaves'), sym('root'), sym('length'), sym('series')
DI, DJ, DK = sym('dimension 1'), sym('dimension 2'), sym('dimension 3')
PL = sym('retained')
FREE = {'path', 'par', 'child', 'nch', 'cut', 'dcut', 'leafpart'}
COMPUTE = ['OQualities', 'HQualities', 'DQualities', 'OPartitioner', 'HPartitioner', 'DPartitioner', 'Partitioner',
           'OPartition', 'HPartition', 'DPartition', 'Partition', 'OPart', 'HPart', 'DPart', 'Quality', 'Tradeoff', 'HValuesMetaData', 'OAggregate', 'HAggregate', 'DAggregate', 'OAggregation', 'HAggregation', 'DAggregation']


def worklist_ok(C):
    """the rules of C03 establish that the worklist of setPath lists every node, children before parents, and stops at the root"""
    from . import r_meta
    D = Ctx(C.P)
    D.cur = 'C03.setpath'
    try:
        r_meta.rule_setpath(D)
    except Exception:
        return False
    wl = [o for o in D.obs if o['id'].startswith('worklist')]
    return bool(wl) and all(o['status'] == 'ok' for o in wl)


class Roles:
    """how the data of well-formed inputs is named, whatever object holds it"""
    def __init__(s, C):
        s.C = C
        P = C.P
        J = C.interp()
        m = Meta(C, J, ('arg', 9))
        s.meta = C.cls('HValuesMetaData')
        s.arr = {m.path[2]: 'path', m.parents[2]: 'par', m.children[2]: 'children'}
        s.sc = {}
        def scal(t, sy):
            a = single(t) if is_poly(t) else None
            if a and a[0] == 'ld' and a[1][0] == 'fld':
                s.sc[a[1][2]] = sy
        scal(m.nodes, H)
        scal(m.leaves, L)
        scal(m.root, R)
        for cl in ('OValues', 'DValues', 'HValues'):
            c = C.cls(cl)
            for g, sy in (('getOsize', N), ('getVsize', V)):
                for f in C.meths(c, g, 0):
                    J2 = C.interp()
                    scal(J2.call(f['key'], this=('arg', 9), cls=c), sy)
        try:
            from .r_query import member
            s.plist = member(C, C.interp(), C.cls('Partitioner'), 'getPList')
        except Undecided:
            s.plist = None
        for f in ():
            J2 = C.interp()
            t = J2.call(f['key'], this=('arg', 9), cls=C.cls('Partitioner'))
            s.plist = t[1] if isinstance(t, tuple) and t[0] == 'copy' else None
        # element containers of the value classes: the size at every depth
        s.depth = {}
        for cl, first, last in (('OValues', [], [N]), ('HValues', [L], []), ('DValues', [L], [N])):
            for c in P.derived(C.cls(cl)):
                for fl in P.records[c].get('fields', []):
                    k, t = 0, strip(fl['t'])
                    while t.startswith('std::vector<'):
                        k, t = k + 1, strip(targs(t)[0])
                    if not k or t != 'double':
                        continue
                    inner = k - len(first) - len(last)
                    if 0 <= inner <= 3:
                        s.depth[c + '::' + fl['n']] = first + ([V] if inner == 1 else [DI, DJ, DK][:inner]) + last
                for g, sy in (('getI', DI), ('getJ', DJ), ('getK', DK)):
                    for f in C.meths(c, g, 0):
                        J2 = C.interp()
                        scal(J2.call(f['key'], this=('arg', 9), cls=c), sy)
        # the path under construction reads as the finished one when every worklist obligation of C03 is discharged
        s.built = worklist_ok(C)
        # containers of the compute classes by type
        s.kind = {}
        for c, r in P.records.items():
            if not c.startswith(NS):
                continue
            for f in r.get('fields', []):
                s.kind[c + '::' + f['n']] = (c, strip(f['t']))
        s.parts = {}
        for cl, gs in (('OPart', (('getStart', 'start'), ('getEnd', 'end'))), ('HPart', (('getH', 'h'),)), ('DPart', (('getH', 'h'), ('getStart', 'start'), ('getEnd', 'end')))):
            c = C.cls(cl)
            for g, role in gs:
                for f in C.meths(c, g, 0):
                    J2 = C.interp()
                    t = J2.call(f['key'], this=('arg', 9), cls=c)
                    a = single(t) if is_poly(t) else None
                    if a and a[0] == 'ld' and a[1][0] == 'fld':
                        s.parts[a[1][2]] = (cl, role)

    def pointee(s, t):
        t = strip(t)
        m = re.match(r'std::shared_ptr<(.*)>$', t)
        return strip(m.group(1)) if m else t

    def container(s, I, X, f):
        """role of an input container location: what its size is"""
        base = X
        deref = False
        if X[0] == 'arg' and f.get('ctor') and f.get('cls') == s.meta and isinstance(X[1], int) and X[1] < len(f['ps']) and 'vector<int' in f['ps'][X[1]]['t']:
            return 'par'
        if X[0] == 'deref' and X[1][0] == 'ldp' and isinstance(X[1][1], tuple):
            base, deref = X[1][1], True
        t = None
        if base[0] == 'fld':
            if base[2] in s.arr:
                return s.arr[base[2]]
            cls, t = s.kind.get(base[2], (None, None))
        elif base[0] == 'arg' and isinstance(base[1], int) and base[1] < len(f['ps']):
            t, cls = strip(f['ps'][base[1]]['t'].replace('&', '')), f.get('cls')
        elif base[0] == 'idx':
            r = s.container(I, base[1], f)
            if r == 'quals' or r == 'cuts':
                return 'matrix'
            if r == 'children':
                return 'kids'
            return None
        if t is None or cls is None:
            return None
        p = s.pointee(t) if deref else t
        if 'UpperTriangularMatrix<' in p and not p.startswith('std::vector'):
            return 'matrix'
        if p.startswith('std::vector<std::shared_ptr<' + NS + 'Quality'):
            return 'quals'
        if p.startswith('std::vector<std::shared_ptr<' + NS + 'UpperTriangularMatrix<std::shared_ptr<'):
            return 'quals'
        if p.startswith('std::vector<std::shared_ptr<' + NS + 'UpperTriangularMatrix<int'):
            return 'cuts'
        if p.startswith('std::vector<bool') and cls.endswith('HPartition'):
            return 'flags'
        if p.startswith('std::vector<int') and cls.endswith('OPartition'):
            return 'cut'
        return None

    def term(s, I, t, f):
        """t with input data replaced by the symbols"""
        inmeta = f.get('cls') == s.meta and s.built

        def g(n):
            if n[0] == 'sym' and inmeta and f.get('ctor') and len(n) == 3 and isinstance(n[1], int):
                return L
            if n[0] == 'fin' and inmeta and n[2:] and n[2][:1] == ('loc',) and n[2][1][0] == 'size' and s.container(I, n[2][1][1], f) == 'path':
                return H
            if n[0] != 'ld' or not isinstance(n[1], tuple):
                return None
            loc, ver = n[1], n[2] if len(n) > 2 else 0
            if ver != 0 and inmeta:
                if loc[0] == 'idx' and s.container(I, loc[1], f) == 'path':
                    return fn('path', s.term(I, loc[2], f))
                if loc[0] == 'size' and s.container(I, loc[1], f) == 'path':
                    return fn('visited so far')
                return None
            if ver != 0:
                return None
            if loc[0] == 'fld' and loc[2] in s.sc:
                return s.sc[loc[2]]
            if loc[0] == 'fld' and loc[2] in s.parts:
                return fn('part', ('sym', loc[2], loc[2]), loc[1]) if False else A(('partf', s.parts[loc[2]], loc[1]))
            if loc[0] == 'size':
                X = loc[1]
                if s.plist and X[0] == 'fld' and X[2] == s.plist[2]:
                    return PL
                d, b = 0, X
                while b[0] == 'idx':
                    d, b = d + 1, b[1]
                if b[0] == 'fld' and b[2] in s.depth and d < len(s.depth[b[2]]):
                    return s.depth[b[2]][d]
                if X[0] == 'cv':
                    return N if s.view(X) else None
                r = s.container(I, X, f)
                if r in ('path', 'par', 'children', 'quals', 'cuts', 'flags'):
                    return H
                if r == 'cut':
                    return N
                if r == 'kids':
                    b = X if X[0] == 'idx' else X
                    return fn('nch', s.term(I, b[2], f))
                return None
            if loc[0] == 'dim':
                r = s.container(I, loc[1], f)
                if r == 'matrix':
                    return N
                return None
            if loc[0] == 'idx':
                r = s.container(I, loc[1], f)
                if r == 'path':
                    return fn('path', s.term(I, loc[2], f))
                if r == 'par':
                    return fn('par', s.term(I, loc[2], f))
                if r == 'cut':
                    return fn('cut', s.term(I, loc[2], f))
                if r == 'kids':
                    return fn('child', s.term(I, loc[1][2], f), s.term(I, loc[2], f))
                return None
            if loc[0] == 'cell':
                if s.container(I, loc[1], f) == 'matrix':
                    X = loc[1]
                    if X[0] == 'deref' and X[1][1][0] == 'idx' and s.container(I, X[1][1][1], f) == 'cuts':
                        return fn('dcut', s.term(I, X[1][1][2], f), s.term(I, loc[2], f), s.term(I, loc[3], f))
                return None
            return None
        return rewrite(t, g) if isinstance(t, tuple) else t

    def view(s, X):
        """a container returned by the flattened view of values: one number per instant"""
        c = X[1]
        return isinstance(c, tuple) and c[0] == 'vcall' and c[1] in ('operator[]', 'getValue') and any(
            n[0] == 'fld' and re.search(r'[OD]Values(<.*>)?$', s.pointee(s.kind.get(n[2], ('', ''))[1])) for n in subterms(c[2]))


# ------------------------------------------------------------------ facts about well-formed input
BASE = [cmp_('>=', PL, ZERO, True), cmp_('>=', H, ONE, True), cmp_('>=', L, ONE, True), cmp_('<=', L, H, True), cmp_('>=', N, ONE, True), cmp_('>=', V, ONE, True), cmp_('>=', DI, ONE, True), cmp_('>=', DJ, ONE, True), cmp_('>=', DK, ONE, True),
        cmp_('>=', R, ZERO, True), cmp_('<=', R, sub(H, ONE), True)]
IVS = ('iv',)
OPENK = ('unk', 'undef', 'fin', 'in', 'retin', 'Lx', 'cv', 'callval', 'ret', 'tmp')


def ge(a, b):
    return cmp_('>=', a, b, True)


def ne(a, b):
    return b_not(cmp_('==', a, b, True))


class Facts:
    """a closed set of facts: path condition, loop ranges, and what well-formed input adds for the terms in sight"""
    def __init__(s, I, fs, goals):
        s.I = I
        s.fs = list(BASE) + list(fs)
        s.done = set()
        for _ in range(5):
            n = len(s.fs)
            for a in sorted({x for t in s.fs + list(goals) for x in nodes(t) if x[0] in ('fn', 'partf', 'sum') or x[0] == 'sym' and len(x) == 3 and x[1] in ('nodes',)}, key=str):
                s.axiom(a)
            if len(s.fs) == n:
                break

    def ent(s, b):
        if b == T:
            return True
        return s.I.entails(s.fs, b)

    def put(s, tag, *bs):
        if tag in s.done:
            return
        s.done.add(tag)
        s.fs += [b for b in bs if b != T]

    def rng(s, i, n):
        return s.ent(ge(i, ZERO)) and s.ent(cmp_('<', i, n, True))

    def axiom(s, a):
        t = A(a)
        if a[0] == 'sym':
            if s.ent(ge(H, num(2))):
                s.put('inner', cmp_('<=', L, sub(H, ONE), True), ge(R, L))
            elif s.ent(cmp_('<=', H, ONE, True)) or s.ent(ge(L, H)):
                s.put('single', cmp_('==', R, ZERO, True), cmp_('==', L, ONE, True))
            if s.ent(cmp_('<', L, H, True)):
                s.put('inner', ge(H, num(2)), ge(R, L))
            return
        if a[0] == 'partf':
            n = H if a[1][1] == 'h' else N
            s.put((a, 'r'), ge(t, ZERO), cmp_('<', t, n, True))
            if a[1][1] == 'start':
                s.put((a, 'o'), ge(A(('partf', (a[1][0], 'end'), a[2])), t))
            return
        if a[0] == 'sum':
            # a sum of terms taking finitely many constant values
            vs = leaves(a[4])
            n = add(sub(a[3], a[2]), ONE)
            if vs and s.ent(ge(n, ZERO)):
                s.put((a, 'sum'), ge(t, scale(n, min(vs))), cmp_('<=', t, scale(n, max(vs)), True))
            return
        k, xs = a[1], a[2:]
        if k == 'path' and s.rng(xs[0], H):
            i = xs[0]
            s.put((a, 'r'), ge(t, ZERO), cmp_('<', t, H, True))
            if s.ent(cmp_('<', i, L, True)):
                s.put((a, 'leaf'), cmp_('<', t, L, True))
            if s.ent(ge(i, L)):
                s.put((a, 'in'), ge(t, L))
            if s.ent(cmp_('<=', i, sub(H, num(2)), True)) or s.ent(ne(t, R)):
                s.put((a, 'nr'), ne(t, R), cmp_('<=', i, sub(H, num(2)), True))
            if s.ent(ge(i, sub(H, ONE))) or s.ent(cmp_('==', t, R, True)):
                s.put((a, 'root'), cmp_('==', t, R, True), cmp_('==', i, sub(H, ONE), True))
        elif k == 'par' and s.rng(xs[0], H):
            x = xs[0]
            s.put((a, 'b'), ge(t, num(-1)), cmp_('<', t, H, True))
            if s.ent(ne(x, R)) or s.ent(ne(t, num(-1))) or s.ent(ge(t, ZERO)):
                s.put((a, 'nr'), ge(t, L), ne(x, R))
            if s.ent(cmp_('==', x, R, True)):
                s.put((a, 'root'), cmp_('==', t, num(-1), True))
        elif k == 'child' and s.rng(xs[0], H) and s.rng(xs[1], fn('nch', xs[0])):
            s.put((a, 'r'), ge(t, ZERO), cmp_('<', t, H, True), ne(t, R), ge(xs[0], L))
        elif k == 'nch' and s.rng(xs[0], H):
            s.put((a, 'n'), ge(t, ZERO))
            if s.ent(cmp_('<', xs[0], L, True)):
                s.put((a, 'leaf'), cmp_('==', t, ZERO, True))
            if s.ent(ge(xs[0], L)):
                s.put((a, 'in'), ge(t, ONE))
            if s.ent(ge(t, ONE)):
                s.put((a, 'pos'), ge(xs[0], L))
        elif k == 'cut' and s.rng(xs[0], N):
            s.put((a, 'r'), ge(t, xs[0]), cmp_('<', t, N, True))
        elif k == 'dcut' and s.rng(xs[0], H) and s.rng(xs[1], N) and s.rng(xs[2], N):
            s.put((a, 'b'), ge(t, num(-1)), cmp_('<', t, N, True))
            if s.ent(ne(t, num(-1))) or s.ent(ge(t, ZERO)):
                s.put((a, 'r'), ge(t, xs[1]))
            if s.ent(cmp_('==', t, num(-1), True)):
                s.put((a, 'sp'), ge(xs[0], L))


def leaves(t):
    """the values of a conditional term when all of them are constants"""
    c = const(t) if is_poly(t) else None
    if c is not None:
        return [c]
    at = [x for x in nodes(t) if x[0] == 'ite'] if is_poly(t) else []
    for a in at:
        if t == A(a) or contains(t, lambda n: n == a):
            xs, out = [rewrite(t, lambda n: v if n == a else None) for v in (a[2], ZERO)], []
            for x in xs:
                ls = leaves(x) if x != t else None
                if not ls:
                    return None
                out += ls
            return out
    return None


def loopfacts(e, ls):
    fs = list(conj(e.guard))
    for Lp in ls:
        fs += conj(Lp.guard)
        if Lp.ivatom is not None and Lp.lo is not None:
            iv = Lp.ivatom if is_poly(Lp.ivatom) else A(Lp.ivatom)
            fs.append(ge(iv, Lp.lo))
            if Lp.hi is not None:
                fs.append(cmp_('<=', iv, Lp.hi, True))
    return fs


class Op:
    """one analysed operation with its accesses, judged under a contract of its integer arguments"""
    def __init__(s, C, Rl, f, opaque, opts):
        s.C, s.f, s.Rl = C, f, Rl
        I = s.I = C.interp(opts, opaque=opaque, axioms=lambda seen: s.early(seen))
        I.callw = {k: assigned(C, k) for k in opaque}
        I.retval = I.call(f['key'], cls=f.get('cls'))
        C.used(I, f)
        s.flat = list(flat(I.events))
        s.dims = s.localdims()
        s.invs = {}
        s.chains = {}
        for Lp in {id(l): l for e, ls in s.flat for l in ls}.values():
            s.invariants(Lp)

    def invariants(s, Lp):
        """bounds of integer loop variables without closed form, kept by every iteration"""
        cs = {}
        for m, v in Lp.carried.items():
            if not (isinstance(v, tuple) and len(v) >= 2 and is_poly(v[0]) and is_poly(v[1])):
                continue
            at = next((n for t in [v[1]] + [x.get('cond', T) for x in Lp.exits if isinstance(x, dict)] for n in nodes(t) if n[0] == 'in' and n[1] == Lp.id and (n[2] == m[:2] or n[2] == m)), None)
            if at is None:
                continue
            heads = [b_not(x['cond']) for x in Lp.exits if x.get('kind') == 'head' and x.get('cond') is not None]
            s.chains[at] = (s.term(v[0]), s.term(v[1]), [s.term(h) for h in heads])
            x = A(at)
            for n, c in (('ge0', lambda t: ge(t, ZERO)), ('ge-1', lambda t: ge(t, num(-1))), ('leH', lambda t: cmp_('<=', t, H, True)), ('ltH', lambda t: cmp_('<', t, H, True)),
                         ('leN', lambda t: cmp_('<=', t, N, True)), ('ltN', lambda t: cmp_('<', t, N, True)), ('geL', lambda t: ge(t, L))):
                cs[(at, n)] = c
        changed = True
        while changed:
            changed = False
            for (at, n), c in list(cs.items()):
                v0, ve, heads = s.chains[at]
                hyp = [c2(A(a2)) for (a2, _), c2 in cs.items()] + [h for hs in heads for h in conj(hs)]
                if not Facts(s.I, [], [v0]).ent(c(v0)) or not Facts(s.I, hyp, [ve]).ent(c(ve)):
                    del cs[(at, n)]
                    changed = True
        for (at, n), c in cs.items():
            s.invs.setdefault(at, []).append(c(A(at)))

    def early(s, seen):
        out = []
        for n in seen:
            if n[0] == 'ld' and isinstance(n[1], tuple) and n[1] and n[1][0] in ('fld', 'dim', 'size') and (len(n) < 3 or n[2] == 0):
                t = s.Rl.term(s.I, A(n), s.f)
                if t in (H, L, N, V, DI, DJ, DK):
                    out.append(ge(A(n), ONE))
        return out

    def localdims(s):
        """size of every matrix an own container holds, when all of them are made alike"""
        src, res = {}, {}
        for e, ls in s.flat:
            if e.kind == 'init' and getattr(e, 'size', None) is not None and is_poly(e.size):
                src.setdefault(e.loc, []).append(e.size)
        for e, ls in s.flat:
            if e.kind in ('push', 'write', 'init') and isinstance(e.val, tuple) and e.val and e.val[0] in ('ptr', 'copy'):
                c = e.loc if e.kind in ('push', 'init') else e.loc[1] if e.loc[0] in ('idx', 'at') else None
                if c is None:
                    continue
                d = src.get(e.val[1])
                res.setdefault(fam(c), []).append(d[0] if d and len(d) == 1 and not any(contains(d[0], lambda n, L=L: n == (L.ivatom if not is_poly(L.ivatom) else single(L.ivatom))) for L in ls) else None)
        return {k: v[0] for k, v in res.items() if v[0] is not None and all(x == v[0] for x in v)}

    def term(s, t):
        def g(n):
            if n[0] == 'ld' and isinstance(n[1], tuple) and n[1] and n[1][0] == 'dim':
                X = n[1][1]
                if X[0] == 'deref' and X[1][0] == 'ldp' and isinstance(X[1][1], tuple):
                    X = X[1][1]
                if X[0] == 'idx' and fam(X[1]) in s.dims:
                    return s.dims[fam(X[1])]
            return None
        if isinstance(t, tuple):
            t = rewrite(t, g)
        return s.Rl.term(s.I, t, s.f)

    def facts(s, e, ls, contract):
        fs = [s.term(b) for b in loopfacts(e, ls)] + contract
        if s.Rl.built and s.f.get('cls') == s.Rl.meta:
            for Lp in ls:
                iv = None if Lp.ivatom is None else Lp.ivatom if is_poly(Lp.ivatom) else A(Lp.ivatom)
                if iv is not None and any(contains(s.term(x['cond']), lambda n: n == single(fn('path', iv))) for x in Lp.exits if isinstance(x, dict) and x.get('cond') is not None):
                    fs += [cmp_('<', iv, H, True), cmp_('<', iv, fn('visited so far'), True)]
        for at in {n for t in fs + [s.term(x) for x in (e.loc[2:] if e.loc else ()) if isinstance(x, tuple)] for n in nodes(t) if n in s.invs}:
            fs += s.invs[at]
        return fs

    def openatoms(s, t):
        def op(n):
            if n in s.chains:
                return False
            if n[0] == 'ld' or n[0] in OPENK:
                return True
            return n[0] == 'fn' and n[1] not in FREE | {'abs'}
        return [n for n in nodes(t) if op(n)]


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from subterms(x)


def goals(ac, term):
    """(what, condition) of one access"""
    ix = [term(i) for i in ac.loc[2:]]
    n = term(ac.size)
    if ac.loc[0] == 'lin':
        n = scale(mul(n, add(n, ONE)), Fraction(1, 2))
    out = [('the index may be negative', lambda ix, n: ge(ix[0], ZERO))]
    if len(ix) == 2:
        out.append(('the interval may start after its end', lambda ix, n: ge(ix[1], ix[0])))
    out.append(('the index may reach the size', lambda ix, n: cmp_('<', ix[-1], n, True)))
    return ix, n, out


def cases(I, fs, ts, depth=6):
    """split the obligation on the integer conditionals inside its terms"""
    at = next((n for t in ts for n in nodes(t) if n[0] == 'ite' and not any(x[0] in ('ite', 'bv') for x in nodes(n[1]))), None)
    if at is None or depth == 0:
        yield fs, ts
        return
    for c, v in ((at[1], None), (b_not(at[1]), ZERO)):
        def g(n):
            return (at[2] if v is None else v) if n == at else None
        nf = [rewrite(f, g) for f in fs] + [c]
        if F in nf:
            continue
        yield from cases(I, nf, [rewrite(t, g) for t in ts], depth - 1)


# small well-formed hierarchies: (leaves, parents, path, children)
def hier(parents):
    n = len(parents)
    ch = [[i for i in range(n) if parents[i] == k] for k in range(n)]
    lv = len([k for k in range(n) if not ch[k]])
    path = list(range(lv))
    while len(path) < n:
        path.append(min(k for k in range(n) if k not in path and all(c in path for c in ch[k])))
    return lv, parents, path, ch


TREES = [hier(p) for p in ([-1], [1, -1], [2, 2, -1], [1, 2, -1], [3, 3, 4, 4, -1], [4, 3, 3, -1, 3], [2, 4, 2, -1, 3] if False else [4, 4, 3, -1, 3])]


def ev(t, env):
    """value of a term of input symbols at a small input; None when it has another atom"""
    if is_poly(t):
        r = Fraction(0)
        for m, c in t[1]:
            for i, e in m:
                v = eva(atom_of(i), env)
                if v is None:
                    return None
                c = c * v ** e
            r += c
        return r
    return None


def eva(a, env):
    if a in env:
        return env[a]
    if a[0] == 'fn' and a[1] in ('path', 'par', 'child', 'nch'):
        xs = [ev(x, env) for x in a[2:]]
        lv, par, path, ch = env['tree']
        if None in xs or any(x.denominator != 1 for x in xs) or not 0 <= xs[0] < len(par):
            return None
        i = int(xs[0])
        if a[1] == 'child':
            return Fraction(ch[i][int(xs[1])]) if 0 <= xs[1] < len(ch[i]) else None
        return Fraction({'path': path, 'par': par}[a[1]][i] if a[1] != 'nch' else len(ch[i]))
    if a[0] == 'ite':
        c = evb(a[1], env)
        return None if c is None else ev(a[2], env) if c else Fraction(0)
    if a[0] == 'sum':
        lo, hi = ev(a[2], env), ev(a[3], env)
        if lo is None or hi is None or hi - lo > 20:
            return None
        r = Fraction(0)
        for i in range(int(lo), int(hi) + 1):
            v = ev(a[4], {**env, a[1]: Fraction(i)})
            if v is None:
                return None
            r += v
        return r
    if a[0] == 'idiv':
        x, y = ev(a[1], env), ev(a[2], env)
        return Fraction(int(x / y)) if x is not None and y else None
    return None


def evb(b, env):
    h = b[0]
    if h in 'TF':
        return h == 'T'
    if h == 'not':
        x = evb(b[1], env)
        return None if x is None else not x
    if h in ('and', 'or'):
        xs = [evb(x, env) for x in b[1]]
        if h == 'and':
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if h == 'cmp':
        p = ev(b[2], env)
        return None if p is None else p > 0 if b[1][1:] == '>' else p >= 0 if b[1][1:] == '>=' else p == 0
    return None


def real(b):
    """a condition on quality numbers only"""
    if b[0] == 'bat' or b[0] == 'cmp':
        return (b[0] == 'bat' or b[1][0] == 'r') and not any(n[0] in ('unk', 'undef', 'in', 'fin', 'retin', 'Lx', 'iv') and n[0] != 'iv' for n in nodes(b))
    if b[0] == 'not':
        return real(b[1])
    return b[0] in ('and', 'or') and all(real(x) for x in b[1])


GLOB = {single(x) for x in (PL, H, L, N, V, R, DI, DJ, DK)}


def closed(op, fs, ix, n, ls):
    """why a failing obligation is not fully described by input symbols and loop counters (then nothing is reported); else the connected facts"""
    ts = list(ix) + [n]
    for t in ts:
        o = op.openatoms(t)
        if o:
            return 'not modelled: ' + show(o[0])[:80], None

    def ats(t):
        return {x for x in nodes(t) if x[0] in ('sym', 'iv', 'fn', 'partf', 'ld') or x[0] in OPENK}
    comp = set().union(*[ats(t) for t in ts]) - GLOB
    rel = [f for f in fs if ats(f) <= GLOB and f not in BASE and not real(f)]
    pool = [f for f in fs if f not in rel and f not in BASE and not real(f)]
    ch = True
    while ch:
        ch = False
        for f in list(pool):
            if ats(f) & comp:
                pool.remove(f)
                if real(f):
                    continue
                rel.append(f)
                comp |= ats(f) - GLOB
                ch = True
    for f in rel:
        for x in nodes(f):
            if x not in op.chains and x[0] in ('unk', 'undef', 'in', 'fin', 'retin', 'Lx') or x[0] == 'ld' and isinstance(x[1], tuple):
                return 'path condition not modelled: ' + show(f)[:80], None
    for Lp in ls:
        iv = Lp.ivatom if not is_poly(Lp.ivatom or ONE) else single(Lp.ivatom)
        if getattr(Lp, 'problem', None):
            return 'loop not modelled', None
        for x in Lp.exits if iv in comp else ():
            if x.get('cond') is None or any(op.openatoms(op.term(c)) for c in conj(x['cond']) if not real(c)):
                return 'loop with other exits', None
        if Lp.ivatom is None and getattr(Lp, 'exits', None):
            return 'loop without counter', None
    return None, rel


def reach(op, at, env):
    """values a chained loop variable takes at a small input (cuts free within their range)"""
    v0, ve, heads = op.chains[at]
    cuts = sorted({n for n in nodes(ve) if n[0] == 'fn' and n[1] == 'cut'}, key=str)
    nn = int(env[single(N)])
    done, todo = set(), [ev(v0, env)]
    while todo:
        v = todo.pop()
        if v is None or v in done or len(done) > 20:
            continue
        done.add(v)
        if not 0 <= v < nn:
            continue
        e2 = dict(env)
        e2[at] = v
        if any(evb(h, e2) is False for h in heads) or any(ev(c[2], e2) != v for c in cuts):
            continue
        for cv in range(int(v), nn):
            for c in cuts:
                e2[c] = Fraction(cv)
            todo.append(ev(ve, e2))
    return {v for v in done if v is not None}


def earlier(op, ls, env):
    """some enclosing loop would have ended before this iteration"""
    for Lp in ls:
        iv = Lp.ivatom if not is_poly(Lp.ivatom or ONE) else single(Lp.ivatom)
        at = [a for a in env if isinstance(a, tuple) and a[0] == 'iv' and iv is not None and a[1] % 1000 == iv[1] and a[2:] == iv[2:]]
        if not at or not Lp.exits:
            continue
        lo = ev(op.term(Lp.lo), env)
        if lo is None:
            return True
        for x in Lp.exits:
            c = op.term(x['cond'])
            j = lo
            while j < env[at[0]]:
                if evb(c, {**env, iv: j}) is True:
                    return True
                j += 1
    return False


def witness(op, rel, ix, n, g, ls=()):
    """a small well-formed input at which the facts hold and the obligation fails"""
    ts = [t for t in rel] + list(ix) + [n]
    free = sorted({x for t in ts for x in nodes(t) if x[0] in ('iv', 'partf') or x in op.chains or x[0] == 'sym' and x not in GLOB or x[0] == 'fn' and x[1] in ('cut', 'dcut', 'leafpart')}, key=str)
    if len(free) > 5:
        return None
    gl = g(ix, n)
    for tr in TREES:
        for nn in (1, 2, 3):
            env = {'tree': tr, single(H): Fraction(len(tr[1])), single(L): Fraction(tr[0]), single(R): Fraction(tr[1].index(-1)), single(N): Fraction(nn), single(V): Fraction(2), single(DI): Fraction(2), single(DJ): Fraction(2), single(DK): Fraction(2)}
            env[single(PL)] = Fraction(nn - 1)
            top = max(nn, len(tr[1]))

            def go(k):
                # prune on the facts that are already decided
                if any(evb(f, env) is False for f in rel):
                    return False
                if k == len(free):
                    return all(evb(f, env) is True for f in rel) and evb(gl, env) is False and not earlier(op, ls, env)
                for v in sorted(reach(op, free[k], env)) if free[k] in op.chains else range(-1, top + 1):
                    env[free[k]] = Fraction(v)
                    if go(k + 1):
                        return True
                    del env[free[k]]
                return False
            if go(0):
                return 'for example with %d leaves of %d nodes, length %d%s' % (tr[0], len(tr[1]), nn, ''.join(', %s = %s' % (show(A(x)), env[x]) for x in free))
    return None


def confirm(op, fs, ix, n, ls, bad):
    """(reason why not reported or None, witness, what)"""
    for m, g in bad:
        if op.I.entails(list(fs), b_not(g(ix, n))) and not op.I.entails(list(fs), F):
            return None, 'whenever it is reached', m
    w, rel = closed(op, fs, ix, n, ls)
    if w:
        # the first iteration of the innermost loop
        Lp = ls[-1] if ls else None
        if Lp is not None and Lp.ivatom is not None and Lp.lo is not None and Lp.hi is not None and not getattr(Lp, 'problem', None):
            iv = single(Lp.ivatom) if is_poly(Lp.ivatom) else Lp.ivatom
            v = op.term(Lp.lo if getattr(Lp, 'dir', 1) == 1 else Lp.hi)
            sb = lambda t: rewrite(t, lambda a: v if a == iv else None)
            f1 = [sb(b) for b in fs]
            fx = Facts(op.I, [b for b in f1 if b != T], [sb(x) for x in list(ix) + [n]])
            for m, g in bad:
                if F not in f1 and fx.ent(b_not(g([sb(x) for x in ix], sb(n)))) and not fx.ent(F) and all(fx.ent(b) for b in f1):
                    return None, 'in the first iteration, %s = %s' % (show(A(iv)), show(v)), m
        return w, None, bad[0][0]
    rel = [b for b in rel if not contains(b, lambda x: x == single(fn('visited so far')))]
    for m, g in bad:
        wit = witness(op, rel, ix, n, g, ls)
        if wit:
            return None, wit, m
    return 'no small input found', None, bad[0][0]


def args_of(f):
    return [(i, p) for i, p in enumerate(f['ps']) if re.match(r'^(const )?(unsigned )?(int|long|size_t|unsigned)', p['t']) and '&' not in p['t'].replace('const', '')]


def sites(ops, key, d=3):
    """(facts, integer arguments, loops) of the activations of a recursive helper, from its outside callers inwards"""
    level = []
    me = None
    for f, rec, op in ops:
        if isinstance(op, str):
            continue
        if f['key'] == key:
            me = op
            continue
        if rec:
            continue
        for e, ls in op.flat:
            if e.kind == 'call' and getattr(e, 'key', None) == key:
                level.append((op.facts(e, ls, []), {i: op.term(a) for i, a in enumerate(e.args) if is_poly(a)}, ls, op))
    out = list(level)
    for k in range(1, d):
        nxt = []
        for fs, av, ls, op in level:
            for e, ls2 in me.flat:
                if e.kind == 'call' and getattr(e, 'key', None) == key:
                    r = lambda t: activation(me, t, av, k)
                    nf = [r(b) for b in me.facts(e, ls2, [])]
                    if F not in nf and len(nxt) < 40:
                        nxt.append((fs + nf, {i: r(me.term(a)) for i, a in enumerate(e.args) if is_poly(a)}, list(ls) + list(ls2), op))
        out += nxt
        level = nxt
    return out


def activation(op, t, av, k):
    ps = {('sym', i, p['n']): av.get(i) for i, p in args_of(op.f)}

    def g(n):
        if n in ps:
            return ps[n] if ps[n] is not None else A(('unk', 'argument', 0))
        if n[0] == 'iv':
            return A(('iv', n[1] + 1000 * k) + tuple(n[2:]))
        return None
    return rewrite(t, g)


def judge(C, op, contract, seen, exact=True, ops=()):
    f = op.f
    for e, ls in op.flat:
        if e.kind == 'access' and getattr(e, 'found', None) is not None:
            # the result of a lookup is read: the key was in the map
            site = '%s:%s' % (frontend.rel(e.file or f.get('file') or ''), e.line)
            fs = op.facts(e, ls, contract)
            if not any(b == F for b in fs):
                ok = b_and(*fs, b_not(e.found)) == F or b_and(e.guard, b_not(e.found)) == F
                seen.setdefault((site, str(fam(e.loc))), []).append(('ok' if ok else 'und', f, '%s of %s' % (show(e.val) if is_poly(e.val) else 'element', show_loc(e.loc[1])), 'the key may not be in the map'))
            continue
        if e.kind != 'access' or e.size is None:
            continue
        ix, n, gs = goals(e, op.term)
        if op.Rl.built and f.get('cls') == op.Rl.meta and op.Rl.container(op.I, e.loc[1], f) == 'path' and contains(n, lambda x: x[0] == 'sum') and ls:
            n = fn('visited so far')
        fs = op.facts(e, ls, contract)
        if any(b == F for b in fs):
            continue
        site = '%s:%s' % (frontend.rel(e.file or f.get('file') or ''), e.line)
        what = '%s of %s' % ('[%s]' % ', '.join(show(i) for i in ix), show_loc(e.loc[1]))
        key = (site, str(fam(e.loc)))
        res = ('ok', f, what, None)
        for cf, ts in cases(op.I, fs, ix + [n]):
            cx, cn = ts[:-1], ts[-1]
            Fx = Facts(op.I, cf, ts)
            bad = [(m, g) for m, g in gs if not Fx.ent(g(cx, cn))]
            if not bad or Fx.ent(F):
                continue
            w, wit, msg = confirm(op, cf, cx, cn, ls, bad) if exact else ('depends on the arguments', None, bad[0][0])
            if not exact:
                # the activations reached from the outside callers
                for sf, av, sl, so in sites(ops, f['key']):
                    r = lambda t: activation(op, t, av, 100)
                    tt = [r(t) for t in ts]
                    ff = sf + [r(b) for b in cf if not any(b is c for c in contract)]
                    if F in ff:
                        continue
                    for cf2, tt2 in cases(op.I, ff, tt):
                        Fy = Facts(op.I, cf2, tt2)
                        bad2 = [(m, g) for m, g in bad if not Fy.ent(g(tt2[:-1], tt2[-1]))]
                        if bad2 and not Fy.ent(F):
                            w2, wit2, m2 = confirm(op, cf2, tt2[:-1], tt2[-1], list(sl) + list(ls), bad2)
                            if w2 is None:
                                w, wit, msg = None, '%s, called with (%s)' % (wit2, ', '.join(show(x) for _, x in sorted(av.items()))), m2
                                break
                    if w is None:
                        break
            res = ('bad' if w is None else 'und', f, what, '%s (size %s)%s' % (msg, show(cn), ': ' + (w or wit)))
            if w is None:
                break
        seen.setdefault(key, []).append(res)


def assigned(C, key, seen=None):
    """members (of whatever object) a function and the functions it calls may assign"""
    c = C.P.__dict__.setdefault('_assigned', {})
    top = seen is None
    if top and key in c:
        return c[key]
    seen = set() if top else seen
    g = C.P.functions.get(key)
    if g is None or g.get('b') is None or key in seen:
        return set()
    seen.add(key)
    out = set()

    def target(t):
        while isinstance(t, dict):
            k = t.get('k')
            if k == 'mem':
                out.add(t['rc'] + '::' + t['n'])
                return
            t = t.get('e') if k in ('cast', 'un') else t.get('obj') if k == 'call' else t.get('a') if k in ('asg', 'cond', 'idx') else None

    def walk(n):
        if isinstance(n, list):
            for x in n:
                walk(x)
        elif isinstance(n, dict):
            k = n.get('k')
            if k == 'asg':
                target(n['a'])
            elif k == 'un' and n['op'] in ('++', '--', '&'):
                target(n['e'])
            elif k == 'call':
                if n.get('f') in C.P.functions and C.P.functions[n['f']].get('b') is not None:
                    out.update(assigned(C, n['f'], seen))
                elif not n.get('const'):
                    target(n.get('obj'))
                    for a in n.get('args') or []:
                        target(a) if n.get('op') else None
                for a, pr in zip(n.get('args') or [], n.get('pr') or []):
                    if pr == 1:
                        target(a)
            for x in n.values():
                if isinstance(x, (dict, list)):
                    walk(x)
    walk(g['b'])
    if top:
        c[key] = out
    return out


def opaques(C, f, rec):
    out = heavy(C, f)
    for k in C.P.reach(f['key']):
        g = C.P.functions[k]
        if k != f['key'] and g.get('ctor') and not g.get('implicit') and re.search(r'::[OHD]Partition$', g.get('cls') or ''):
            out.add(k)
    return out if rec else out - {f['key']}


def analysed(C):
    c = C.P.__dict__.setdefault('_memops', {})
    if c:
        return c['ops']
    Rl = Roles(C)
    fams = []
    for n in COMPUTE:
        q = C.cls(n)
        fams += [x for x in [q] + C.P.derived(q) if x not in fams]
    pub = declared(C)
    ops = []
    for k, f in sorted(C.P.functions.items()):
        if f.get('b') is None or f.get('implicit') or f.get('dtor') or not (f.get('file') or '').startswith(os.path.join(frontend.REPO, 'src')):
            continue
        if f.get('cls') and f['cls'] not in fams or 'UpperTriangular' in f['q']:
            continue
        rec = C.P.recursive(k)
        ints = [p for p in f['ps'] if re.match(r'^(const )?(unsigned )?(int|long|size_t|unsigned)', p['t']) and '&' not in p['t'].replace('const', '')]
        if not rec and k not in pub:
            continue
        ops.append((f, rec))
    out = []
    for f, rec in ops:
        try:
            out.append((f, rec, Op(C, Rl, f, opaques(C, f, rec), ('utm', 'tradeoff') if not (f.get('cls') or '').endswith('Tradeoff') else ('utm',))))
        except (Undecided, RecursionError) as e:
            out.append((f, rec, str(e)))
    c['ops'] = out
    return out


def contracts(C, ops):
    """what holds for the integer arguments of every recursive helper at all of its call sites (greatest set preserved by the calls)"""
    cand = {}
    recs = {f['key']: (f, op) for f, rec, op in ops if rec and not isinstance(op, str)}
    for k, (f, op) in recs.items():
        ps = args_of(f)
        cs = []
        for i, p in ps:
            a = lambda xs, i=i: xs[i]
            cs.append((('ge0', i), lambda xs, i=i: ge(xs[i], ZERO)))
            for nm, u in (('H', H), ('N', N), ('L', L), ('V', V), ('I', DI), ('J', DJ), ('K', DK)):
                cs.append((('lt' + nm, i), lambda xs, i=i, u=u: cmp_('<', xs[i], u, True)))
            for j, q in ps:
                if i != j:
                    cs.append((('le', i, j), lambda xs, i=i, j=j: cmp_('<=', xs[i], xs[j], True)))
        cand[k] = dict(cs)
    def own(k):
        f = recs[k][0]
        xs = {i: A(('sym', i, p['n'])) for i, p in args_of(f)}
        return [c(xs) for c in cand[k].values()]
    changed = True
    while changed:
        changed = False
        for f, rec, op in ops:
            if isinstance(op, str):
                continue
            contract = own(f['key']) if f['key'] in recs else []
            for e, ls in op.flat:
                if e.kind != 'call' or getattr(e, 'key', None) not in recs:
                    continue
                g = recs[e.key][0]
                vals = [op.term(a) if isinstance(a, tuple) else a for a in e.args]
                fs = op.facts(e, ls, contract)
                if any(b == F for b in fs):
                    continue
                Fx = Facts(op.I, fs, [v for v in vals if is_poly(v)])
                for ck, c in list(cand[e.key].items()):
                    try:
                        ok = all(is_poly(vals[i]) for i in ck[1:]) and Fx.ent(c(vals))
                    except IndexError:
                        ok = False
                    if not ok:
                        del cand[e.key][ck]
                        changed = True
    return {k: own(k) for k in recs}


def rule_bounds(C):
    """every element access of a container lies inside it, for all well-formed inputs; recursive helpers under the strongest contract their callers keep"""
    ops = analysed(C)
    con = contracts(C, ops)
    seen, num_ = {}, {}
    n = 0
    for f, rec, op in ops:
        if isinstance(op, str):
            C.und('bounds.' + f['key'], 'not analysed: ' + op, C.where(f))
            continue
        n += 1
        judge(C, op, con.get(f['key'], []), seen, exact=not rec, ops=ops)
    for (site, loc), rs in sorted(seen.items()):
        bads = [r for r in rs if r[0] == 'bad']
        unds = [r for r in rs if r[0] == 'und']
        num_[site] = num_.get(site, 0) + 1
        oid = 'bounds.%s.%d' % (site, num_[site])
        if bads:
            C.bad(oid, '%s: element %s: %s' % (bads[0][1]['q'].replace(NS, ''), bads[0][2], bads[0][3]), site)
        elif unds:
            C.und(oid, '%s: element %s: %s' % (unds[0][1]['q'].replace(NS, ''), unds[0][2], unds[0][3]), site)
        else:
            C.ok(oid, rs[0][2], site)
    C.ok('bounds.all', '%d operations, %d access sites' % (n, len(seen)))


RULES = {'C25': [rule_bounds]}
