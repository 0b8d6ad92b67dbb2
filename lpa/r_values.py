"""C01: value containers."""
from .core import *

KINDS = {'O': 'OValues', 'H': 'HValues', 'D': 'DValues'}
PARENTS = 'std::vector<int, std::allocator<int>>'


def nesting(t):
    t = strip(t)
    d = 0
    while t.startswith('std::vector<'):
        d += 1
        t = strip(targs(t)[0])
    return d, t


def chain(loc, idx):
    for i in idx:
        loc = ('idx', loc, i)
    return loc


def containers(C):
    """(class, kind, depth, value ctor, size ctor)"""
    out = []
    for k, base in KINDS.items():
        b = C.cls(base)
        for c in sorted(C.P.derived(b)):
            cs = C.ctors(c)
            vc = [f for f in cs if f['ps'] and nesting(f['ps'][0]['t'])[1] == 'double']
            sc = [f for f in cs if f['ps'] and nesting(f['ps'][0]['t']) == (0, 'unsigned int')]
            if len(vc) != 1 or len(sc) != 1:
                raise Undecided('constructors of ' + c)
            out.append((c, k, nesting(vc[0]['ps'][0]['t'])[0], vc[0], sc[0]))
    for n in ('OValuesN1', 'OValuesN2', 'OValuesN3', 'OValuesN4', 'HValuesN1', 'HValuesN2', 'HValuesN3', 'HValuesN4', 'DValuesN2', 'DValuesN3', 'DValuesN4'):
        if NS + n not in [o[0] for o in out]:
            raise Anchor(NS + n)
    return out


def series_dims(kind, depth):
    return list(range(0, depth - 1)) if kind == 'O' else list(range(1, depth)) if kind == 'H' else list(range(1, depth - 1))


def unflatten(n, dims):
    """row-major coordinates of flat index n"""
    out = []
    for p in range(len(dims)):
        w = ONE
        for d in dims[p + 1:]:
            w = mul(w, d)
        q = idiv(n, w) if w != ONE else n
        out.append(q if p == 0 else mod(q, dims[p]))
    return out


def rule_values(C):
    for c, k, depth, vc, sc in containers(C):
        get = [f for f in C.meths(c, 'operator()') if len(f['ps']) == depth]
        put = [f for f in C.meths(c, 'operator()') if len(f['ps']) == depth + 1]
        if len(get) != 1 or len(put) != 1:
            raise Anchor(c + '::operator()')
        get, put = get[0], put[0]
        for ctor, byval in ((vc, True), (sc, False)):
            one(C, c, k, depth, ctor, byval, get, put)


def build(C, c, ctor, byval, depth, kind):
    I = C.interp(opaque=[NS + 'HValuesMetaData::setPath'])
    I.call(ctor['key'], this=('this',), cls=c)
    if byval:
        src = ('arg', 0)
        dims = []
        loc = src
        for d in range(depth):
            dims.append(A(('ld', ('size', loc), 0)))
            loc = ('idx', loc, ZERO)
    else:
        names = [A(('sym', i, p['n'] or 'arg%d' % i)) for i, p in enumerate(ctor['ps'])]
        ns = depth
        dims = names[:ns]
    facts = [cmp_('>=', d, ONE, True) for d in dims]
    assume(I, facts)
    return I, dims, facts


def coords(f, n, tag='q'):
    return [A(('sym', (tag, i), (f['ps'][i]['n'] or 'arg%d' % i) + '_' + tag)) for i in range(n)]


def one(C, c, k, depth, ctor, byval, get, put):
    w = C.where(ctor)
    base = '%s[%s]' % (c.split('::')[-1], 'values' if byval else 'sizes')
    if not byval and len([p for p in ctor['ps'] if strip(p['t']) == 'unsigned int']) != depth:
        raise Undecided('size constructor of ' + c)
    I, dims, facts = build(C, c, ctor, byval, depth, k)
    sd = series_dims(k, depth)
    cs = coords(get, depth)
    facts_in = list(facts)
    # 1 stored value at a coordinate tuple
    g = I.call(get['key'], cls=c, tag='q')
    want = A(('ld', chain(('arg', 0), cs), 0)) if byval else ZERO
    judge(C, I, base + '.get', g, want, facts, 'value read at a coordinate tuple after construction', C.where(get))
    C.used(I, ctor, get)
    # 2 reported sizes
    prod = ONE
    for d in sd:
        prod = mul(prod, dims[d])
    reports = [('getVsize', prod)]
    if k in ('O', 'D'):
        reports.append(('getOsize', dims[depth - 1]))
    for name, pos in (('getI', 0), ('getJ', 1), ('getK', 2)):
        if C.meths(c, name) and pos < len(sd):
            reports.append((name, dims[sd[pos]]))
    for name, want in reports:
        f = C.meth(c, name, 0)
        v = I.call(f['key'], cls=c)
        judge(C, I, '%s.%s' % (base, name), v, want, facts, '%s() after construction' % name, C.where(f))
        C.used(I, f)
    if k in 'HD':
        md = C.meth(c, 'getMetaData', 0)
        m = I.call(md['key'], cls=c)
        if isinstance(m, LV):
            H = C.cls('HValuesMetaData')
            ls = C.meth(H, 'getLeaveSize', 0)
            v = I.call(ls['key'], this=m.loc)
            judge(C, I, base + '.leaves', v, dims[0], facts, 'leaf count handed to the hierarchy', C.where(ls))
            pa = C.meth(H, 'getParents', 0)
            pv = I.call(pa['key'], this=m.loc)
            ai = len(ctor['ps']) - 1
            if isinstance(pv, LV):
                x = A(('sym', 'x', 'x'))
                v = I.load(I.elem(pv.loc, x, 'int').loc, 'int')
                judge(C, I, base + '.parents', v, A(('ld', ('idx', ('arg', ai), x), 0)), facts, 'parent list handed to the hierarchy', C.where(ctor))
                judge(C, I, base + '.hsize', I.size(pv.loc), A(('ld', ('size', ('arg', ai)), 0)), facts, 'length of the parent list handed to the hierarchy', C.where(ctor))
            else:
                C.und(base + '.parents', 'parent list not modelled', w)
        else:
            C.und(base + '.leaves', 'metadata not modelled', w)
    # 3 shape of a container created from sizes
    if not byval and g == ZERO:
        st = I.st.copy()
        fl = storage(I, C, c, get)
        if fl is None:
            C.und(base + '.shape', 'storage not modelled', w)
        else:
            loc = fl
            for d in range(depth):
                v = I.size(loc)
                judge(C, I, '%s.shape%d' % (base, d), v, dims[d], facts, 'allocated extent of dimension %d' % d, w)
                loc = I.resolve(('idx', I.canon(loc), cs[d]))
    # 4/6 flat view: write at the n-th combination, read through the flat view; and construction -> flat view
    n = A(('sym', ('n', 0), 'n'))
    h = A(('sym', ('h', 0), 'h'))
    o = A(('sym', ('o', 0), 'o'))
    fl_facts = facts + [cmp_('>=', x, ZERO, True) for x in (n, h, o)] + [cmp_('<', n, prod, True)]
    ser = unflatten(n, [dims[d] for d in sd]) if sd else []
    at = ([h] if k in 'HD' else []) + ser + ([o] if k in 'OD' else [])
    def flat():
        if k == 'O':
            f = C.meth(c, 'operator[]', 1)
            r = I.call(f['key'], cls=c, args={0: n})
        else:
            f = C.meth(c, 'operator[]', 1)
            pr = I.call(f['key'], cls=c, args={0: h})
            if not isinstance(pr, LV):
                return None, f
            pf = C.meth(strip(pr.t), 'operator[]', 1)
            C.used(I, pf)
            r = I.call(pf['key'], this=pr.loc, cls=strip(pr.t), args={0: n})
        C.used(I, f)
        if k in 'OD':
            if not isinstance(r, LV):
                return None, f
            if k in 'OD':
                sz = I.size(r.loc)
                judge(C, I, base + '.flatlen', sz, dims[depth - 1] if not byval else None or flatlen(at), fl_facts, 'length of one series in the flat view', C.where(f))
            r = I.load(I.elem(r.loc, o, 'double').loc, 'double')
        return r, f
    def flatlen(at):
        return A(('ld', ('size', chain(('arg', 0), at[:-1])), 0))
    r, f = flat()
    want = A(('ld', chain(('arg', 0), at), 0)) if byval else ZERO
    judge(C, I, base + '.flat', r, want, fl_facts, 'n-th combination of the flat view after construction', C.where(f))
    # 5 write then read
    val = A(('sym', ('val', 0), 'val'))
    n0 = len(I.events)
    I.call(put['key'], cls=c, args=dict(enumerate(at + [val])))
    C.used(I, put)
    ws = [e for e in I.events[n0:] if isinstance(e, Ev) and e.kind in ('write', 'clobber', 'push', 'clear', 'init') and e.loc and root(e.loc)[0] not in ('tmp', 'var')]
    loops = [e for e in I.events[n0:] if isinstance(e, Loop)]
    g2 = I.call(get['key'], cls=c, args=dict(enumerate(at)))
    judge(C, I, base + '.readback', g2, val, fl_facts, 'value read after a write at the same coordinates', C.where(put))
    if loops:
        C.und(base + '.frame', 'the writer loops', C.where(put))
    elif I.unknown:
        C.und(base + '.frame', 'not modelled', C.where(put))
    else:
        frame(C, base, ws, at, put)
    r, f = flat()
    judge(C, I, base + '.flatback', r, val, fl_facts, 'flat view at the n-th combination after a write at those coordinates', C.where(f))


def frame(C, base, ws, at, put):
    """one write, at a location that keeps every coordinate apart"""
    if len(ws) != 1 or ws[0].guard != T:
        if not ws:
            C.bad(base + '.frame', 'the writer stores nothing', C.where(put))
        elif len(ws) == 1:
            C.bad(base + '.frame', 'the writer stores only if %s' % show(ws[0].guard), C.evwhere(ws[0]))
        else:
            C.bad(base + '.frame', 'the writer changes %d locations: %s' % (len(ws), ', '.join(show(e.loc) for e in ws)[:300]), C.evwhere(ws[1]))
        return
    idx = []
    l = ws[0].loc
    while l[0] in ('idx', 'fld'):
        if l[0] == 'idx':
            idx.append(l[2])
        l = l[1]
    if sorted(map(repr, idx)) == sorted(map(repr, at)):
        C.ok(base + '.frame', 'distinct coordinates address distinct elements', C.evwhere(ws[0]))
    elif all(contains(('x',) + tuple(idx), lambda n, a=single(x) or x: n == a) for x in at):
        C.und(base + '.frame', 'element address %s' % show(ws[0].loc), C.evwhere(ws[0]))
    else:
        C.bad(base + '.frame', 'the element written does not depend on every coordinate: %s' % show(ws[0].loc), C.evwhere(ws[0]))


def storage(I, C, c, get):
    """the outermost container read by the accessor"""
    J = C.interp(opaque=[NS + 'HValuesMetaData::setPath'])
    r = J.call(get['key'], cls=c, tag='q')
    a = single(r) if is_poly(r) else None
    if a is None or a[0] != 'ld':
        return None
    l = a[1]
    n = 0
    while l[0] == 'idx':
        l = l[1]
        n += 1
    return l if n == len(get['ps']) else None


RULES = {'C01': [rule_values]}
