"""C03: hierarchy metadata."""
from .core import *

MD = 'HValuesMetaData'


def conts(C, I, c):
    """storage locations behind the getters"""
    out = {}
    for nm, g in (('path', 'getPath'), ('children', 'getChildren'), ('size', 'getSize'), ('parents', 'getParents')):
        r = I.call(C.meth(c, g, 0)['key'], cls=c)
        out[nm] = I.canon(r.loc) if isinstance(r, LV) else None
    return out


def rule_setpath(C):
    """worklist construction of path, sizes and children: initialisation, per-node steps, order condition, idempotence"""
    c = C.cls(MD)
    f = C.meth(c, 'setPath', 0)
    I = C.interp()
    par = ('idx', None, None)
    ps = I.call(C.meth(c, 'getParents', 0)['key'], cls=c)
    PAR = I.canon(ps.loc)
    HS = I.call(C.meth(c, 'getHsize', 0)['key'], cls=c)
    LS = I.call(C.meth(c, 'getLeaveSize', 0)['key'], cls=c)
    I.events = []
    I.call(f['key'], cls=c)
    C.used(I, f)
    w = C.where(f)
    K = conts(C, I, c)
    if I.unknown or None in K.values():
        C.und('model', 'setPath not fully modelled: %s' % I.unknown[:2], w)
        return
    PATH, CH, SZ = K['path'], K['children'], K['size']
    parent = lambda x: A(('ld', ('idx', PAR, x), 0))
    evs = list(flat(I.events))
    lows = {}
    # invariant of the constructors (obligation 'nodes'): one entry of the parent list per node
    facts0 = [cmp_('>=', LS, ONE, True), cmp_('>=', HS, LS, True), cmp_('==', A(('ld', ('size', PAR), 0)), HS, True)]

    # ---- nothing of an earlier computation survives
    for nm, loc in (('path', PATH), ('children', CH), ('size', SZ)):
        first = None
        for e, loops in evs:
            if e.loc is not None and (e.loc == loc or loc in prefixes(e.loc) or e.kind == 'copy' and e.loc == loc):
                first = (e, loops)
                break
        if first is None:
            C.bad('fresh.' + nm, '%s is never computed' % nm, w)
        elif first[0].kind in ('clear', 'init', 'copy', 'move') and first[0].loc == loc and not first[1] and first[0].guard == T:
            C.ok('fresh.' + nm, '%s starts empty' % nm, C.evwhere(first[0]))
        elif first[0].kind in ('push', 'write') :
            C.bad('fresh.' + nm, '%s still holds its earlier content when it is extended: computing the metadata twice gives something else' % nm, C.evwhere(first[0]))
        else:
            C.und('fresh.' + nm, 'first effect %s' % first[0].kind, C.evwhere(first[0]))

    # ---- the worklist loop
    W = None
    for e in I.events:
        if isinstance(e, Loop) and any(x.kind == 'push' and x.loc == PATH and contains(x.val, lambda n: n[0] == 'ld' and n[1][0] == 'idx' and n[1][1] == PATH) for x, _ in flat(e.body)):
            if W is not None:
                C.und('worklist', 'several worklist loops', w)
                return
            W = e
    if W is None:
        C.und('worklist', 'no worklist over the path recognised', w)
        return
    ww = '%s:%s' % (C.where(f).split(':')[0], W.line)
    iv = ('iv', W.id, None)
    body = list(flat(W.body))
    X = PX = None
    for e, loops in body:
        if e.kind == 'push' and e.loc == PATH:
            s = single(e.val)
            if s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PAR:
                PX, X = e.val, s[1][2]
    if X is None:
        C.bad('worklist.push', 'the value appended to the path is not the parent of a visited node', ww)
        return
    sx = single(X)
    if not (sx and sx[0] == 'ld' and sx[1][0] == 'idx' and sx[1][1] == PATH):
        C.und('worklist', 'visited node %s' % show(X), ww)
        return
    pos = sx[1][2]
    if not (single(pos) and single(pos)[0] == 'iv' and single(pos)[1] == W.id and W.dir == 1 and W.lo == ZERO):
        C.bad('worklist.order', 'the worklist does not visit the path from its first entry in order (position %s from %s)' % (show(pos), show(W.lo)), ww)
    else:
        C.ok('worklist.order', 'visits the path from its first entry, one after the other', ww)
    IV = pos
    root = cmp_('==', PX, num(-1), True)
    nonroot = b_not(root)
    # termination: at the root, or when all nodes are processed
    exits = [x for x in W.exits]
    how = None
    ctxg = None        # condition already ensured by the loop condition
    heads = [x for x in exits if (x.get('kind') if isinstance(x, dict) else x[0]) == 'head']
    ex = [exit_cond(x) for x in exits]
    # 'no entry left': cannot happen before the node without parent is reached in a tree
    at = [e.at for e, _ in body if e.kind == 'push' and e.loc == PATH]
    starve = cmp_('>=', IV, at[0], True) if at else F
    ex = [x for x in [simp(I, y, [b_not(starve)]) if y != starve else F for y in ex] if x != F]
    if ex and all(b_equiv(x, root) for x in ex) and W.hi is None:
        how = 'stops at the node without parent'
    elif W.hi is not None and (W.hi == sub(HS, num(2)) or W.hi == sub(HS, ONE)) and all(b_equiv(x, root) for x in ex):
        how = 'stops after all nodes'
    elif W.hi is None and ex:
        C.und('worklist.end', 'exit conditions %s' % [show(x) for x in ex][:3], ww)
    else:
        if W.hi is not None and const(sub(W.hi, HS)) is not None and const(sub(W.hi, HS)) != -1:
            C.bad('worklist.end', 'the worklist runs up to entry %s of %s nodes' % (show(W.hi), show(HS)), ww)
        else:
            C.und('worklist.end', 'bound %s, exits %s' % (show(W.hi) if W.hi is not None else None, [show(x) for x in ex][:3]), ww)
    if how:
        C.ok('worklist.end', how, ww)

    def cond_rest(g):
        """guard without the nonroot condition (assumed inside the loop)"""
        return b_and(*[x for x in conj(simp(I, g, [nonroot, b_not(starve)])) if x != T]) if g != T else T

    # ---- pending counters
    dec = pend = None
    pushes = [(e, l) for e, l in body if e.kind == 'push' and e.loc == PATH]
    for e, l in body:
        if e.kind == 'write' and e.loc[0] in ('idx', 'at') and e.loc[2] == PX and e.loc[1] not in (SZ, CH, PATH):
            dec, pend = e, e.loc[1]
    if len(pushes) == 1 and dec is None and not hasunk(cond_rest(pushes[0][0].guard)) and only_known(cond_rest(pushes[0][0].guard), SZ, PX):
        C.bad('worklist.push', 'a node enters the path when %s; required: when its last child has been visited' % show(pushes[0][0].guard), C.evwhere(pushes[0][0]))
    elif len(pushes) != 1 or dec is None:
        C.und('worklist.pending', 'pending counter not recognised', ww)
    else:
        e = pushes[0][0]
        ds = [x for x, _ in body if x.kind == 'write' and x.loc[0] in ('idx', 'at') and x.loc[1] == pend]
        old = [n for n in nodes(dec.val) if n[0] == 'ld' and n[1] == dec.loc]
        step = const(sub(dec.val, A(old[0]))) if old else None
        init = pend_init(I, pend, PAR, HS, parent, evs, W, facts0)
        if len(ds) != 1 or step is None or cond_rest(dec.guard) != T:
            C.bad('worklist.pending', 'the pending counter of the parent is not changed exactly once per visited child (%s := %s if %s)' % (show(dec.loc), show(dec.val), show(dec.guard)), C.evwhere(dec)) if not hasunk(dec.val) else C.und('worklist.pending', 'not modelled', C.evwhere(dec))
        elif step == -1:
            # counts down from the number of children
            want = cmp_('==', dec.val, ZERO, True)
            check_push(C, I, e, want, nonroot, cond_rest)
            if init == 'children':
                C.ok('worklist.init', 'pending starts as the number of children of every node', ww)
            elif init is None:
                C.und('worklist.init', 'initial pending counts not recognised', ww)
            else:
                C.bad('worklist.init', 'pending does not start as the number of children: %s' % init, ww)
        elif step == 1:
            C.und('worklist.push', 'counting up: %s' % show(e.guard), C.evwhere(e))
        else:
            C.bad('worklist.pending', 'pending changes by %s per visited child' % step, C.evwhere(dec))

    # ---- sizes
    sz = [e for e, _ in body if e.kind == 'write' and e.loc[0] in ('idx', 'at') and e.loc[1] == SZ]
    mine = [e for e in sz if e.loc[2] == PX]
    if not mine or len(mine) != len(sz):
        if sz:
            C.bad('size.target', 'sizes are accumulated at %s instead of the parent of the visited node' % show(sz[0].loc[2]), C.evwhere(sz[0]))
        else:
            C.und('size.target', 'sizes are not accumulated in the worklist', ww)
    else:
        cov = F
        for e in mine:
            sl = [n for n in nodes(e.val) if n[0] == 'ld' and n[1] == (e.loc[0], SZ, X)]
            ol = [n for n in nodes(e.val) if n[0] == 'ld' and n[1] == e.loc]
            g = cond_rest(e.guard)
            has = [n for n in nodes(g) if n[0] == 'has' and n[1] == SZ and n[2] == PX]
            rest = e.val
            for n in sl[:1]:
                rest = sub(rest, A(n))
            for n in ol[:1]:
                rest = sub(rest, A(n))
            cov = b_or(cov, g)
            if not sl:
                C.bad('size.step', 'the parent\'s size is not increased by the visited node\'s size: %s := %s' % (show(e.loc), show(e.val)), C.evwhere(e)) if not hasunk(e.val) else C.und('size.step', 'not modelled', C.evwhere(e))
            elif rest != ZERO:
                C.bad('size.step', 'the parent\'s size becomes %s' % show(e.val), C.evwhere(e)) if not hasunk(e.val) else C.und('size.step', 'not modelled', C.evwhere(e))
            elif not ol:
                # overwriting: allowed only where the parent has no size yet
                if has and (I.entails(conj(g), cmp_('==', ite(('bat', has[0]), ONE, ZERO), ZERO, True)) or b_and(g, ('bat', has[0])) == F):
                    C.ok('size.step', 'the first child starts the size of its parent', C.evwhere(e))
                else:
                    C.bad('size.step', 'the parent\'s size is overwritten instead of accumulated when %s' % show(g), C.evwhere(e))
            else:
                C.ok('size.step', 'the visited node\'s size is added to its parent\'s', C.evwhere(e))
        if b_equiv(cov, T):
            C.ok('size.cover', 'every visited child contributes', ww)
        else:
            C.bad('size.cover', 'a child contributes to its parent only when %s' % show(cov), ww)
    # leaves
    lw = [(e, l) for e, l in evs if e.kind == 'write' and e.loc[0] in ('idx', 'at') and e.loc[1] == SZ and W not in l]
    span(C, I, 'size.leaves', [(e, l) for e, l in lw if e.val == ONE], lambda e: e.loc[2], ZERO, sub(LS, ONE), 'every leaf has size one', ww, facts0)
    for e, l in lw:
        if e.val != ONE and e.val != ZERO:
            C.bad('size.leaves', '%s starts with size %s' % (show(e.loc[2]), show(e.val)), C.evwhere(e)) if not hasunk(e.val) else C.und('size.leaves', 'not modelled', C.evwhere(e))
    # path starts with the leaves in order
    lp = [(e, l) for e, l in evs if e.kind == 'push' and e.loc == PATH and W not in l]
    span(C, I, 'path.leaves', lp, lambda e: e.val, ZERO, sub(LS, ONE), 'the path starts with the leaves', ww, facts0)

    # ---- children lists
    cp = [(e, l) for e, l in evs if e.kind == 'push' and e.loc[0] in ('idx', 'at') and e.loc[1] == CH]
    for e, l in cp:
        tgt, v = e.loc[2], e.val
        if W in l:
            if tgt == PX and v == X and cond_rest(e.guard) == T:
                C.ok('children', 'every visited node is entered once under its parent', C.evwhere(e))
            elif hasunk(v) or hasunk(tgt):
                C.und('children', 'not modelled', C.evwhere(e))
            else:
                C.bad('children', 'children[%s] receives %s when %s; required: children[parent of the node] receives the node, for every node with a parent' % (show(tgt), show(v), show(e.guard)), C.evwhere(e))
        else:
            nd = v
            if tgt == parent(nd) and len(l) == 1 and single(nd) and single(nd)[0] == 'iv':
                g = b_equiv(e.guard, b_not(cmp_('==', parent(nd), num(-1), True)))
                if l[0].lo == ZERO and l[0].hi == sub(HS, ONE) and g:
                    C.ok('children', 'every node with a parent is entered once under it', C.evwhere(e))
                elif not hasunk(e.guard):
                    C.bad('children', 'nodes %s..%s are entered when %s' % (show(l[0].lo), show(l[0].hi) if l[0].hi is not None else None, show(e.guard)), C.evwhere(e))
            else:
                C.und('children', 'children[%s] receives %s' % (show(tgt), show(v)), C.evwhere(e))
    if not cp:
        C.und('children', 'no child is entered', w)
    if len(cp) > 1:
        C.bad('children.once', 'children are entered at %d places' % len(cp), C.evwhere(cp[1][0])) if all(W in l for _, l in cp) and not exclusive(I, cp) else C.und('children.once', 'several places', C.evwhere(cp[1][0]))
    nch = simp(I, I.size(CH), facts0 + [cmp_('>=', LS, ZERO, True)])
    m = [e for e, _ in evs if e.kind in ('init', 'clear') and e.loc == CH]
    judge(C, I, 'children.count', I.size(CH), HS, facts0, 'number of children lists', w)
    # lists start empty
    for e, l in evs:
        if e.kind == 'push' and e.loc == CH and isinstance(e.val, tuple) and e.val[0] == 'ptr':
            ini = [x for x, _ in evs if x.kind == 'init' and x.loc == e.val[1]]
            if ini:
                judge(C, I, 'children.empty', ini[-1].size, ZERO, (), 'length of a new children list', C.evwhere(e))

    # ---- root
    r = I.call(C.meth(c, 'getRoot', 0)['key'], cls=c)
    last = sub(I.size(PATH), ONE)
    s = single(r) if is_poly(r) else None
    if s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PATH and s[1][2] == last:
        C.ok('root', 'the root is the last entry of the path', w)
    elif s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PATH and single(s[1][2]) and single(s[1][2])[0] in ('fin',) and how == 'stops at the node without parent':
        C.ok('root', 'the root is the entry the worklist stopped at', w)
    elif s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PATH and s[1][2] == sub(HS, ONE):
        C.ok('root', 'the path lists every node once, so entry hsize-1 is its last', w)
    elif s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PATH and s[1][2] != last:
        C.bad('root', 'the root is taken from path entry %s, not from the last one (%s)' % (show(s[1][2]), show(last)), w) if not hasunk(s[1][2]) or True and const(sub(s[1][2], last)) not in (None, 0) else C.und('root', 'path entry %s' % show(s[1][2]), w)
    elif is_poly(r) and not hasunk(r):
        if s and s[0] == 'ld' and s[1] == ('fld', ('this',), s[1][2] if len(s[1]) > 2 else None):
            C.bad('root', 'the root is not computed', w)
        elif not contains(r, lambda n: n[0] in ('idx', 'at', 'sum')):
            C.bad('root', 'the root is taken to be %s whatever the tree' % show(r), w)
        else:
            C.und('root', 'the root is %s' % show(r), w)
    else:
        C.und('root', 'not modelled', w)


def same(I, facts, a, b):
    return a == b or is_poly(a) and is_poly(b) and I.entails(facts, cmp_('==', a, b, True))


def only_known(g, SZ, PX):
    """the guard depends on nothing but whether the parent has been met before"""
    def go(t):
        if not isinstance(t, tuple) or not t or t == PX:
            return True
        if t[0] == 'P':
            return all(go(atom_of(i)) for i in atoms(t))
        if t[0] == 'ld' or t[0] == 'has' and (t[1] != SZ or t[2] != PX):
            return False
        if t[0] == 'has':
            return True
        return all(go(x) for x in t)
    return go(g)


def exclusive(I, ps):
    return all(I.entails(list(conj(a.guard)) + list(conj(b.guard)), F) for k, (a, _) in enumerate(ps) for b, _ in ps[k + 1:])


def exit_cond(x):
    if isinstance(x, dict):
        return x.get('cond') or x.get('guard')
    if isinstance(x, (tuple, list)):
        for y in x:
            if is_bool(y):
                return y
    return getattr(x, 'guard', F)


def check_push(C, I, e, want, nonroot, cond_rest):
    g = cond_rest(e.guard)
    if b_equiv(g, cond_rest(want)) or b_equiv(g, want):
        C.ok('worklist.push', 'a node enters the path exactly when its last child has been visited', C.evwhere(e))
    elif hasunk(g):
        C.und('worklist.push', 'not modelled', C.evwhere(e))
    else:
        C.bad('worklist.push', 'a node enters the path when %s; required: when its last child has been visited (%s)' % (show(g), show(want)), C.evwhere(e))


def pend_init(I, pend, PAR, HS, parent, evs, W, facts):
    """'children' when pend[p] starts as the number of children of p, a description of the defect, or None"""
    init = False
    for e, l in evs:
        if W in l:
            continue
        if e.kind in ('init', 'clear', 'copy') and e.loc == pend:
            if e.kind == 'init' and e.val == ZERO and not l:
                if not same(I, facts, e.size, HS):
                    return 'only %s counters for %s nodes' % (show(e.size), show(HS))
                init = True
            elif e.kind == 'copy':
                s = e.val[1] if isinstance(e.val, tuple) and e.val[0] == 'ptr' else None
                init = init or any(x.kind == 'init' and x.loc == s and x.val == ZERO and same(I, facts, x.size, HS) for x, _ in evs)
        elif e.kind == 'write' and e.loc[0] in ('idx', 'at') and e.loc[1] == pend:
            if e.val == ZERO and len(l) == 1 and single(e.loc[2]) == None:
                continue
            if e.val == ZERO:
                init = True
                continue
            s = single(e.loc[2])
            if not (s and s[0] == 'ld' and s[1][0] == 'idx' and s[1][1] == PAR and len(l) == 1):
                return None
            h = s[1][2]
            if not (single(h) and single(h)[0] == 'iv' and single(h)[1] == l[0].id):
                return None
            old = [n for n in nodes(e.val) if n[0] == 'ld' and n[1] == e.loc]
            if not old or sub(e.val, A(old[0])) != ONE:
                return 'pending[%s] := %s' % (show(e.loc[2]), show(e.val))
            lo, hi = sorted_range(l[0])
            if lo != ZERO or hi is None or not same(I, facts, hi, sub(HS, ONE)):
                return 'children counted among nodes %s..%s only' % (show(lo), show(hi) if hi is not None else '?')
            if not b_equiv(e.guard, b_not(cmp_('==', parent(h), num(-1), True))) and not b_equiv(e.guard, cmp_('>=', parent(h), ZERO, True)):
                return 'a child is counted when %s' % show(e.guard)
            return 'children' if init else None
    return None


def sorted_range(L):
    return (L.lo, L.hi) if L.dir == 1 else (L.hi, L.lo) if L.hi is not None else (L.lo, L.hi)


def span(C, I, oid, items, key, lo, hi, msg, w, facts):
    """the events produce exactly the keys lo..hi in ascending order, each once"""
    if len(items) != 1:
        (C.und)(oid, '%s: %d places' % (msg, len(items)), w) if len(items) != 0 else C.bad(oid, '%s: never done' % msg, w)
        return
    e, l = items[0]
    k = key(e)
    if len(l) != 1:
        C.und(oid, msg + ': not a single loop', C.evwhere(e))
        return
    L = l[0]
    s = single(k) if is_poly(k) else None
    def within(a, b):
        return b_and(cmp_('>=', k, a, True), cmp_('<=', k, b, True))
    if s and s[0] == 'iv' and s[1] == L.id and L.dir == 1 and L.hi is not None and not L.exits and I.entails(list(facts) + list(conj(within(L.lo, L.hi))) + list(conj(e.guard)), within(lo, hi)) and I.entails(list(facts) + list(conj(within(lo, hi))), b_and(within(L.lo, L.hi), e.guard)):
        C.ok(oid, msg, C.evwhere(e))
    elif not is_poly(k) or hasunk(k) or L.hi is None:
        C.und(oid, msg + ': not modelled', C.evwhere(e))
    elif is_poly(k) and 'iv' in [n[0] for n in nodes(k)]:
        C.bad(oid, '%s: required for %s..%s, done for %s with index %s..%s when %s' % (msg, show(lo), show(hi), show(k), show(L.lo), show(L.hi), show(e.guard)), C.evwhere(e))
    else:
        C.und(oid, msg + ': key %s' % show(k), C.evwhere(e))


def rule_source(C):
    """the metadata is built from the given leaf count and parent list, and is built at construction"""
    c = C.cls(MD)
    for ctor in C.ctors(c):
        if len(ctor['ps']) != 2:
            continue
        I = C.interp(opaque=[c + '::setPath'])
        ls = A(('sym', 'leaves', 'leaves'))
        I.call(ctor['key'], cls=c, args={0: ls})
        C.used(I, ctor)
        w = C.where(ctor)
        src = ('arg', 1)
        judge(C, I, 'leaves', I.call(C.meth(c, 'getLeaveSize', 0)['key'], cls=c), ls, (), 'leaf count', w)
        judge(C, I, 'nodes', I.call(C.meth(c, 'getHsize', 0)['key'], cls=c), A(('ld', ('size', src), 0)), (), 'node count', w)
        p = I.call(C.meth(c, 'getParents', 0)['key'], cls=c)
        if isinstance(p, LV) and I.canon(p.loc) == src:
            C.ok('parents', 'the given parent list', w)
        else:
            C.und('parents', 'parent list not modelled', w)
        k = [e for e, l in flat(I.events) if e.kind == 'call' and e.guard == T and not l]
        sp = [e for e in k if 'setPath' in str(getattr(e, 'q', '') or getattr(e, 'callee', '') or e.__dict__)]
        if sp:
            C.ok('built', 'the metadata is computed at construction', w)
        else:
            J = C.interp()
            J.call(ctor['key'], cls=c)
            if (C.meth(c, 'setPath', 0)['key'] in J.inlined) or any(e.kind == 'push' for e, _ in flat(J.events)):
                C.ok('built', 'the metadata is computed at construction', w)
            else:
                C.bad('built', 'the constructor does not compute the metadata', w)
    for cn in ('HValues', 'DValues'):
        k = C.cls(cn)
        for ctor in C.ctors(k):
            I = C.interp(opaque=[c + '::setPath'])
            pv = [i for i, x in enumerate(ctor['ps']) if strip(x['t']).startswith('std::vector<int')]
            if len(pv) != 1:
                continue
            I.call(ctor['key'], cls=k)
            w = C.where(ctor)
            md = I.call(C.meth(k, 'getMetaData', 0)['key'], cls=k)
            if not isinstance(md, LV):
                C.und(cn + '.meta', 'not modelled', w)
                continue
            p = I.call(C.meth(c, 'getParents', 0)['key'], this=md.loc, cls=c)
            if isinstance(p, LV) and I.canon(p.loc) == ('arg', pv[0]):
                C.ok(cn + '.parents', 'metadata of the given parent list', w)
            elif isinstance(p, LV) and not I.unknown:
                C.bad(cn + '.parents', 'metadata built from %s' % show(I.canon(p.loc)), w)
            else:
                C.und(cn + '.parents', 'not modelled', w)
            ls = I.call(C.meth(c, 'getLeaveSize', 0)['key'], this=md.loc, cls=c)
            want = [i for i, x in enumerate(ctor['ps']) if x['n'] and 'lea' in x['n'].lower()]
            i = want[0] if want else 0
            judge(C, I, cn + '.leaves', ls, A(('sym', i, ctor['ps'][i]['n'])), (), 'leaf count of the metadata', w)
            C.used(I, ctor)


RULES = {'C03': [rule_setpath, rule_source]}
