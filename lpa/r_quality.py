"""C05 C06 C07: gains and losses of every area come from exactly its own values."""
import copy
from .core import *
from .r_part import Meta
from . import terms as TT
from .r_dp import (unver, keyseq, solve, Store, Net, net, loops_of, regions_of, position, bypos, leaves, rekey, bvfacts, region_facts,
                   node_facts, K, HS_, PAR, II, JJ, isqual_)

KIND = {'O': 'OQualities', 'H': 'HQualities', 'D': 'DQualities'}


def up(t, f):
    """rebuild bottom-up, f(atom) -> term or None"""
    memo = {}

    def g(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in memo:
            return memo[t]
        if t[0] == 'P':
            m = {}
            for i in atoms(t):
                at = atom_of(i)
                r = h(at)
                if r != A(at):
                    m[i] = r
            r = subst_atoms(t, m) if m else t
        elif t[0] == 'cmp':
            p = g(t[2])
            r = t if p == t[2] else TT.recmp(t[1], p)
        elif t[0] == 'and':
            r = b_and(*[g(x) for x in t[1]])
        elif t[0] == 'or':
            r = b_or(*[g(x) for x in t[1]])
        elif t[0] == 'not':
            r = b_not(g(t[1]))
        else:
            r = tuple(g(x) if isinstance(x, tuple) else x for x in t)
        memo[t] = r
        return r

    def h(at):
        parts = tuple(g(x) if isinstance(x, tuple) else x for x in at)
        r = f(parts)
        if r is not None:
            return r
        if at[0] == 'ite':
            return ite(parts[1], parts[2], ZERO)
        if parts == at:
            return A(at)
        from .core import _mkatom
        return _mkatom(parts)
    return g(t)


class QA:
    def __init__(s, C, kind, axioms):
        s.C, s.kind, s.p = C, kind, kind
        s.c = C.cls(KIND[kind])
        s.vc = C.cls(kind + 'Values')
        s.f = C.meth(s.c, 'computeQualities', 0)
        s.w = C.where(s.f)
        fl = {}
        for c in [s.c] + C.P.bases(s.c):
            for x in C.P.records.get(c, {}).get('fields', []):
                fl[x['n']] = (c, strip(x['t']))

        def one(pred, what):
            r = [(c, n) for n, (c, t) in fl.items() if pred(t)]
            if len(r) != 1:
                raise Undecided('%s of %s' % (what, s.c))
            return ('fld', ('this',), r[0][0] + '::' + r[0][1])
        s.vf = one(lambda t: t.startswith('std::shared_ptr') and s.vc in t, 'values')
        s.Vobj = ('deref', ('ldp', s.vf, 0))
        J = C.interp(('utm',))
        J.thisloc, J.thiscls = ('this',), s.c
        s.M = None
        if kind != 'O':
            s.M = Meta(C, J, one(lambda t: t == NS + 'HValuesMetaData', 'metadata'))
        s.vs = J.call(C.meth(s.vc, 'getVsize', 0)['key'], this=s.Vobj, cls=s.vc)
        s.os = None if kind == 'H' else J.call(C.meth(s.vc, 'getOsize', 0)['key'], this=s.Vobj, cls=s.vc)
        s.q = [n for n in (J.call(C.meth(s.c, 'getQualities', 0)['key'], cls=s.c),)][0]
        s.ax = [b_not(('bat', ('isnull', ('ldp', s.vf, 0)))), cmp_('>=', s.vs, ONE, True)] + axioms(s)
        if s.os is not None:
            s.ax.append(cmp_('>=', s.os, ONE, True))
        s.I = C.interp(('utm', 'entropy'), axioms=lambda seen: s.ax)
        s.I.call(s.f['key'], cls=s.c)
        C.used(s.I, s.f)
        for L in loops_of(s.I.events):
            if getattr(L, 'problem', None):
                raise Undecided('loop at %s: %s' % (L.where(), L.problem))
        s.evs = [(e, l) for e, l in flat(s.I.events)]
        s.ret = s.I.call(C.meth(s.c, 'getQualities', 0)['key'], cls=s.c)
        s.nk = {'O': 2, 'H': 1, 'D': 3}[kind]


def gather(d):
    """stores to accumulators and to the gain/loss of quality objects"""
    acc, qual = {}, {'gain': [], 'loss': []}
    Q = d.C.cls('Quality')
    from .r_norm import fields
    fl = {v: k for k, v in fields(d.C, d.I, None).items()}
    n = 0
    for u, top in enumerate(d.I.events):
        for e, l in flat([top]):
            n += 1
            e.seq = n
            if e.kind != 'write' or e.promoted or e.loc is None:
                continue
            if e.loc[0] == 'fld' and e.loc[2] in fl:
                r, ks = keyseq(e.loc[1])
                st = Store(e, l, r, [unver(k) for k in ks], u, n)
                qual[fl[e.loc[2]]].append(st)
                continue
            r, ks = keyseq(e.loc)
            if ks and r[0] in ('var', 'tmp', 'new') and is_poly(e.val):
                acc.setdefault(r, []).append(Store(e, l, r, [unver(k) for k in ks], u, n))
    return acc, qual


def node_of_read(d, at):
    """(node term, series term, instant term) of a value read, or None"""
    ks = []
    def f(n):
        return None
    t = at
    inst = None
    if d.kind == 'O' or d.kind == 'D':
        if t[0] != 'ld' or t[1][0] not in ('idx', 'at'):
            return None
        inst = t[1][2]
        t = t[1][1]
        while t[0] in ('deref', 'ldp', 'copy') or t[0] == 'cv':
            t = t[1]
    else:
        if t[0] in ('ld', 'cv'):
            t = t[1]
    if not (isinstance(t, tuple) and t and t[0] in ('call', 'fn', 'vcall')):
        return None
    if not contains(t, lambda n: n == ('ldp', d.vf, 0) or n == d.Vobj):
        return None
    ar = [x for x in t[1:] if isinstance(x, tuple)]
    args = []
    for x in ar:
        if x and isinstance(x[0], tuple) and x[0][0] in ('P', 'ptr'):
            args += list(x)
        else:
            args.append(x)
    ps = [x for x in args if is_poly(x)]
    if d.kind == 'O' and len(ps) == 1:
        return None, ps[0], inst
    if d.kind != 'O' and len(ps) == 2:
        return ps[0], ps[1], inst
    return None


def F(name, h, t):
    a = [x for x in (h, t) if x is not None]
    return fn(name, *a)


def area(name, h, a, b):
    """value (F) or entropy (G) of node h over the instants a..b"""
    if a is None:
        return F(name, h, None)
    return sub(F(name, h, add(b, ONE)), F(name, h, a))


def normal(d, t, facts, roles, named, single_node_leaf):
    """replace value reads and accumulator loads by the area they stand for; single_node_leaf: node terms known to be leaves"""
    I = d.I

    def leafnode(h):
        return d.kind == 'O' or h in single_node_leaf

    def f(at):
        if at[0] == 'ld':
            r, ks = keyseq(at[1])
            if r in roles and roles[r][0] and len(ks) == d.nk:
                nm = roles[r][0]
                if d.kind == 'O':
                    return area(nm, None, ks[0], ks[1])
                if d.kind == 'H':
                    return area(nm, ks[0], None, None)
                return area(nm, *ks)
            if r in roles and roles[r][1] and len(ks) == d.nk - 1 and d.kind != 'H':
                off = roles[r][1]
                h = None if d.kind == 'O' else ks[0]
                x = ks[-1]
                if off[1] == 'one':
                    return area(off[0], h, x, x)
                if off[1] == 'pre':
                    return sub(F(off[0], h, x), F(off[0], h, ZERO))
                if off[1] == 'inc':
                    return sub(F(off[0], h, add(x, ONE)), F(off[0], h, ZERO))
            if d.M and at[1][0] == 'at' and at[1][1] == d.M.size and leafnode(at[1][2]):
                return ONE
        v = node_of_read(d, at)
        if v is not None:
            h, k, t_ = v
            if leafnode(h) and k == d.ser:
                return area('F', h, t_, t_)
        if at[0] == 'fn' and at[1] == 'ER' and at[3] == ZERO:
            s_ = inst(at[2])
            if s_ and leafnode(s_[0]):
                return area('G', s_[0], s_[1], s_[1])
        if at[0] == 'fn' and at[1] == 'ER' and len(at) == 4:
            s_ = inst(at[2])
            if s_ and leafnode(s_[0]) and at[3] == area('G', s_[0], s_[1], s_[1]):
                return ZERO
        if at[0] == 'fn' and at[1] == 'DIV' and at[2] == ONE:
            s_ = inst(at[3])
            if s_ and leafnode(s_[0]) and at[4] == area('G', s_[0], s_[1], s_[1]):
                return ZERO
        if at[0] == 'sum':
            _, bv, lo, hi, body = at[:5]
            r = tele(bv, lo, hi, body)
            if r is not None:
                return r
        return None

    def inst(p):
        """p is the value of one leaf at one instant: (node, instant)"""
        if d.kind == 'H':
            a = single(p)
            return (a[2], None) if a is not None and a[0] == 'fn' and a[1] == 'F' else None
        fs = [atom_of(i) for i in atoms(p)]
        if len(fs) != 2 or any(a[0] != 'fn' or a[1] != 'F' for a in fs):
            return None
        for a in fs:
            h, t_ = (None, a[2]) if d.kind == 'O' else (a[2], a[3])
            if p == area('F', h, t_, t_):
                return h, t_
        return None

    def tele(bv, lo, hi, body):
        for nm in 'FG':
            fs = [atom_of(i) for i in atoms(body)]
            if not fs or any(a[0] != 'fn' or a[1] not in ('F', 'G') for a in fs):
                continue
            a = next((a for a in fs if a[1] == nm), None)
            if a is None:
                continue
            if d.kind != 'H':
                h = None if d.kind == 'O' else a[2]
                if body == area(nm, h, A(bv), A(bv)) and not (h is not None and contains(h, lambda n: n == bv)):
                    if I.entails(facts, cmp_('>=', hi, sub(lo, ONE), True)):
                        return area(nm, h, lo, hi)
                if body == scale(area(nm, h, A(bv), A(bv)), -1):
                    return scale(area(nm, h, lo, hi), -1)
            # over the children of a node
            if d.M:
                hs = set(a[2] for a in fs)
                if len(hs) == 1:
                    h = list(hs)[0]
                    x = single(h) if is_poly(h) else None
                    if x is not None and x[0] == 'ld' and x[1][0] == 'idx' and x[1][2] == A(bv) and x[1][1][0] == 'idx' and x[1][1][1] == d.M.children:
                        kids = x[1][1]
                        if lo == ZERO and hi == sub(A(('ld', ('size', kids), 0)), ONE):
                            par = kids[2]
                            return up(body, lambda n: fn(n[1], par, *n[3:]) if n[0] == 'fn' and n[1] in 'FG' and n[2] == h else None)
        return None
    return up(named(t), f)


def roles_of(d, acc):
    """F (sums of values) or G (sums of single-value entropies) for every accumulator"""
    roles = {}
    ent = set()
    ch = True
    def er0(t):
        return contains(t, lambda n: n[0] == 'fn' and n[1] == 'ER' and n[3] == ZERO)
    while ch:
        ch = False
        for r, ss in acc.items():
            if r in ent:
                continue
            for s in ss:
                if er0(s.val) or contains(s.val, lambda n: n[0] == 'ld' and keyseq(n[1])[0] in ent):
                    if not contains(s.val, lambda n: n[0] == 'fn' and n[1] in ('ER', 'DIV') and n[-1] != ZERO):
                        ent.add(r)
                        ch = True
                        break
    for r, ss in acc.items():
        nm = 'G' if r in ent else 'F'
        nk = len(ss[0].keys)
        roles[r] = (nm if nk == d.nk else None, None)
    return roles


def spec_regions(kind):
    if kind == 'O':
        return [None]
    return ['leaf', 'inner node', 'root', 'single node']


def times(d):
    if d.kind == 'H':
        return [('', [], None, None)]
    i, j, o = A(II), A(JJ), d.os
    ge = lambda a, b: cmp_('>=', a, b, True)
    return [('instant', [ge(i, ZERO), cmp_('==', j, i, True), ge(o, add(i, ONE)), ge(o, add(j, ONE))], i, j),
            ('interval', [ge(i, ZERO), ge(j, add(i, ONE)), ge(o, add(j, ONE))], i, j)]


def rule(C, kind):
    for name in spec_regions(kind):
        def ax(s, name=name):
            if s.M is None:
                return []
            return [sz for nm, sz, k in regions_of(s.M) if nm == name][0]
        d = QA(C, kind, ax)
        region(C, d, name)
        if name in (None, 'root'):
            results(C, d)


def unclosed(d, s):
    i = getattr(s.e, 'closed', None)
    if i is None:
        return s
    ins = [(e, l) for e, l in d.evs if e.kind == 'write' and e.promoted and e.loc == s.e.loc and any(L.id == i for L in l)]
    if len(ins) != 1 or [L.id for L in ins[0][1]][-1] != i:
        return s
    e, l = ins[0]
    L = l[-1]
    c = [v for m, v in (L.carried or {}).items() if m[0] == 'loc' and m[1] == e.loc]
    if len(c) != 1 or not is_poly(c[0][1]) or not is_poly(c[0][3]) or hasunk(sub(c[0][1], c[0][3])):
        return s
    x = copy.copy(e)
    x.val = add(A(('ld', unver(e.loc), 0)), sub(c[0][1], c[0][3]))
    r, ks = keyseq(e.loc[1])
    return Store(x, l, r, [unver(k) for k in ks], s.unit, e.seq)


def region(C, d, name):
    I, kind = d.I, d.kind
    base = kind + ('.' + name.replace(' ', '') if name else '')
    if I.unknown:
        C.und(base + '.model', str(I.unknown[:2]), d.w)
        return
    acc, qual = gather(d)
    d.ser = None
    # objects stored once when the qualities are created are their initial content
    work, created = {}, {}
    sl = None
    for m, ss in qual.items():
        work[m] = [s for s in ss if s.keys and not (s.root[0] == 'new' and not s.keys)]
    allq = work['gain'] + work['loss']
    if not allq:
        if name == 'single node' and kind == 'H':
            C.ok(base + '.trivial', 'a hierarchy of one node has gain and loss zero', d.w)
            return
        C.bad(base + '.none', 'no gain or loss is ever added', d.w)
        return
    # a sum that stays at one place is summarised behind its loop: look at what one pass adds instead
    for m in work:
        work[m] = [unclosed(d, s) for s in work[m]]
    allq = work['gain'] + work['loss']
    # the loop over the series
    tops = set(s.loops[0].id if s.loops else None for s in allq)
    if None in tops or len(tops) != 1:
        C.und(base + '.series', 'the qualities are not added up in one loop over the series', d.w)
        return
    L0 = allq[0].loops[0]
    if L0.ivatom is None or L0.lo is None or L0.hi is None or any(x.get('kind') != 'head' for x in L0.exits):
        C.und(base + '.series', 'loop over the series', L0.where())
        return
    reads = set()
    for e, l in d.evs:
        if e.val is not None and isinstance(e.val, tuple):
            for n in nodes(e.val):
                v = node_of_read(d, n) if n[0] in ('ld', 'cv', 'fn', 'call', 'vcall') else None
                if v:
                    reads.add(v[1])
    iv = A(L0.ivatom) if not is_poly(L0.ivatom) else L0.ivatom
    if not any(contains(k, lambda n: n == single(iv)) for k in reads) and not eqt(I, L0.hi, sub(d.vs, ONE), d.ax):
        C.und(base + '.series', 'the qualities are not added up in a loop over the series', L0.where())
        return
    d.ser = iv
    sfacts = d.ax
    if eqt(I, L0.lo, ZERO, sfacts) and eqt(I, L0.hi, sub(d.vs, ONE), sfacts):
        if name in (None, 'leaf'):
            C.ok(base + '.series', 'every series is visited once', L0.where())
    elif hasunk(L0.lo) or hasunk(L0.hi):
        C.und(base + '.series', 'series visited', L0.where())
    else:
        C.bad(base + '.series', 'the series %s to %s are visited, required 0 to the number of series minus one' % (show(L0.lo), show(L0.hi)), L0.where())
    g0 = simp(I, unver(L0.guard), d.ax)
    if g0 == F_ and name == 'single node':
        # nothing is added: right only where the area is trivial for every series
        if kind == 'H':
            C.ok(base + '.trivial', 'a hierarchy of one node has gain and loss zero', d.w)
            return
    if g0 != T:
        if g0 == F_:
            C.bad(base + '.guard', 'the qualities of a %s are not computed' % (name or 'sequence'), L0.where())
        else:
            C.und(base + '.guard', 'computed only when %s' % show(g0)[:200], L0.where())
        return
    # stores inside the series loop, with L0 taken off
    def inner(s):
        if not s.loops or s.loops[0] is not L0:
            return None
        x = Store(s.e, s.loops[1:], s.root, s.keys, s.unit, s.n)
        return x
    acc2 = {}
    for r, ss in acc.items():
        xs = [inner(s) for s in ss]
        if any(x is None for x in xs):
            if any(x is not None for x in xs):
                C.und(base + '.accumulators', 'accumulator also stored outside the loop over the series', d.w)
                return
            continue
        acc2[r] = xs
    q2 = {m: [inner(s) for s in ss] for m, ss in work.items()}
    if d.M:
        for r in acc2:
            acc2[r] = [x for s in acc2[r] for x in bypos(d, s)]
        for m in q2:
            q2[m] = [x for s in q2[m] for x in bypos(d, s)]
        if any(s.pos[0] is None for ss in list(acc2.values()) + list(q2.values()) for s in ss):
            bads = [s for ss in list(acc2.values()) + list(q2.values()) for s in ss if s.pos[0] is None]
            C.und(base + '.nodes', 'node visited at %s not modelled' % C.evwhere(bads[0].e), C.evwhere(bads[0].e))
            return
    if d.M:
        for s in [s for ss in list(acc2.values()) + list(q2.values()) for s in ss if s.pos[0] in ('own', 'parent')]:
            cs = d.ax + region_facts(I, s)
            if hasunk(b_and(*cs)):
                continue
            for out in (cmp_('>=', s.pos[1], d.M.nodes, True), cmp_('<', s.pos[1], ZERO, True)):
                if feasible(cs) and (I.entails(cs, out)):
                    C.bad(base + '.path', 'a node past the end of the path is visited when the hierarchy is a %s' % name if name == 'single node' else 'a node past the end of the path is visited', C.evwhere(s.e))
                    return
    roles = roles_of(d, acc2)
    for ss in list(acc2.values()) + list(q2.values()):
        for s in ss:
            if early(s.loops):
                cs = [x.get('cond') for L in s.loops for x in L.exits]
                cs = [c for c in cs if c is not None and hasdata(d, c, roles)]
                if cs and not any(hasunk(c) for c in cs) and not I.unknown:
                    C.bad(base + '.exit', 'what remains of a loop is left out when %s' % show(cs[0])[:300], C.evwhere(s.e))
                else:
                    C.und(base + '.exit', 'loop with early exit', C.evwhere(s.e))
                return
    kfacts = [x for x in regions_of(d.M) if x[0] == name][0][2] if d.M else []
    for tn, tf, i, j in times(d):
        facts = list(d.ax) + kfacts + tf
        if d.M:
            facts += node_facts(d.M, name)
        cellcheck(C, d, base + ('.' + tn if tn else ''), name, facts, i, j, acc2, q2, roles)


F_ = F
F_ = ('F',)


def cellcheck(C, d, oid, name, facts, i, j, acc, qual, roles):
    I, M, kind = d.I, d.M, d.kind
    H = A(HS_)
    node = H if M else None
    leaf = name in ('leaf', 'single node') or M is None
    syms = ([K] if M else []) + ([II, JJ] if i is not None else [])
    tk = [i, j] if i is not None else []
    inst = i is not None and I.entails(facts, cmp_('==', i, j, True)) or i is None

    def tnorm(t):
        """on instants j is i"""
        return substitute(t, {JJ: i}) if i is not None and inst else t

    def named(t):
        if M is None:
            return tnorm(t)
        def ispos(n):
            return n[0] == 'ld' and n[1][0] == 'idx' and n[1][1] == M.path and (n[1][2] == A(K) or I.entails(facts, cmp_('==', n[1][2], A(K), True)))
        t = rewrite(t, lambda n: H if ispos(n) else None)
        if name in ('root', 'single node'):
            t = rewrite(t, lambda n: H if n[0] == 'ld' and A(n) == M.root else None)
        t = rewrite(t, lambda n: A(PAR) if n == ('ld', ('idx', M.parents, H), 0) else None)
        return tnorm(t)

    def N(t):
        return normal(d, simp(I, t, facts), facts, roles, named, [H] if leaf else [])

    def keymap(kinds):
        def f(s):
            if M is None:
                return s.keys
            if s.pos[0] not in kinds:
                return None
            return [s.pos[1]] + s.keys[1:]
        return f
    own, par = keymap(('own',)), keymap(('parent',))

    def live(s, km):
        ks = km(s)
        if ks is None or len(ks) != len(syms):
            return False
        so = solve(s.loops, ks, syms)
        if so is None:
            return True
        return feasible(list(conj(so[0])) + list(conj(substitute(s.guard, so[1]))) + facts)
    direct = [s for ss in list(acc.values()) + list(qual.values()) for s in ss if M and s.pos[0] in ('direct', 'dparent') and not zero(s)]
    if direct and name in ('leaf', 'inner node', 'root'):
        s = direct[0]
        C.und(oid + '.walk', 'nodes visited in index order at %s' % C.evwhere(s.e), C.evwhere(s.e))
        return
    want = {nm: area(nm, node, i, tnorm(j) if j is not None else None) for nm in 'FG'}
    fin = {}
    for r, ss in acc.items():
        nm = roles[r][0]
        if nm is None:
            C.und(oid + '.accumulator', 'accumulator with other dimensions', C.evwhere(ss[0].e))
            return
        label = 'values' if nm == 'F' else 'single-value entropies'
        mine = [s for s in ss if live(s, own) and not zero(s)]
        # only stores of the area itself
        contrib = [s for s in ss if M and live_par(d, s, facts, i, j)]
        if mine:
            n = net(d, oid + '.' + label.split()[0], mine, syms, facts, r, C, ZERO if zeroed(d, r, ss) else None, own)
            if n is None:
                return
            fin[r] = n
            got = N(n.v)
            verdict(C, I, oid + '.sum.' + nm, got, want[nm], facts, 'the sum of %s of %s' % (label, what(name, inst, i)), C.evwhere(n.last.e))
            for s in n.stores:
                reads(C, d, oid, s, s.val, acc, roles, facts, live, own, par)
        elif name in ('inner node', 'root'):
            fin[r] = None
        else:
            fin[r] = None
            if used(r, qual, acc, live, own):
                C.bad(oid + '.sum.' + nm, 'the sum of %s of %s is used but never set' % (label, what(name, inst, i)), d.w)
        # contribution to the parent
        if M and name in ('leaf', 'inner node'):
            contributions(C, d, oid, name, r, ss, nm, label, facts, syms, i, j, N, want[nm], acc, roles, fin, live, own, par, inst, named)
    # gain and loss
    ln = ONE if i is None else sub(add(tnorm(j), ONE), i)
    size = ln if leaf else mul(ln, M.sz(H))
    trivial = leaf and inst
    spec = {'gain': ZERO if trivial else fn('ER', want['F'], want['G']),
            'loss': ZERO if trivial else fn('DIV', size, want['F'], want['G'])}
    for m in ('gain', 'loss'):
        total, last = ZERO, None
        for s in qual[m]:
            ks = own(s)
            if ks is None:
                if M and s.pos[0] == 'parent' and live_par(d, s, facts, i, j):
                    C.bad(oid + '.' + m, 'a %s is added to the parent of the node it belongs to' % m, C.evwhere(s.e))
                continue
            if len(ks) != len(syms):
                C.und(oid + '.' + m, 'quality cell', C.evwhere(s.e))
                return
            so = solve(s.loops, ks, syms)
            if so is None:
                C.und(oid + '.' + m, 'cell not linear in the loop variables', C.evwhere(s.e))
                return
            cond, sol, free = so
            cond = simp(I, named(simp(I, b_and(cond, substitute(s.guard, sol)), facts)), facts)
            if not feasible(list(conj(cond)) + facts):
                continue
            if free:
                C.bad(oid + '.' + m, 'the %s of %s is added more than once per series' % (m, what(name, inst, i)), C.evwhere(s.e))
                return
            v = substitute(s.val, sol)
            me = ('ld', substitute(unver(s.e.loc), sol), 0)
            dv = N(sub(v, A(me)))
            if not I.entails(facts, cond):
                if dv == ZERO:
                    continue
                if hasdata(d, cond, roles):
                    if thresholded(cond, v, me):
                        C.bad(oid + '.' + m, 'the %s of %s is added only when %s' % (m, what(name, inst, i), show(cond)[:300]), C.evwhere(s.e))
                        continue
                    C.und(oid + '.' + m, 'added only when %s' % show(cond)[:200], C.evwhere(s.e))
                    return
                dv = ite(cond, dv, ZERO)
            total = add(total, dv)
            last = s
            reads(C, d, oid, s, s.val, acc, roles, facts, live, own, par, fin)
        w = C.evwhere(last.e) if last else d.w
        if last is None and not trivial:
            C.bad(oid + '.' + m, 'the %s of %s is never added' % (m, what(name, inst, i)), w)
            continue
        verdict(C, I, oid + '.' + m, total, spec[m], facts, '%s added per series to %s' % (m, what(name, inst, i)), w)


def verdict(C, I, oid, got, want, facts, msg, w):
    if got == want or eqt(I, got, want, facts):
        C.ok(oid, msg, w)
    elif hasunk(got) or I.unknown or contains(got, lambda n: n[0] in ('best', 'bestarg', 'cv') and n[0] != 'cv'):
        C.und(oid, '%s: not modelled: %s' % (msg, show(got)[:200]), w)
    else:
        C.bad(oid, '%s: the code yields %s where the property requires %s (F, G: running sums of the values and of their single entropies)' % (msg, show(got)[:400], show(want)[:300]), w)


def thresholded(cond, v, me):
    """the increment is added only when it passes a limit other than zero"""
    b = cond
    if b[0] != 'cmp' or b[1] not in ('r>', 'r>='):
        return False
    dv = single(sub(v, A(me)))
    m = dict(b[2][1])
    k = m.pop((), 0)
    if dv is None or dv[0] != 'fn' or {atom_of(i)[:2] for i in atoms(b[2])} != {dv[:2]} or len(m) != 1:
        return False
    return min(m.values()) < 0 or k < 0


def hasdata(d, cond, roles):
    return contains(cond, lambda n: n[0] == 'ld' and keyseq(n[1])[0] in roles or n[0] in ('cv', 'fn', 'call') and n[0] != 'ite')


def zero(s):
    return s.val == ZERO


def what(name, inst, i):
    t = '' if i is None else ' at one instant' if inst else ' over an interval'
    return (('a %s' % name) if name else 'the sequence') + t


def used(r, qual, acc, live, own):
    for ss in qual.values():
        for s in ss:
            if live(s, own) and contains(s.val, lambda n: n[0] == 'ld' and keyseq(n[1])[0] == r):
                return True
    return False


def live_par(d, s, facts, i, j):
    if s.pos[0] != 'parent':
        return False
    syms = [K] + ([II, JJ] if i is not None else [])
    so = solve(s.loops, [s.pos[1]] + s.keys[1:], syms)
    if so is None:
        return True
    return feasible(list(conj(so[0])) + list(conj(substitute(s.guard, so[1]))) + facts)


def zeroed(d, r, ss):
    """is every cell of the accumulator zero at the start of a series?  (True, None: unknown, or the event that shows it is not)"""
    I = d.I
    inits = [(e, l) for e, l in d.evs if e.kind == 'init' and e.loc == r]
    if not inits:
        return None
    e, l = inits[-1]
    zs = [s for s in ss if zero(s)]
    L0 = d.L0 if hasattr(d, 'L0') else None
    if zs and len(zs[0].loops) > 0:
        ok = cover_zero(d, zs[0])
        if ok:
            return True
    if not l or not any(A(x.ivatom) == d.ser or x.ivatom == d.ser for x in l if x.ivatom is not None):
        return e
    if e.val == ZERO:
        return True
    ps = [(p, pl) for p, pl in d.evs if p.kind == 'push' and p.loc == r] or [(p, pl) for p, pl in d.evs if p.kind == 'write' and p.loc[0] == 'idx' and p.loc[1] == r and not is_poly(p.val)]
    if ps:
        v = ps[0][0].val
        o = root(v[1]) if isinstance(v, tuple) and v[0] == 'ptr' else None
        if o is not None and o[0] in ('tmp', 'new', 'var'):
            iv = [x for x, _ in d.evs if x.kind == 'init' and x.loc == o]
            if iv and iv[-1].val == ZERO:
                return True
            if iv and is_poly(iv[-1].val):
                return iv[-1]
    if isinstance(e.val, tuple) and e.val[0] == 'copy':
        o = e.val[1]
        iv = [x for x, _ in d.evs if x.kind == 'init' and x.loc == o]
        if iv and iv[-1].val == ZERO:
            return True
    if is_poly(e.val) and not hasunk(e.val):
        return e
    return None


def cover_zero(d, s):
    """does this store of zero reach every cell?"""
    I = d.I
    syms = [('sym', 'Z%d' % i, 'z%d' % i) for i in range(len(s.keys))]
    keys = list(s.keys)
    facts = list(d.ax)
    if d.M:
        facts += [cmp_('>=', A(syms[0]), ZERO, True), cmp_('<', A(syms[0]), d.M.nodes, True)]
    if d.kind != 'H':
        i, j = A(syms[-2]), A(syms[-1])
        facts += [cmp_('>=', i, ZERO, True), cmp_('>=', j, i, True), cmp_('<', j, d.os, True)]
    if d.M and s.pos[0] == 'own':
        keys[0] = s.pos[1]
    so = solve(s.loops, keys, syms)
    return so is not None and I.entails(facts, b_and(so[0], substitute(s.guard, so[1])))


def contributions(C, d, oid, name, r, ss, nm, label, facts, syms, i, j, N, want, acc, roles, fin, live, own, par, inst, named):
    """the area's own sum is added once to its parent's, which starts at zero"""
    I = d.I
    # areas of inner nodes computed from their own stores need no contribution
    z = zeroed(d, r, ss)
    total, last, n = ZERO, None, 0
    for s in ss:
        ks = par(s)
        if ks is None:
            continue
        so = solve(s.loops, ks, syms)
        if so is None:
            C.und(oid + '.parent.' + nm, 'contribution not linear', C.evwhere(s.e))
            return
        cond, sol, free = so
        cond = simp(I, named(simp(I, b_and(cond, substitute(s.guard, sol)), facts)), facts)
        if not feasible(list(conj(cond)) + facts):
            continue
        if free:
            C.bad(oid + '.parent.' + nm, 'the sum of %s of %s is added to its parent more than once' % (label, what(name, inst, i)), C.evwhere(s.e))
            return
        v = substitute(s.val, sol)
        me = ('ld', substitute(unver(s.e.loc), sol), 0)
        dv = N(sub(v, A(me)))
        if not I.entails(facts, cond):
            if hasdata(d, cond, roles):
                C.und(oid + '.parent.' + nm, 'added only when %s' % show(cond)[:200], C.evwhere(s.e))
                return
            dv = ite(cond, dv, ZERO)
        total = add(total, dv)
        last = s
        reads(C, d, oid, s, s.val, acc, roles, facts, live, own, par, fin)
    innerown = d.innerown = getattr(d, 'innerown', {})
    if last is None:
        # an inner node's area may be computed from its own cells instead
        if inner_own(d, r, ss, i, inst, own):
            C.ok(oid + '.parent.' + nm, 'inner areas are computed from the node\'s own cells', d.w)
            return
        C.bad(oid + '.parent.' + nm, 'the sum of %s of %s is never added to its parent' % (label, what(name, inst, i)), d.w)
        return
    w = C.evwhere(last.e)
    verdict(C, I, oid + '.parent.' + nm, total, want, facts, 'sum of %s that %s adds to its parent' % (label, what(name, inst, i)), w)
    if z is True:
        C.ok(oid + '.zero.' + nm, 'sums start at zero for every series', w)
    elif z is None:
        C.und(oid + '.zero.' + nm, 'start of the sums', w)
    else:
        C.bad(oid + '.zero.' + nm, 'the sums of %s do not start at zero for every series' % label, C.evwhere(z))


def inner_own(d, r, ss, i, inst, own):
    M, I = d.M, d.I
    k = A(K)
    fs = list(d.ax) + [cmp_('>=', k, M.leaves, True), cmp_('<=', k, sub(M.nodes, ONE), True)]
    if i is not None:
        fs += [cmp_('>=', A(II), ZERO, True), cmp_('<', A(JJ), d.os, True), cmp_('==', A(II), A(JJ), True) if inst else cmp_('<', A(II), A(JJ), True)]
    for s in ss:
        ks = own(s)
        if ks is None or zero(s):
            continue
        so = solve(s.loops, ks, [K] + ([II, JJ] if i is not None else []))
        if so and feasible(list(conj(so[0])) + fs):
            return True
    return False


def reads(C, d, oid, s, val, acc, roles, facts, live, own, par, fin=None):
    """every accumulator cell read has its final value"""
    I, M = d.I, d.M
    w = C.evwhere(s.e)
    seen = set()
    for a in nodes(val):
        if a[0] != 'ld':
            continue
        r, rk = keyseq(a[1])
        if r not in acc or a[1] == unver(s.e.loc) or (r, tuple(rk)) in seen:
            continue
        seen.add((r, tuple(rk)))
        pr = position(d, rk[0], d.ax) if M else None
        if M and pr[0] != 'own':
            if pr[0] == 'parent' and s.root == r:
                continue
            C.und(oid + '.order', 'cell of another node read', w)
            continue
        if M and s.pos[0] not in ('own', 'parent'):
            continue
        mykeys = ([s.pos[1]] + s.keys[1:]) if M else s.keys
        rf = list(d.ax) + region_facts(I, s) + bvfacts(val)
        res = True
        why = None
        for f in acc[r]:
            if zero(f) or f is s or f.e is s.e:
                continue
            b = precedes(d, s, f, rk, pr, rf)
            if b is not True and b != 'n/a':
                res, why = b, f
                if b is False:
                    break
        if res is True:
            C.ok(oid + '.order', 'sums are complete before they are used', w)
        elif res is None:
            C.und(oid + '.order', 'order of use and computation', w)
        else:
            C.bad(oid + '.order', 'a sum is used before %s has completed it' % C.evwhere(why.e), w)


def precedes(d, s, f, rk, pr, facts):
    """does every instance of store f into the cell read come before the current instance of s?  'n/a': f never writes that cell"""
    I, M = d.I, d.M
    common = []
    for a, b in zip(s.loops, f.loops):
        if a is not b:
            break
        common.append(a)
    syms = [('sym', 'R%d' % x, 'r%d' % x) for x in range(len(rk))]
    if M and f.pos[0] == 'parent':
        fk = [f.pos[1]] + f.keys[1:]
        so = solve(f.loops, fk, syms)
        if so is None:
            return None
        back = dict(zip(syms[1:], rk[1:]))
        # the contributing child sits at a smaller position
        cs = [substitute(c, back) for c in conj(b_and(so[0], substitute(f.guard, so[1])))]
        ch = A(syms[0])
        fs = facts + [cmp_('<', ch, pr[1], True), cmp_('>=', ch, ZERO, True), cmp_('>=', pr[1], M.leaves, True)]
        fs = fs + [c for c in cs if c[0] == 'cmp' and not contains(c, lambda n: n[0] == 'ld' and n[1][0] == 'idx')]
        if not feasible(fs):
            return 'n/a'
    else:
        if M and f.pos[0] != 'own':
            return None
        fk = ([f.pos[1]] + f.keys[1:]) if M else f.keys
        so = solve(f.loops, fk, syms)
        if so is None:
            return None
        rkk = ([pr[1]] + list(rk[1:])) if M else list(rk)
        back = dict(zip(syms, rkk))
        cs = [substitute(c, back) for c in conj(b_and(so[0], substitute(f.guard, so[1])))]
        fs = facts + [c for c in cs if c[0] == 'cmp' and not contains(c, lambda n: n[0] == 'ld' and n[1][0] == 'idx')]
        if not feasible(fs):
            return 'n/a'
    if so[2] and any(L in so[2] for L in common):
        return None
    for L in common:
        iv = L.ivatom if not is_poly(L.ivatom) else single(L.ivatom)
        there = substitute(so[1][iv], back)
        df = sub(there, A(iv))
        if I.entails(fs, cmp_('==', df, ZERO, True)):
            continue
        c = cmp_('<', df, ZERO, True) if L.dir > 0 else cmp_('>', df, ZERO, True)
        if I.entails(fs, c):
            return True
        return False
    return f.n < s.n


# ------------------------------------------------------------------ the result object
def results(C, d):
    """the qualities handed out are new objects with gain and loss zero before the first series, one per area"""
    I, kind = d.I, d.kind
    oid = kind + '.result'
    w = d.w
    acc, qual = gather(d)
    r = d.ret
    if isinstance(r, tuple) and r[0] == 'pite':
        r = simp(I, r, d.ax)
    q0 = [s for s in qual['gain'] if s.keys and any(x for x in s.loops)]
    roots = set(s.root for m in qual for s in qual[m] if s.keys)
    if len(roots) != 1:
        C.und(oid, 'qualities are added to %d containers' % len(roots), w)
        return
    R = list(roots)[0]
    r2 = simp(I, r, d.ax) if isinstance(r, tuple) else r
    if r2 == ('ptr', R):
        C.ok(oid + '.handed', 'the qualities computed are the ones handed out', w)
    elif R[0] == 'new' and isinstance(r2, tuple) and not hasunk(r2):
        C.bad(oid + '.handed', 'the qualities computed are not the ones handed out', w)
        return
    if R[0] != 'new':
        # kept from earlier: must be reset to zero before
        zs = [s for s in qual['gain'] + qual['loss'] if s.val == ZERO]
        if zs:
            C.und(oid + '.fresh', 'reset in place', w)
        elif contains(R, lambda n: n == d.q) or R[0] == 'deref' or R == ('deref', d.q):
            C.bad(oid + '.fresh', 'the gains and losses of a second computation are added to those of the first', w)
        else:
            C.und(oid + '.fresh', 'container of the qualities', w)
        return
    init = [(e, l) for e, l in d.evs if e.kind == 'init' and e.loc == R]
    if not init:
        C.und(oid + '.fresh', 'creation of the qualities', w)
        return
    e, l = init[-1]
    if l:
        C.und(oid + '.fresh', 'created in a loop', C.evwhere(e))
        return
    C.ok(oid + '.fresh', 'a new container on every computation', C.evwhere(e))
    want = d.os if kind == 'O' else d.M.nodes
    sz = e.size if getattr(e, 'size', None) is not None else I.load(('size', R), 'unsigned int')
    grown = [x.val for x, xl in d.evs if x.kind == 'write' and x.loc == ('size', R) and not xl and x.val is not None]
    if grown and any(x.kind == 'push' and x.loc == R for x, xl in d.evs):
        sz = grown[-1]
    verdict(C, I, oid + '.size', unver(sz), want, d.ax, 'number of %s' % ('elements' if kind == 'O' else 'nodes'), C.evwhere(e))
    if kind == 'O':
        objs(C, d, oid + '.objects', e.val, C.evwhere(e))
        return
    fills = [(x, xl, v) for x, xl, v in fill_events(I, R)]
    if len(fills) != 1 or not fills[0][1]:
        C.und(oid + '.objects', '%d places fill the container' % len(fills), w)
        return
    x, xl, v = fills[0]
    xw = C.evwhere(x)
    S = ('sym', 'Z0', 'z')
    key = x.loc[2] if x.kind == 'write' else None
    if key is None and len(xl) == 1 and xl[0].lo is not None:
        key = sub(A(xl[0].ivatom) if not is_poly(xl[0].ivatom) else xl[0].ivatom, xl[0].lo)
    if key is None or early(xl):
        C.und(oid + '.objects', 'fill loop', xw)
        return
    so = solve(list(xl), [key], [S])
    reg = [cmp_('>=', A(S), ZERO, True), cmp_('<', A(S), d.M.nodes, True)]
    if so is None:
        C.und(oid + '.objects', 'fill loop not linear', xw)
        return
    if I.entails(d.ax + reg, b_and(so[0], substitute(x.guard, so[1]))):
        C.ok(oid + '.every', 'every node gets an object', xw)
    elif hasunk(so[0]):
        C.und(oid + '.every', 'nodes that get an object', xw)
    else:
        C.bad(oid + '.every', 'not every node gets its own quality object', xw)
    fr = freshness(I, x, xl, v)
    if fr is False:
        C.bad(oid + '.own', 'nodes share one quality object', xw)
        return
    if fr is None:
        C.und(oid + '.own', 'objects of the nodes', xw)
        return
    C.ok(oid + '.own', 'one object per node', xw)
    o = root(v[1]) if v[0] == 'ptr' else None
    if kind == 'D':
        ii = [(y, yl) for y, yl in d.evs if y.kind == 'init' and y.loc == o]
        if not ii:
            C.und(oid + '.objects', 'matrix of a node', xw)
            return
        y = ii[-1][0]
        verdict(C, I, oid + '.dim', unver(y.size) if y.size is not None else None, d.os, d.ax, 'number of instants of a node\'s matrix', xw)
        objs(C, d, oid + '.objects', y.val, xw)
    elif v[0] == 'freshptr':
        objs(C, d, oid + '.objects', v, xw)
    else:
        from .r_norm import fields
        for m, fld in fields(C, I, None).items():
            zs = [y.val for y, yl in d.evs if y.kind == 'write' and y.loc == ('fld', o, fld)]
            if zs and all(z == ZERO for z in zs):
                C.ok(oid + '.start.' + m, '%s starts at zero' % m, xw)
            elif zs and not any(hasunk(z) for z in zs):
                C.bad(oid + '.start.' + m, '%s starts at %s' % (m, show(zs[-1])[:100]), xw)
            else:
                C.und(oid + '.start.' + m, 'start of the ' + m, xw)


def objs(C, d, oid, v, w):
    if isinstance(v, tuple) and v[0] == 'freshptr':
        C.ok(oid, 'every area has its own quality, starting at zero (matrix of pointers: C02, default quality: C20)', w)
    elif isinstance(v, tuple) and v[0] == 'ptr':
        C.bad(oid, 'all areas share one quality object', w)
    elif isinstance(v, tuple) and v[0] == 'null':
        C.bad(oid, 'areas have no quality object', w)
    else:
        C.und(oid, 'quality objects of the areas', w)


def rule_ordered(C):
    """ordered data: by induction over the interval, the sums are those of exactly the interval, gain/loss added once per series"""
    rule(C, 'O')


def rule_hier(C):
    """hierarchical data: sums of exactly the leaves below, contributions to the parent once and before use"""
    rule(C, 'H')


def rule_spatio(C):
    """spatiotemporal data: node and interval together"""
    rule(C, 'D')


RULES = {'C05': [rule_ordered], 'C06': [rule_hier], 'C07': [rule_spatio]}


def same_meta(C, I, oid, fld, srcs, w):
    """the metadata member is a copy of the source's"""
    got = Meta(C, I, fld)
    for s in srcs:
        want = Meta(C, I, s)
        r = all(unver(a) == unver(b) for a, b in ((got.root, want.root), (got.nodes, want.nodes), (got.leaves, want.leaves)))
        if r:
            C.ok(oid, 'the hierarchy is the one handed over', w)
            return
    if any(hasunk(x) for x in (got.root, got.nodes, got.leaves)) or I.unknown:
        C.und(oid, 'hierarchy of the object', w)
    elif unver(got.root) == A(('ld', ('fld', fld, got.root and single(got.root)[1][2]), 0)) if single(got.root) else False:
        C.bad(oid, 'the hierarchy of the object is never set', w)
    else:
        C.bad(oid, 'the hierarchy of the object is not the one handed over', w)


def member(C, c, pred):
    r = []
    for b in [c] + C.P.bases(c):
        for x in C.P.records.get(b, {}).get('fields', []):
            if pred(strip(x['t'])):
                r.append(('fld', ('this',), b + '::' + x['n']))
    if len(r) != 1:
        raise Undecided('members of ' + c)
    return r[0]


def sources(C, cname, kind, vals):
    """what the constructors keep: the values (qualities) handed over and their hierarchy"""
    c = C.cls(cname)
    n = 0
    for ctor in C.ctors(c):
        ts = [strip(p['t']) for p in ctor['ps']]
        I = C.interp(('utm',), opaque=[NS + 'HValuesMetaData::setPath'])
        I.call(ctor['key'], cls=c)
        C.used(I, ctor)
        w = C.where(ctor)
        oid = '%s.ctor(%s)' % (cname, ','.join(t.replace('std::', '').replace(NS, '')[:40] for t in ts))
        n += 1
        if I.unknown:
            C.und(oid, str(I.unknown[:2]), w)
            continue
        args = {i: ('arg', i) for i in range(len(ts))}
        for i, t in enumerate(ts):
            isq = 'Quality>' in t
            if isq or (t.startswith('std::shared_ptr') and 'Values' in t):
                f = member(C, c, (lambda x: isqual_(x)) if isq else (lambda x: x.startswith('std::shared_ptr') and 'Values' in x))
                got = unver(I.load(f, 'std::shared_ptr<X>'))
                if got == ('ldp', ('arg', i), 0) or got == ('ptrarg', i) or show(got) == 'arg(%d)' % i:
                    C.ok(oid + '.kept', 'the %s handed over are kept' % ('qualities' if isq else 'values'), w)
                elif hasunk(got):
                    C.und(oid + '.kept', 'member after construction', w)
                else:
                    C.bad(oid + '.kept', 'the object works on %s, not on the %s handed over' % (show(got)[:120], 'qualities' if isq else 'values'), w)
                if not isq and kind != 'O':
                    src = [('fld', ('deref', ('ldp', ('arg', i), 0)), b + '::' + x['n']) for b in [C.cls(kind + 'Values')] + C.P.bases(C.cls(kind + 'Values')) for x in C.P.records.get(b, {}).get('fields', []) if strip(x['t']) == NS + 'HValuesMetaData']
                    same_meta(C, I, oid + '.hierarchy', member(C, c, lambda x: x == NS + 'HValuesMetaData'), src, w)
            elif t.startswith(NS) and t.endswith('Qualities'):
                f = member(C, c, isqual_)
                J = C.interp(('utm',))
                want = unver(J.call(C.meth(t, 'getQualities', 0)['key'], this=('arg', i), cls=t))
                got = unver(I.load(f, 'std::shared_ptr<X>'))
                if got == want:
                    C.ok(oid + '.kept', 'the qualities handed over are kept', w)
                elif hasunk(got):
                    C.und(oid + '.kept', 'member after construction', w)
                else:
                    C.bad(oid + '.kept', 'the object works on %s, not on the qualities handed over' % show(got)[:120], w)
                if kind != 'O':
                    src = [('fld', ('arg', i), b + '::' + x['n']) for b in [t] for x in C.P.records.get(b, {}).get('fields', []) if strip(x['t']) == NS + 'HValuesMetaData']
                    same_meta(C, I, oid + '.hierarchy', member(C, c, lambda x: x == NS + 'HValuesMetaData'), src, w)
            elif t == NS + 'HValuesMetaData':
                same_meta(C, I, oid + '.hierarchy', member(C, c, lambda x: x == NS + 'HValuesMetaData'), [('arg', i)], w)
    if not n:
        C.und(cname + '.ctor', 'no constructor', None)


def rule_src_o(C):
    """OQualities keeps the values (qualities) it is given"""
    sources(C, 'OQualities', 'O', True)


def rule_src_h(C):
    """HQualities keeps the values (qualities) it is given and their hierarchy"""
    sources(C, 'HQualities', 'H', True)


def rule_src_d(C):
    """DQualities keeps the values (qualities) it is given and their hierarchy"""
    sources(C, 'DQualities', 'D', True)


def rule_srcp_o(C):
    """OPartitioner keeps the qualities it is given"""
    sources(C, 'OPartitioner', 'O', False)


def rule_srcp_h(C):
    """HPartitioner keeps the qualities it is given and their hierarchy"""
    sources(C, 'HPartitioner', 'H', False)


def rule_srcp_d(C):
    """DPartitioner keeps the qualities it is given and their hierarchy"""
    sources(C, 'DPartitioner', 'D', False)


RULES = {'C05': [rule_ordered, rule_src_o], 'C06': [rule_hier, rule_src_h], 'C07': [rule_spatio, rule_src_d],
         'C09': [rule_srcp_o], 'C10': [rule_srcp_h], 'C11': [rule_srcp_d]}
