"""Copies of library objects are copies: a user-provided copy constructor or assignment gives every member the value of the
source's member (C01 values, C02 matrices, C03 metadata, C05-C07 qualities, C12 parts, C13 partitions, C20 arithmetic), and
ending an object touches nothing but the object (C28)."""
from .core import *
from .r_effects import fields, floc, isptr, family, flat, Origin, stores, show_loc, VALUES, QUALS, heavy


def short(q):
    return q.replace('lpaggreg::', '')


def provided(C, cls):
    """user-provided copying operations of the class: (function, kind)"""
    for f in C.P.functions.values():
        if f.get('cls') != cls or f.get('implicit') or f.get('b') is None or len(f.get('ps') or ()) != 1:
            continue
        if strip(f['ps'][0]['t'].replace('&&', '').strip()) != cls:
            continue
        if f.get('ctor'):
            yield f, 'the copy constructor'
        elif f['n'] == 'operator=':
            yield f, 'the assignment'


def isclass(C, t):
    return strip(t) in C.P.records and strip(t).startswith('lpaggreg::')


def pointee(t):
    t = strip(t)
    return (targs(t)[0] if t.startswith('std::') else t[:-1]).strip()


def deref(p):
    return p[1] if p[0] == 'ptr' else ('deref', p)


def has(t, names):
    if isinstance(t, tuple):
        return bool(t) and (t[0] in names or any(has(x, names) for x in t))
    return False


def member(C, I, c, fl, dst, src, evs, out):
    """compare one member; out(status, message, event or None)"""
    d, s = ('fld', dst, c + '::' + fl['n']), ('fld', src, c + '::' + fl['n'])
    n, t = fl['n'], fl['t']
    if isclass(C, t):
        whole = [e for e, l in evs if e.loc == d and e.kind in ('copy', 'copyobj')]
        if whole and whole[-1].val == ('ptr', s) and not any(e.loc != d and d in prefixes(e.loc) for e, l in evs):
            return out('ok', n, None)
        for c2, f2 in fields(C, strip(t)):
            member(C, I, c2, f2, d, s, evs, lambda st, m, e: out(st, n + '.' + m, e))
        return
    mine = [(e, l) for e, l in evs if e.loc is not None and (e.loc == d or d in prefixes(e.loc))]
    if isptr(t):
        v, w = I.load(d, t), I.load(s, t)
        if v == w:
            return out('ok', n, None)
        tc = pointee(t)
        if isinstance(v, tuple) and v[0] == 'ptr' and isinstance(v[1], tuple) and root(v[1])[0] == 'new' and isclass(C, tc):
            # a copy of its own: compare the two objects
            ws = deref(w)
            for c2, f2 in fields(C, tc):
                member(C, I, c2, f2, v[1], ws, evs, lambda st, m, e: out(st, n + '->' + m, e))
            return
        if v == ('null',) or has(v, ('freshptr', 'new', 'pite')) or has(v, UNK):
            if has(v, ('undef',)) or not mine and dst == ('this',):
                return out('bad', '%s is not taken over' % n, None)
            return out('und', '%s: %s' % (n, str(v)[:80]), None)
        return out('bad', '%s becomes %s' % (n, show(v)), mine[-1][0] if mine else None)
    if t.startswith(('std::vector<', 'std::map<', 'std::list<', 'std::basic_string<', 'std::array<', 'std::deque<', 'std::set<', 'std::tuple<', 'std::pair<')) or strip(t).startswith('std::'):
        cp = [i for i, (e, l) in enumerate(mine) if e.kind in ('copy', 'copyobj') and e.loc == d]
        if cp:
            e = mine[cp[-1]][0]
            if e.val != ('ptr', s):
                return out('bad' if isinstance(e.val, tuple) and e.val and e.val[0] == 'ptr' else 'und', '%s is copied from something else' % n, e)
            if e.guard != T:
                return out('und', '%s is copied under a condition' % n, e)
            for e, l in mine[cp[-1] + 1:]:
                src_l = repl(e.loc, d, s)
                if e.kind == 'write' and src_l is not None and e.val == I.load(src_l, ''):
                    continue
                g = list(conj(e.guard)) + [x for L in l for x in L.facts]
                if I.entails(g, F):
                    continue
                return out('bad', '%s differs from the source\'s: %s after the copy' % (n, {'write': 'an element is changed', 'push': 'an element is added', 'clear': 'it is emptied', 'erase': 'elements are removed', 'init': 'it is given a new size'}.get(e.kind, 'it is changed')), e)
            return out('ok', n, None)
        if not mine or all(e.kind == 'clear' or e.kind == 'init' and not l for e, l in mine):
            if any(e.kind == 'init' and not zero(e.size) for e, l in mine):
                return out('und', n + ' is filled in another way', mine[0][0])
            return out('bad', '%s is not taken over' % n, mine[0][0] if mine else None)
        return out('und', n + ' is filled in another way', mine[0][0])
    v, w = I.load(d, t), I.load(s, t)
    if v == w:
        return out('ok', n, None)
    if has(v, ('undef', 'in')) and not mine:
        return out('bad', '%s is not taken over' % n, None)
    if hasunk(v) or hasunk(w) or any(e.guard != T or l for e, l in mine):
        return out('und', n, mine[-1][0] if mine else None)
    return out('bad', '%s becomes %s instead of the source\'s %s' % (n, show(v), n), mine[-1][0] if mine else None)


def zero(x):
    try:
        return x is not None and (x == 0 or x == ('P', ()) or x == P(0))
    except Exception:
        return False


def repl(l, a, b):
    from .interp import repl_prefix
    try:
        return repl_prefix(l, a, b)
    except Exception:
        return None


def judge(C, cls):
    """the copying operations of one class"""
    n = 0
    for f, kind in provided(C, cls):
        if cls.endswith('Tradeoff'):
            pass
        n += 1
        I = C.interp(() if 'UpperTriangularMatrix' in cls else ('utm',), opaque=heavy(C, f))
        I.call(f['key'], cls=cls)
        C.used(I, f)
        evs = [x for x in stores(I)]
        oid = 'copy.%s.%s' % (short(cls), 'ctor' if f.get('ctor') else 'assign')
        if any('&&' in p['t'] for p in f['ps']):
            oid += '.move'
        res = []
        for c, fl in fields(C, cls):
            member(C, I, c, fl, ('this',), ('arg', 0), evs, lambda st, m, e: res.append((st, m, e)))
        bad = False
        for st, m, e in res:
            if st == 'bad' and not I.unknown:
                C.bad(oid, '%s of %s: %s' % (kind, short(cls), m), C.evwhere(e) if e is not None else C.where(f))
                bad = True
            elif st == 'bad' or st == 'und':
                C.und(oid, '%s of %s: %s not modelled' % (kind, short(cls), m), C.where(f))
                bad = True
        if not bad:
            C.ok(oid, '%s of %s takes every member over (%s)' % (kind, short(cls), ', '.join(m for _, m, _ in res)), C.where(f))
    return n


def copies(C, roots):
    cl = []
    for r in roots:
        try:
            cl += [c for c in family(C, [r]) if c not in cl]
        except Anchor:
            continue
    if 'UpperTriangularMatrix' in roots:
        cl += [c for c in C.P.records if c.startswith('lpaggreg::UpperTriangularMatrix<') and c not in cl]
    n = sum(judge(C, c) for c in cl)
    C.ok('copies', '%d classes, %d copying operations written by hand (the others copy member by member)' % (len(cl), n), '')


def rule_copy_values(C):
    """copies of value containers hold the same data"""
    copies(C, VALUES)


def rule_copy_utm(C):
    """copies of triangular matrices hold the same cells"""
    copies(C, ['UpperTriangularMatrix'])


def rule_copy_meta(C):
    """copies of the metadata are equal to it"""
    copies(C, ['HValuesMetaData'])


def rule_copy_oqual(C):
    """copies of quality containers refer to the same qualities"""
    copies(C, ['OQualities'])


def rule_copy_hqual(C):
    """copies of quality containers refer to the same qualities"""
    copies(C, ['HQualities'])


def rule_copy_dqual(C):
    """copies of quality containers refer to the same qualities"""
    copies(C, ['DQualities'])


def rule_copy_parts(C):
    """copies of parts describe the same part"""
    copies(C, ['OPart', 'HPart', 'DPart'])


def rule_copy_partition(C):
    """copies of partitions are equal to them"""
    copies(C, ['Partition'])


def rule_copy_algebra(C):
    """copies of qualities and trade-offs are equal to them"""
    copies(C, ['Quality', 'Tradeoff'])


def rule_copy_agg(C):
    """copies of aggregates and aggregations are equal to them"""
    copies(C, ['OAggregate', 'HAggregate', 'DAggregate', 'OAggregation', 'HAggregation', 'DAggregation'])


def rule_dtor(C):
    """ending an object changes nothing but the object"""
    n = 0
    for f in C.P.functions.values():
        if not f.get('dtor') or f.get('implicit') or f.get('b') is None or not (f.get('cls') or '').startswith('lpaggreg::'):
            continue
        n += 1
        I = C.interp(('utm',), opaque=heavy(C, f))
        I.call(f['key'], cls=f['cls'])
        C.used(I, f)
        oid = 'end.' + short(f['cls'])
        bad = False
        for e, l in stores(I):
            b = root(e.loc)
            if b == ('this',) or b[0] in ('tmp', 'var', 'cv', 'new', 'str'):
                continue
            g = list(conj(e.guard)) + [x for L in l for x in L.facts]
            if I.entails(g, F):
                continue
            r = Origin(I, (), False).loc(e.loc)
            if r == {'new'}:
                continue
            bad = True
            if b[0] in ('glob', 'deref'):
                C.bad(oid, 'ending an object of %s writes %s, which other objects may share' % (short(f['cls']), show_loc(e.loc)), C.evwhere(e))
            else:
                C.und(oid, 'ending an object of %s writes %s' % (short(f['cls']), show_loc(e.loc)), C.evwhere(e))
        for e, l in flat(I.events):
            if e.kind == 'call' and C.P.functions.get(e.key) is not None:
                bad = True
                C.und(oid, 'ending an object of %s calls %s' % (short(f['cls']), e.q), C.evwhere(e))
        if I.unknown and not bad:
            C.und(oid, 'the destructor is not modelled', C.where(f))
        elif not bad:
            C.ok(oid, 'the destructor of %s only ends its own members' % short(f['cls']), C.where(f))
    C.ok('end', '%d destructors written by hand' % n, '')


RULES = {'C01': [rule_copy_values], 'C02': [rule_copy_utm], 'C03': [rule_copy_meta], 'C05': [rule_copy_oqual],
         'C06': [rule_copy_hqual], 'C07': [rule_copy_dqual], 'C12': [rule_copy_parts], 'C13': [rule_copy_partition],
         'C18': [rule_copy_agg], 'C20': [rule_copy_algebra], 'C28': [rule_dtor]}
