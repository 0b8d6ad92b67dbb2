"""C17 (R interface), C27: the C++ source embedded in R/lpaggreg.R, parsed against stand-ins for
Rcpp and Armadillo (extract/rstub) and the library's own headers."""
import glob, json, os, re, shutil, tempfile
from .core import *
from . import core


def source(path):
    """the C++ text an R file hands to sourceCpp, at its line"""
    s = open(path, errors='replace').read()
    out = []
    for m in re.finditer(r"(?:<-|=)\s*(['\"])((?:\\.|(?!\1).)*?Rcpp::export(?:\\.|(?!\1).)*?)\1", s, re.S):
        out.append((s[:m.start(2)].count('\n'), m.group(2).replace("\\'", "'").replace('\\"', '"').replace('\\\\', '\\')))
    return out


def unit(C):
    """the library's program together with the R interface's functions"""
    c = C.P.__dict__
    if '_runit' in c:
        return c['_runit']
    d = tempfile.mkdtemp(prefix='lpa.')
    try:
        path = os.path.join(frontend.REPO, 'R', 'lpaggreg.R')
        if not os.path.exists(path):
            raise Anchor('R/lpaggreg.R')
        src = source(path)
        if not src:
            raise Undecided('no C++ source found in R/lpaggreg.R')
        os.symlink(os.path.join(os.path.realpath(frontend.REPO), 'src', 'lpaggreg', 'headers'), os.path.join(d, 'lpaggreg'))
        for h in ('RcppArmadillo.h', 'Rcpp.h'):
            shutil.copy(os.path.join(frontend.VERIF, 'extract', 'rstub', 'RcppArmadillo.h'), os.path.join(d, h))
        u = os.path.join(d, 'lpaggreg.R.cpp')
        with open(u, 'w') as f:
            f.write('\n' * src[0][0] + src[0][1] + '\n#include <lpaggreg/lpglobal.h>\nstatic const int lpa_P_OPT = P_OPT;\n')
        o = os.path.join(d, 'u.json')
        r = frontend.run_lpx(d, u, ['-std=c++11', '-I', d], o)
        if r.returncode or not os.path.exists(o):
            raise Undecided('the C++ source of R/lpaggreg.R is not understood: %s' % r.stderr[-300:])
        P = frontend.Program()
        P.functions, P.records, P.globals = dict(C.P.functions), dict(C.P.records), dict(C.P.globals)
        P.decls, P.files, P.units = list(C.P.decls), set(C.P.files), list(C.P.units)
        j = json.load(open(o))
        library(j)
        for f in j['functions'].values():
            if f.get('file') == u:
                f['file'] = os.path.join(frontend.REPO, 'R', 'lpaggreg.R')
        P.merge(j, u)
        P.rsrc = src
        c['_runit'] = P
        return P
    finally:
        shutil.rmtree(d, ignore_errors=True)


def library(o):
    """the library's own operations are opaque: their meaning is the subject of the other properties"""
    if isinstance(o, dict):
        if o.get('k') in ('call', 'ctor') and 'repo' in o and ((o.get('q') or '').startswith(NS) or (o.get('cls') or '').startswith(NS)):
            o['repo'] = True
        for v in o.values():
            library(v)
    elif isinstance(o, list):
        for v in o:
            library(v)


SCALARS = {'Rcpp::DataFrame', 'Rcpp::List', 'Rcpp::Arg', 'Rcpp::Named'}


def rcall(I, n, obj, args, how):
    cls, q = strip(n.get('cls') or ''), n.get('q') or ''
    if how in ('ctor', 'ctorat') and cls in SCALARS:
        if n.get('copy') or n.get('move'):
            v = I.rv(args[0])
        elif cls == 'Rcpp::Named' and args:
            v = ('named', I.rv(args[0]), None)
        else:
            v = ('list',)
        if how == 'ctorat':
            I.put(obj.loc, cls, v, n)
            return None
        return v
    if how != 'call':
        return NotImplemented
    if cls == 'Rcpp::Named' and n['n'] == 'operator=':
        o = I.rv(obj)
        return ('named', o[1], item(I, args[0])) if isinstance(o, tuple) and o and o[0] == 'named' else ('named', None, None)
    if cls == 'Rcpp::Underscore' and n['n'] == 'operator[]':
        return ('named', I.rv(args[0]), None)
    if q in ('Rcpp::DataFrame::create', 'Rcpp::List::create'):
        v = ('list',) + tuple(item(I, a) for a in args)
        e = I.emit('frame', node=n, val=v)
        return v
    if q == 'Rcpp::as':
        return fn('as', I.rv(args[0])) if is_poly(I.rv(args[0])) else A(('fn', 'as', I.rv(args[0])))
    return NotImplemented


def item(I, a):
    if isinstance(a, LV) and strip(a.t) not in SCALARS and I.kind(a.t) in ('rec', 'cont', 'tuple'):
        return ('obj', I.canon(a.loc), strip(a.t))
    return I.rv(a)


def interp(C, f):
    P = unit(C)
    opaque = {g['key'] for g in P.functions.values() if g['q'].startswith(NS)}
    I = Interp(P, prims={'call': rcall, 'scalar_types': SCALARS, 'opts': set()}, opaque=opaque)
    I.deadline = min(time.time() + core.ONE_LIMIT, C.end)
    return I


COLUMNS = {'O': (('Parameter', 0, 0), ('Start', 1, 1), ('End', 2, 1), ('Gain', 3, 0), ('Loss', 4, 0)),
           'H': (('Parameter', 0, 0), ('Node', 1, 1), ('Size', 2, 0), ('Gain', 3, 0), ('Loss', 4, 0)),
           'D': (('Parameter', 0, 0), ('Node', 1, 1), ('Size', 2, 0), ('Start', 3, 1), ('End', 4, 1), ('Gain', 5, 0), ('Loss', 6, 0))}
ENTRY = {'O': 'oaggregate', 'H': 'haggregate', 'D': 'daggregate'}


class R:
    """one analysed entry point of the R interface"""
    def __init__(s, C, p):
        P = unit(C)
        fs = [f for f in P.functions.values() if f['q'] == ENTRY[p] and f.get('b') is not None]
        if len(fs) != 1:
            raise Anchor('R function ' + ENTRY[p])
        s.C, s.p, s.f = C, p, fs[0]
        s.I = interp(C, s.f)
        s.ret = s.I.run(s.f['key'])
        s.ret = s.I.rv(s.ret) if isinstance(s.ret, LV) and strip(s.ret.t) in SCALARS else s.ret
        s.evs = list(flat(s.I.events))
        s.w = 'R/lpaggreg.R:%s' % s.f.get('l')
        s.copies = {}
        for e, l in s.evs:
            if e.kind in ('copy', 'copyobj') and isinstance(e.val, tuple):
                v = e.val
                if v[0] in ('copy', 'ptr', 'obj'):
                    v = v[1]
                s.copies.setdefault(e.loc, v)
        C.used(s.I, s.f)

    def src(s, loc):
        """the object a location was copied from, in the end"""
        n = 0
        while loc in s.copies and n < 20:
            loc, n = s.copies[loc], n + 1
        return loc

    def calls(s, name, cls=None):
        return [(i, e, l) for i, (e, l) in enumerate(s.evs) if e.kind == 'call' and e.q.split('::')[-1] == name and (cls is None or e.q.split('::')[-2] == cls)]


def entry(C, p):
    c = C.__dict__.setdefault('_rentry', {})
    if p not in c:
        c[p] = R(C, p)
    return c[p]


def names(v):
    """{name: value} of a list or frame, in order; None when not understood"""
    if not (isinstance(v, tuple) and v and v[0] == 'list'):
        return None
    out = []
    for x in v[1:]:
        if not (isinstance(x, tuple) and x[0] == 'named' and isinstance(x[1], tuple) and x[1][0] == 'str' and x[2] is not None):
            return None
        out.append((x[1][1], x[2]))
    return out


def bare(t):
    """whole-numbered data: dropping the fraction changes nothing"""
    from .terms import rewrite
    return rewrite(t, lambda n: n[2] if n[0] == 'fn' and n[1] == 'trunc' else None) if isinstance(t, tuple) else t


def column(r, oid, what, v, cont, want):
    """column v lists want(element) for every element of cont, in order"""
    C, I = r.C, r.I
    if not (isinstance(v, tuple) and v[0] == 'obj'):
        C.und(oid, '%s is not a column of its own' % what, r.w)
        return
    if cont is None:
        C.und(oid, 'rows not modelled', r.w)
        return
    vec = ('fld', v[1], v[2] + '::v')
    sz = ('size', cont)
    n = I.load(sz, 'int')
    inits = [e for e, l in r.evs if e.kind == 'init' and e.loc == vec]
    wr = [(e, l) for e, l in r.evs if not e.promoted and (e.kind == 'write' and e.loc[0] == 'idx' and e.loc[1] == vec or e.kind == 'push' and e.loc == vec)]
    other = [e for e, l in r.evs if e.loc is not None and vec in prefixes(e.loc) and e.kind not in ('init', 'write', 'push', 'access')]
    if len(inits) != 1 or other or len(wr) != 1:
        if len(wr) == 0 and len(inits) == 1 and not other and not I.unknown:
            C.bad(oid, '%s is never filled' % what, C.evwhere(inits[0]))
        else:
            C.und(oid, '%s is not filled in one place' % what, r.w)
        return
    e, ls = wr[0]
    w = C.evwhere(e)
    if len(ls) != 1 or ls[0].problem or ls[0].ivatom is None:
        C.und(oid, '%s is not filled by one loop' % what, w)
        return
    L = ls[0]
    iv = A(L.ivatom)
    # the loop visits every element once, in order
    if L.exits or not eqt(I, L.lo, ZERO, ()) or not eqt(I, L.hi, sub(n, ONE), ()):
        x = C.bad if not hasunk(L.lo) and not hasunk(L.hi) and not L.exits and not I.unknown else C.und
        x(oid, '%s is filled for elements %s to %s of %s' % (what, show(L.lo), show(L.hi), show(n)), L.where())
        return
    if e.guard != T and not b_equiv(e.guard, T, []):
        (C.bad if not hasunk(e.guard) and not I.unknown else C.und)(oid, '%s is only filled when %s' % (what, show(e.guard)), w)
        return
    if e.kind == 'push':
        if not eqt(I, inits[0].size if inits[0].size is not None else ZERO, ZERO, ()):
            C.bad(oid, '%s already has rows when the results are appended' % what, w)
            return
    else:
        if inits[0].size is None or not eqt(I, inits[0].size, n, ()):
            C.und(oid, '%s has %s rows' % (what, show(inits[0].size) if inits[0].size is not None else '?'), w) if inits[0].size is None or hasunk(inits[0].size) or I.unknown else C.bad(oid, '%s has %s rows, required: one per result (%s)' % (what, show(inits[0].size), show(n)), w)
            return
        if not eqt(I, e.loc[2], iv, ()):
            x = C.bad if not hasunk(e.loc[2]) and not I.unknown else C.und
            x(oid, '%s: the row of result number %s is %s' % (what, show(iv), show(e.loc[2])), w)
            return
    judge(C, I, oid, e.val, want(iv), (), '%s mirrors the results' % what, w, allow=(want(iv),))


def results(r, name, cls=None):
    """the container the partitioner reports under the getter"""
    cs = r.calls(name)
    locs = {e.val.loc if isinstance(e.val, LV) else None for _, e, _ in cs}
    return (locs.pop() if len(locs) == 1 else None), cs


def rule_columns(C, p):
    """C17: the frames of the R interface mirror the tuples and the quality list"""
    r = entry(C, p)
    I = r.I
    top = names(r.ret)
    q = ENTRY[p]
    if top is None:
        C.und(q + '.list', 'result not modelled', r.w)
        return
    got = dict(top)
    for n in ('Partitions', 'Qualities', 'POpt', 'AUC'):
        C.ok('%s.%s' % (q, n), 'reported', r.w) if n in got else C.bad('%s.%s' % (q, n), 'the result has no element %s' % n, r.w)
    parts, quals = names(got.get('Partitions')), names(got.get('Qualities'))
    cont, cs = results(r, 'getPartitionsTuples')
    if parts is None:
        C.und(q + '.Partitions.columns', 'not modelled', r.w)
    else:
        cols = dict(parts)
        for n, k, off in COLUMNS[p]:
            oid = '%s.Partitions.%s' % (q, n)
            if n not in cols:
                C.bad(oid, 'the frame of the parts has no column %s' % n, r.w)
                continue
            def want(iv, k=k, off=off):
                return add(I.load(('tup', ('idx', cont, iv), k), 'double'), num(off))
            column(r, oid, 'column %s of the parts' % n, cols[n], cont, want)
    cont2, cs2 = results(r, 'getQualityList')
    if quals is None:
        C.und(q + '.Qualities.columns', 'not modelled', r.w)
    else:
        cols = dict(quals)
        def key(iv):
            return I.load(('fld', ('idx', cont2, iv), 'first'), 'double')
        def part(g):
            def f(iv):
                o = ('ptr', ('deref', ('ldp', ('fld', ('idx', cont2, iv), 'second'), 0)))
                return A(('call', 'lpaggreg::Quality::' + g, o))
            return f
        for n, w in (('Parameter', key), ('Gain', part('getGain')), ('Loss', part('getLoss'))):
            oid = '%s.Qualities.%s' % (q, n)
            if n not in cols:
                C.bad(oid, 'the frame of the qualities has no column %s' % n, r.w)
                continue
            column(r, oid, 'column %s of the qualities' % n, cols[n], cont2, w)
    P = r.I.P
    opt = [g for g in P.globals.values() if g['q'].endswith('lpa_P_OPT')]
    for n, name, args in (('POpt', 'getP', 1), ('AUC', 'computeAUC', 0)):
        if n not in got:
            continue
        oid = '%s.%s.value' % (q, n)
        cs3 = [e for _, e, _ in r.calls(name)]
        hit = [e for e in cs3 if e.val == got[n]]
        if not hit:
            (C.bad if is_poly(got[n]) and not hasunk(got[n]) and not I.unknown else C.und)(oid, '%s is %s, not what %s answers' % (n, show(got[n]) if isinstance(got[n], tuple) else '?', name), r.w)
            continue
        e = hit[0]
        if args:
            want = I.rv(I.ev(opt[0]['init'])) if opt else num(2)
            judge(C, I, oid, e.args[0], want, (), 'the optimal strategy is asked for', C.evwhere(e))
        else:
            C.ok(oid, 'reported', C.evwhere(e))


def rule_pipeline(C, p):
    """C27: the data are converted, the qualities computed and normalised, and the sweep run on them"""
    r = entry(C, p)
    I = r.I
    q = ENTRY[p]
    K = {'O': 'OQualities', 'H': 'HQualities', 'D': 'DQualities'}[p]
    X = {'O': 'OPartitioner', 'H': 'HPartitioner', 'D': 'DPartitioner'}[p]
    at = {}
    for i, (e, l) in enumerate(r.evs):
        if e.kind == 'call':
            at.setdefault('::'.join(e.q.split('::')[-2:]), []).append((i, e, l))
    made = {loc: i for i, (e, l) in enumerate(r.evs) if e.kind in ('copy', 'copyobj') for loc in [e.loc]}

    def one(k, what):
        c = at.get(k, [])
        if not c:
            (C.und if I.unknown else C.bad)('%s.%s' % (q, what), '%s is not called' % k, r.w)
            return None
        if len(c) > 1 or c[0][2] or c[0][1].guard != T:
            C.und('%s.%s' % (q, what), '%s is not called exactly once, unconditionally' % k, C.evwhere(c[0][1]))
            return None
        C.ok('%s.%s' % (q, what), '%s is called' % k, C.evwhere(c[0][1]))
        return c[0][0], c[0][1]

    def chain(loc):
        out = [loc]
        while out[-1] in r.copies and len(out) < 20:
            out.append(r.copies[out[-1]])
        return out

    def obj(v):
        return v[1] if isinstance(v, tuple) and v and v[0] == 'ptr' else None

    V = '%sValuesN3' % p
    sv = one(V + '::' + V, 'values')
    sq = one(K + '::' + K, 'qualities')
    sc = one(K + '::computeQualities', 'computeQualities')
    sn = one(K + '::normalize', 'normalize')
    sx = one(X + '::' + X, 'partitioner')
    sb = one(X + '::computeBestPartitions', 'sweep')
    if None in (sv, sq, sc, sn, sx, sb):
        return
    w = lambda s: C.evwhere(s[1])

    def same(oid, used, base, since, msg, where):
        """the object used is the given one, or a copy of it made after the given point"""
        u, b = obj(used) if not isinstance(used, LV) else used.loc, obj(base)
        cu, cb = chain(u), chain(b)
        common = [x for x in cu if x in cb]
        if not common:
            C.und(oid, msg + ': another object (%s, %s)' % (show_loc(u), show_loc(b)), where) if None in (u, b) or I.unknown else C.bad(oid, msg + ': %s is used, required: %s' % (show_loc(u), show_loc(b)), where)
            return
        stale = [x for x in cu[:cu.index(common[0])] if since is not None and made.get(x, 1 << 60) < since]
        back = [x for x in cb[:cb.index(common[0])] if since is not None]
        if stale or back and b != common[0] and u != b:
            C.bad(oid, msg + ': a copy made before is used', where)
        else:
            C.ok(oid, msg, where)

    same(q + '.qualities.of', sq[1].args[0], sv[1].obj, None, 'the qualities are those of the given values', w(sq))
    same(q + '.computeQualities.of', sc[1].obj, sq[1].obj, None, 'the qualities made are computed', w(sc))
    same(q + '.normalize.of', sn[1].obj, sc[1].obj, sc[0], 'the qualities computed are normalised', w(sn))
    same(q + '.partitioner.of', sx[1].args[0], sc[1].obj, sc[0], 'the partitioner works on the computed qualities', w(sx))
    same(q + '.sweep.of', sb[1].obj, sx[1].obj, None, 'the sweep is that of the partitioner', w(sb))
    for a, b, na, nb in ((sc, sn, 'computeQualities', 'normalize'), (sn, sb, 'normalize', 'computeBestPartitions')):
        oid = '%s.order.%s' % (q, nb)
        C.ok(oid, '%s before %s' % (na, nb), w(b)) if a[0] < b[0] else C.bad(oid, '%s is called before %s' % (nb, na), w(b))
    for k in ('getPartitionsTuples', 'getQualityList', 'getP', 'computeAUC'):
        for i, e, l in r.calls(k):
            same('%s.%s.of' % (q, k), e.obj, sb[1].obj, sb[0], 'the results are those of the sweep', C.evwhere(e))
            if i < sb[0]:
                C.bad('%s.order.%s' % (q, k), '%s is asked before the sweep' % k, C.evwhere(e))
    args = r.f['ps']
    th = [A(('fn', 'as', ('arg', i))) for i, x in enumerate(args) if x['t'].startswith('SEXP')]
    for i, (want, what) in enumerate(((None, 'the given threshold'), (ZERO, 'zero, the lower end'), (ONE, 'one, the upper end'))):
        got = sb[1].args[i] if i < len(sb[1].args) else None
        oid = '%s.sweep.arg%d' % (q, i)
        if want is None:
            t = got if is_poly(got) and len(th) else None
            ok = t is not None and contains(t, lambda n: n[0] == 'fn' and n[1] == 'as') and const(t) is None and single(t) is not None
            C.ok(oid, 'the sweep uses ' + what, w(sb)) if ok else (C.bad if is_poly(got) and not hasunk(got) and not I.unknown else C.und)(oid, 'the sweep uses threshold %s, required: %s' % (show(got) if got is not None else '?', what), w(sb))
        elif got is None:
            C.und(oid, 'no argument', w(sb))
        else:
            judge(C, I, oid, got, want, (), 'the sweep covers ' + what, w(sb))
    # the data
    micro = [i for i, x in enumerate(args) if strip(x['t']) == 'Rcpp::NumericVector']
    if not micro:
        C.und(q + '.data', 'no data argument', r.w)
        return
    data(r, q + '.micro', obj(sv[1].args[0]), micro[0])
    if p != 'O':
        if len(micro) < 2 or len(sv[1].args) < 2:
            C.und(q + '.hierarchy', 'no hierarchy argument', r.w)
        else:
            tree(r, q + '.hierarchy', obj(sv[1].args[1]), micro[1])


def fills(r, X):
    """the one place that adds elements to X (or sets them): (event, loops)"""
    out = [(e, l) for e, l in r.evs if not e.promoted and (e.kind == 'push' and e.loc == X or e.kind == 'write' and e.loc[0] == 'idx' and e.loc[1] == X)]
    return out


def ranged(r, L, n):
    """visits 0 .. n-1 in any order"""
    return not L.problem and not L.exits and L.ivatom is not None and eqt(r.I, L.lo, ZERO, ()) and eqt(r.I, L.hi, sub(n, ONE), ())


def data(r, oid, M, k):
    """the container handed over holds, at [i][j][k], the entry (i,j,k) of the R array"""
    C, I = r.C, r.I
    if M is None:
        C.und(oid, 'not modelled', r.w)
        return
    M = r.src(M)
    nv = 'Rcpp::NumericVector::'
    a = ('arg', k)
    dim = [I.load(('idx', ('fld', ('fld', a, nv + 'dim'), 'Rcpp::IntegerVector::v'), num(i)), 'int') for i in range(3)]
    deep = [(e, l) for e, l in r.evs if not e.promoted and e.kind in ('push', 'write') and is_poly(e.val) and e.val != ZERO and e.loc[0] != 'size' and I.kind('double') and contains(e.val, lambda n: n[0] == 'fld' and n[1] == a and n[2] == nv + 'v')]
    if len(deep) != 1:
        C.und(oid, 'the data are not copied in one place', r.w)
        return
    e, ls = deep[0]
    w = C.evwhere(e)
    if len(ls) != 3:
        C.und(oid, 'the data are not copied by three loops', w)
        return
    # the place of the copied entry in M
    pos = place(r, M, e, ls)
    if pos is None or len(pos) != 3:
        C.und(oid, 'the place of an entry is not modelled', w)
        return
    ok = True
    for L in ls:
        if L.problem or L.exits or L.ivatom is None:
            C.und(oid, 'loop not modelled', L.where())
            return
    if e.guard != T and not b_equiv(e.guard, T, []):
        (C.und if hasunk(e.guard) or I.unknown else C.bad)(oid + '.all', 'entries are only copied when %s' % show(e.guard), w)
        ok = False
    # every index runs over its own dimension
    for i, x in enumerate(pos):
        L = [L for L in ls if x == A(L.ivatom)]
        if not L:
            C.und(oid + '.range', 'index %d is %s' % (i, show(x)), w)
            return
        if not ranged(r, L[0], dim[i]):
            (C.und if hasunk(L[0].lo) or hasunk(L[0].hi) or I.unknown else C.bad)(oid + '.range', 'index number %d runs from %s to %s, required: the whole of that dimension (%s)' % (i, show(L[0].lo), show(L[0].hi), show(dim[i])), L[0].where())
            ok = False
    at = add(pos[0], add(mul(dim[0], pos[1]), mul(mul(dim[0], dim[1]), pos[2])))
    want = I.load(('idx', ('fld', a, nv + 'v'), at), 'double')
    if ok:
        C.ok(oid + '.range', 'every entry is handed over', w)
    judge(C, I, oid, e.val, want, (), 'entry (i,j,k) of the data is handed over at [i][j][k]', w)


def place(r, M, e, ls):
    """the indices in M of the value an event stores: the loops that number it"""
    out = []
    loc = e.loc
    loops = list(ls)
    if e.kind == 'push':
        if not loops:
            return None
        out.insert(0, A(loops[-1].ivatom))
        loops.pop()
    for _ in range(6):
        if loc == M:
            return out
        if loc[0] == 'idx':
            out.insert(0, loc[2])
            loc = loc[1]
            continue
        # a local container that is itself added somewhere
        ps = [(x, l) for x, l in r.evs if x.kind == 'push' and isinstance(x.val, tuple) and x.val[0] in ('copy', 'ptr', 'obj') and r.src(x.val[1]) == loc]
        if len(ps) != 1 or not ps[0][1]:
            src = [x for x, y in r.copies.items() if y == loc]
            if len(src) == 1:
                loc = src[0]
                continue
            return None
        x, l = ps[0]
        if x.guard != T:
            return None
        out.insert(0, A(l[-1].ivatom))
        loc = x.loc
    return None


def tree(r, oid, H, k):
    """the parent list handed over is the R vector, counted from zero"""
    C, I = r.C, r.I
    if H is None:
        C.und(oid, 'not modelled', r.w)
        return
    H = r.src(H)
    v = ('fld', ('arg', k), 'Rcpp::NumericVector::v')
    n = I.load(('size', v), 'int')
    fs = fills(r, H)
    if len(fs) != 1 or len(fs[0][1]) != 1:
        C.und(oid, 'the parents are not copied by one loop', r.w)
        return
    e, (L,) = fs[0]
    w = C.evwhere(e)
    if not ranged(r, L, n):
        (C.und if L.problem or L.exits or hasunk(L.lo) or hasunk(L.hi) or I.unknown else C.bad)(oid + '.all', 'the parents of nodes %s to %s are handed over, required: all %s' % (show(L.lo), show(L.hi), show(n)), w)
        return
    if e.guard != T and not b_equiv(e.guard, T, []):
        (C.und if hasunk(e.guard) or I.unknown else C.bad)(oid + '.all', 'a parent is only handed over when %s' % show(e.guard), w)
        return
    iv = A(L.ivatom)
    if e.kind == 'write' and not eqt(I, e.loc[2], iv, ()):
        (C.und if hasunk(e.loc[2]) or I.unknown else C.bad)(oid + '.at', 'parent number %s is handed over at %s' % (show(iv), show(e.loc[2])), w)
        return
    if e.kind == 'push' and L.dir != 1:
        C.bad(oid + '.at', 'the parents are handed over in reverse', w)
        return
    C.ok(oid + '.all', 'every parent is handed over', w)
    judge(C, I, oid, bare(e.val), sub(I.load(('idx', v, iv), 'double'), ONE), (), 'the parent of every node is handed over, counted from zero', w)


def per(f):
    out = []
    for p in 'OHD':
        def g(C, p=p):
            f(C, p)
        g.__name__ = '%s_%s' % (f.__name__, p)
        out.append(g)
    return out


RULES = {'C17': per(rule_columns), 'C27': per(rule_pipeline)}
