"""C22: computing never modifies its inputs, copies are independent.  C23: results depend on the arguments only."""
import re
from .core import *
from .interp import targs, repl_prefix

VALUES = ['OValues', 'HValues', 'DValues']
QUALS = ['OQualities', 'HQualities', 'DQualities']
COMPUTE = ['Partitioner', 'Partition', 'OPart', 'HPart', 'DPart', 'OAggregation', 'HAggregation', 'DAggregation',
           'OAggregate', 'HAggregate', 'DAggregate']


def family(C, names):
    out = []
    for n in names:
        q = C.cls(n)
        out += [c for c in [q] + C.P.derived(q) if c not in out]
    return out


def isptr(t):
    t = strip(t)
    return t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::weak_ptr<'))


def fields(C, cls):
    return [(cls, f) for f in C.P.records.get(cls, {}).get('fields', [])] + [x for b in C.P.bases(cls) for x in [(b, f) for f in C.P.records.get(b, {}).get('fields', [])]]


def floc(c, f, this=('this',)):
    return ('fld', this, c + '::' + f['n'])


# ------------------------------------------------------------------ where does a pointer come from
class Origin:
    """every object a pointer may lead to, judged from the stores of one analysed function"""
    def __init__(s, I, inputs, argext=True):
        s.I, s.inputs, s.argext = I, inputs, argext
        s.st, s.cp = {}, []
        for e, l in flat(I.events):
            if e.loc is None or e.kind in ('access', 'alloc', 'math', 'call'):
                continue
            if isinstance(e.val, tuple) and e.val and (e.kind in ('copy', 'copyobj') or e.kind == 'push' and getattr(e, 'obj', None)) and e.val[0] == 'ptr':
                # an object (or container) is copied: its pointers now lead where the source's lead
                f = fam(e.loc)
                s.cp.append((('idx', f, '*') if e.kind == 'push' else f, e.val[1]))
            elif isinstance(e.val, tuple) and e.val and e.val[0] in ('ptr', 'ldp', 'pite', 'freshptr'):
                s.put(e.loc, e.kind, e.val)

    def put(s, loc, kind, v):
        f = fam(loc)
        for k in ([('idx', f, '*'), ('cell', f, '*')] if kind in ('push', 'init') else [f]):
            s.st.setdefault(k, []).append(v)

    def ptr(s, t, seen=()):
        """set of: ('in', where) an object the caller handed over, 'own', 'new', '?'"""
        if not isinstance(t, tuple) or not t:
            return {'?'}
        if t[0] in ('freshptr', 'null'):
            return {'new'}
        if t[0] == 'ptr':
            return s.loc(t[1], seen)
        if t[0] == 'pite':
            return s.ptr(t[2], seen) | s.ptr(t[3], seen)
        if t[0] == 'ldp':
            l = t[1]
            r = s.loc(l, seen)
            if any(isinstance(x, tuple) for x in r):
                return {x for x in r if isinstance(x, tuple)}
            b = root(l)
            if b[0] in ('arg',):
                return {('in', show_loc(l))} if s.argext else {'own'}
            if b == ('this',):
                for p in prefixes(l):
                    if p in s.inputs:
                        return {('in', show_loc(p))}
            if t in seen:
                return set()
            vs = list(s.st.get(fam(l), ()))
            fs = [fam(p) for p in prefixes(l)]
            for d, src in s.cp:
                if d in fs:
                    vs.append(('ldp', repl_prefix(l, prefixes(l)[fs.index(d)], src), -1))
            if not vs:
                return {'new'} if r == {'new'} else {'own'} if 'own' in r else {'?'}
            out = set()
            for v in vs:
                out |= s.ptr(v, seen + (t,))
            return out or {'new'}
        return {'?'}

    def loc(s, l, seen=()):
        b = root(l)
        if b[0] in ('new', 'tmp', 'var', 'glob', 'cv', 'str'):
            return {'new'}
        if b == ('this',):
            return {'own'}
        if b[0] == 'arg':
            return {('in', show_loc(b))} if s.argext else {'own'}
        if b[0] == 'deref':
            return s.ptr(b[1], seen)
        return {'?'}


def show_loc(l):
    if l[0] == 'fld':
        return show_loc(l[1]) + '.' + str(l[2]).split('::')[-1]
    if l[0] in ('idx', 'at', 'cell', 'lin'):
        return show_loc(l[1]) + '[..]'
    if l[0] == 'deref':
        return '*' + (show_loc(l[1][1]) if l[1][0] in ('ldp', 'ptr') and isinstance(l[1][1], tuple) else '..')
    if l[0] == 'arg':
        return 'argument %s' % l[1]
    return str(l[0])


def stores(I):
    for e, l in flat(I.events):
        if e.loc is not None and e.kind not in ('access', 'alloc', 'math', 'call', 'read'):
            yield e, l


def inputs_of(C, cls, cache):
    """members that after construction still point to an object the caller handed over"""
    if cls in cache:
        return cache[cls]
    out = set()
    fl = [(c, f) for c, f in fields(C, cls) if isptr(f['t'])]
    if fl:
        for k in C.ctors(cls):
            I = C.interp(('utm',), opaque=heavy(C, k))
            I.call(k['key'], cls=cls)
            O = Origin(I, ())
            for c, f in fl:
                v = I.load(floc(c, f), f['t'])
                if any(isinstance(x, tuple) for x in O.ptr(v)):
                    out.add(floc(c, f))
    cache[cls] = out
    return out


def heavy(C, f):
    """calls left to their own obligations (they are analysed with the same rule)"""
    out = set()
    for k in C.P.reach(f['key']):
        g = C.P.functions[k]
        if k == f['key']:
            continue
        if C.P.recursive(k) or g['n'] in ('computeBestPartition', 'computeBestPartitions', 'computeQualities') or \
           g.get('ctor') and g.get('cls') in aggcls(C):
            out.add(k)
    return out


def aggcls(C):
    return family(C, ['OAggregate', 'HAggregate', 'DAggregate'])


def declared(C):
    """keys of operations a user can call (declared in an installed header, not private)"""
    if not hasattr(C.P, '_public'):
        pub = set()
        acc = {}
        for r in C.P.records.values():
            for m in r.get('methods', []):
                acc[m['f']] = m.get('acc')
        for d in C.P.decls:
            if '/headers/' in (d.get('file') or '') or (d.get('file') or '').endswith(('.h', '.hpp')):
                if d.get('cls') is None or acc.get(d['f'], 0) == 0:
                    pub.add(d['f'])
        C.P._public = pub
    return C.P._public


def entries(C, classes):
    """every operation of the classes that has a body"""
    return [f for f in C.P.functions.values() if f.get('cls') in classes and f.get('b') is not None and not f.get('implicit') and not f.get('dtor') and not f.get('static')]


class Nothing:
    """an operation that could not be analysed"""
    def __init__(s, why):
        s.unknown, s.events, s.retval, s.inlined = [why], [], None, ()


def analyse(C, f, cache):
    """effects of one operation; trade-offs as values where possible (rule_tradeoff_copy decides that they behave so)"""
    c = C.P.__dict__.setdefault('_effects', {})
    if f['key'] not in c:
        I = None
        for opts in (('utm', 'tradeoff'), ('utm',)):
            if I is not None and not I.unknown or opts == ('utm', 'tradeoff') and (f.get('cls') or '').endswith('Tradeoff') or \
               opts == ('utm', 'tradeoff') and not any('Tradeoff' in C.P.functions[k]['q'] for k in C.P.reach(f['key'])):
                continue
            I = C.interp(opts, opaque=heavy(C, f))
            try:
                I.retval = I.call(f['key'], cls=f.get('cls'))
            except (Undecided, RecursionError) as e:
                I = Nothing(str(e))
        c[f['key']] = I
    C.used(c[f['key']], f)
    return c[f['key']]


def out_params(C, f, cache, stack=()):
    """argument positions (and 'this') an opaque callee writes through"""
    k = ('out', f['key'])
    if k in cache:
        return cache[k]
    cache[k] = set()
    if f['key'] in stack:
        return set()
    I = analyse(C, f, cache)
    O = Origin(I, inputs_of(C, f['cls'], cache) if f.get('cls') and not f.get('ctor') else ())
    out = set()
    for e, l in stores(I):
        b = e.loc
        while True:
            b = root(b)
            if b[0] == 'arg':
                out.add(b[1])
            if b[0] == 'deref' and b[1][0] in ('ldp', 'ptr') and isinstance(b[1][1], tuple):
                b = b[1][1]
                continue
            break
    cache[k] = out
    return out


def judge_writes(C, f, I, inputs, cache, oid, what, argext=True):
    """no store of the operation reaches an object handed over by the caller"""
    O = Origin(I, inputs, argext)
    n = 0
    bad = False
    for e, l in stores(I):
        n += 1
        r = O.loc(e.loc)
        ext = [x[1] for x in r if isinstance(x, tuple)]
        if ext:
            g = list(conj(e.guard)) + [x for L in l for x in L.facts]
            if I.entails(g, F):
                continue
            bad = True
            if 'new' in r and len(r) > len(ext):
                C.und(oid, '%s may write an object handed over (%s) or one of its own' % (what, ext[0]), C.evwhere(e))
            else:
                C.bad(oid, '%s writes %s, which belongs to %s handed over by the caller' % (what, show_loc(e.loc), ext[0]), C.evwhere(e))
        elif '?' in r:
            bad = True
            C.und(oid, '%s writes %s of unknown origin' % (what, show_loc(e.loc)), C.evwhere(e))
    for e, l in flat(I.events):
        if e.kind != 'call':
            continue
        g = C.P.functions.get(e.key)
        if g is None or g.get('b') is None:
            continue
        for i in out_params(C, g, cache):
            a = e.args[i] if i < len(e.args) else None
            r = O.loc(a.loc) if isinstance(a, LV) else O.ptr(a) if isinstance(a, tuple) and a and a[0] in ('ptr', 'ldp', 'pite') else set()
            ext = [x[1] for x in r if isinstance(x, tuple)]
            if ext:
                bad = True
                C.bad(oid, '%s passes %s to %s, which writes it' % (what, ext[0], g['q']), C.evwhere(e))
    if not bad:
        if I.unknown:
            C.und(oid, what + ': not fully modelled: %s' % (str(I.unknown[0])[:120],), C.where(f))
        else:
            C.ok(oid, '%s: %d stores, none reaches an object handed over' % (what, n), C.where(f))


def nm(f):
    return f['q'].split('lpaggreg::')[-1] + ('/%d' % len(f['ps']))


def rule_compute(C):
    """partitioners, partitions, parts, aggregations: no operation writes an object reached through its arguments or through a member that was handed over at construction"""
    cache = {}
    pub = declared(C)
    cl = family(C, COMPUTE)
    for f in entries(C, cl):
        key = f['key']
        if C.copyctor(f, f['cls']):
            continue
        ispub = key in pub or f.get('ctor')
        priv = not ispub
        if priv and not C.P.recursive(key):
            continue          # inlined in its callers
        I = analyse(C, f, cache)
        inp = set() if f.get('ctor') else inputs_of(C, f['cls'], cache)
        judge_writes(C, f, I, inp, cache, 'inputs.' + nm(f), f['q'], argext=not priv)


def rule_qualities(C):
    """computing or normalising qualities never writes the values"""
    cache = {}
    cl = family(C, QUALS)
    for f in entries(C, cl):
        if f['key'] not in declared(C) and not f.get('ctor') and not C.P.recursive(f['key']) or C.copyctor(f, f['cls']):
            continue
        I = analyse(C, f, cache)
        inp = set()
        if not f.get('ctor'):
            try:
                v = C.interp().call(C.meth(f['cls'], 'getQualities', 0)['key'], cls=f['cls'])
                own = v[1] if isinstance(v, tuple) and v and v[0] == 'ldp' else None
            except Anchor:
                own = None
            inp = {x for x in inputs_of(C, f['cls'], cache) if x != own}
        judge_writes(C, f, I, inp, cache, 'values.' + nm(f), f['q'])


def rule_pure(C):
    """queries, getters and comparisons write neither their object nor their operands"""
    cache = {}
    obs = observable(C)
    cl = family(C, COMPUTE + QUALS + VALUES + ['Quality', 'Tradeoff']) + [c for c in C.P.records if c.startswith('lpaggreg::UpperTriangularMatrix<') or c.endswith(('Proxy', 'MetaData'))]
    pure = []
    for f in entries(C, list(dict.fromkeys(cl))):
        if f['key'] not in declared(C) or f.get('ctor'):
            continue
        n = f['n']
        if f.get('const') or n.startswith('get') or n in ('computeAUC', 'computeBestPartition', 'size') or f.get('op') == '[]' or \
           f.get('op') == '()' and f['rt'] != 'void' or f.get('op') in ('==', '!=', '<', '>', '<=', '>='):
            pure.append(f)
    for f in C.P.functions.values():
        if not f.get('cls') and f.get('op') and f.get('b') is not None and f['file'] and '/src/' in f['file']:
            pure.append(f)
    for f in pure:
        I = analyse(C, f, cache)
        O = Origin(I, ())
        bad = False
        w = C.where(f)
        for e, l in stores(I):
            r = O.loc(e.loc)
            b = root(e.loc)
            if 'own' in r and not any(p in obs or p[0] == 'deref' for p in prefixes(e.loc)):
                continue      # private working storage, not visible to the user
            if 'own' in r or any(isinstance(x, tuple) for x in r):
                if f.get('op') in ('<<', '>>') and b == ('arg', 0):
                    continue
                g = list(conj(e.guard)) + [x for L in l for x in L.facts]
                if I.entails(g, F):
                    continue
                bad = True
                C.bad('pure.' + nm(f), '%s only answers a question but writes %s' % (f['q'], show_loc(e.loc)), C.evwhere(e))
        if not bad:
            (C.und if I.unknown else C.ok)('pure.' + nm(f), f['q'] + ' writes nothing of its object or operands' + (' (not fully modelled)' if I.unknown else ''), w)


def observable(C):
    """members some getter reports"""
    if not hasattr(C.P, '_obs'):
        out = set()
        for f in C.P.functions.values():
            if f.get('cls') and f.get('b') is not None and f['n'].startswith('get') and not f['ps'] and not f.get('implicit'):
                out |= set(memberrefs(C, f))
        for q, r in C.P.records.items():      # containers of the value classes are reported through their operators
            for x in r.get('fields', []):
                if strip(x['t']).startswith(('std::vector<', 'std::map<', 'std::list<')) or x['t'] in ('double', 'long double'):
                    if any(f.get('cls') == q and f.get('op') in ('()', '[]') for f in C.P.functions.values()):
                        out.add(('fld', ('this',), q + '::' + x['n']))
        C.P._obs = out
    return C.P._obs


def memberrefs(C, f):
    out = []
    def w(o):
        if isinstance(o, dict):
            if o.get('k') == 'mem' and o.get('rc') and o.get('b', {}).get('k') in ('this', 'cast'):
                out.append(('fld', ('this',), o['rc'] + '::' + o['n']))
            for v in o.values():
                w(v)
        elif isinstance(o, list):
            for v in o:
                w(v)
    w(f.get('b'))
    return out


def kept(I):
    """[(member an operation reads at its start, the store of the same operation to it)]"""
    written = {}
    for e, l in stores(I):
        if root(e.loc) == ('this',):
            written.setdefault(fam(e.loc), e)
    out = []
    def look(t):
        if not isinstance(t, tuple):
            return
        for n in nodes(t):
            if n[0] in ('ld', 'ldp') and len(n) > 2 and n[2] == 0 and isinstance(n[1], tuple) and n[1] and n[1][0] != 'size' and root(n[1]) == ('this',):
                for w in written:
                    if fam(n[1]) == w or any(fam(p) == w for p in prefixes(n[1])):
                        out.append((n[1], written[w]))
    for e, l in flat(I.events):
        if e.kind in ('write', 'push', 'init', 'copyobj'):
            look(e.val)
        look(e.guard)
        for v in (getattr(e, 'comps', None) or {}).values():
            look(v)
    look(I.retval)
    return out


def rule_history(C):
    """an operation that reports a result keeps no state that a later call of it reads"""
    cache = {}
    for f in entries(C, family(C, COMPUTE + QUALS + VALUES)):
        if f['key'] not in declared(C) or f.get('ctor') or f['n'] in ('computeBestPartitions',):
            continue
        if f['rt'] == 'void' and f['n'] != 'computeQualities':
            continue
        I = analyse(C, f, cache)
        if not any(root(e.loc) == ('this',) for e, l in stores(I)):
            C.ok('history.' + nm(f), f['q'] + ' stores nothing in its object', C.where(f))
            continue
        hit = (kept(I) or [None])[0]
        if hit:
            C.bad('history.' + nm(f), '%s stores %s and reads it again in a later call: the result depends on what was computed before' % (f['q'], show_loc(hit[0])), C.evwhere(hit[1]))
        else:
            C.ok('history.' + nm(f), f['q'] + ' reads nothing that an earlier call of it stored', C.where(f))


def rule_copied(C):
    """value containers hold their data by value"""
    for c in family(C, VALUES) + [C.cls('HValuesMetaData')]:
        for f in C.P.records[c].get('fields', []):
            t = strip(f['t'])
            oid = 'copied.%s.%s' % (c.split('::')[-1], f['n'])
            w = '%s:%s' % (frontend.rel(C.P.records[c]['file']), f['l'])
            if f['t'].rstrip().endswith('&') or t.endswith('*') or 'reference_wrapper<' in t or isptr(t) or re.search(r'[*&]', t):
                if isptr(t) and not t.endswith('*'):
                    shared(C, c, f, oid, w)
                else:
                    C.bad(oid, '%s refers to the caller\'s data (%s): the container handed over is not copied' % (f['n'], f['t']), w)
            else:
                C.ok(oid, '%s is held by value (%s)' % (f['n'], t), w)


    cache = {}
    for f in entries(C, family(C, VALUES) + [C.cls('HValuesMetaData')]):
        if (f['key'] in declared(C) or f.get('ctor')) and not C.copyctor(f, f['cls']):
            judge_writes(C, f, analyse(C, f, cache), (), cache, 'copied.' + nm(f), f['q'])


def shared(C, c, f, oid, w):
    for k in C.ctors(c):
        I = C.interp()
        I.call(k['key'], cls=c)
        v = I.load(floc(c, f), f['t'])
        if any(isinstance(x, tuple) for x in Origin(I, ()).ptr(v)):
            return C.bad(oid, '%s points to the caller\'s object' % f['n'], w)
    if any(m.get('copy') and m.get('ctor') and m.get('user') for m in C.P.records[c]['methods']):
        return C.ok(oid, '%s owns its data' % f['n'], w)
    C.und(oid, '%s is a shared pointer' % f['n'], w)


def rule_tradeoff_copy(C):
    """a trade-off never shares its quality object with the object it was copied, built or set from"""
    t = C.cls('Tradeoff')
    ptrs = [f for f in C.P.records[t]['fields'] if isptr(f['t'])]
    w0 = '%s:%s' % (frontend.rel(C.P.records[t]['file']), C.P.records[t]['l'])
    if not ptrs:
        return C.ok('tradeoff', 'no pointer member: every copy is independent', w0)
    ms = C.P.records[t]['methods']
    for kind, test in (('copy constructor', lambda m: m.get('ctor') and m.get('copy')), ('copy assignment', lambda m: m['n'] == 'operator=' and len(m['ps']) == 1 and '&&' not in m['ps'][0])):
        m = [x for x in ms if test(x)]
        if any(x.get('user') for x in m):
            C.ok('tradeoff.' + kind, 'user-provided ' + kind, w0)
        elif any(x.get('del') for x in m):
            C.ok('tradeoff.' + kind, 'no ' + kind, w0)
        else:
            C.bad('tradeoff.' + kind, 'the implicit %s of Tradeoff copies the pointer %s: the copies share one quality' % (kind, ptrs[0]['n']), w0)
    cache = {}
    for f in entries(C, [t]):
        I = C.interp()
        I.call(f['key'], cls=t)
        C.used(I, f)
        move = any('&&' in p['t'] for p in f['ps'])
        for p in ptrs:
            oid = 'tradeoff.%s.%s' % (nm(f), ','.join(strip(x['t']).split('::')[-1] for x in f['ps']))
            v = I.load(floc(t, p), p['t'])
            O = Origin(I, ())
            r = O.ptr(v)
            ext = [x[1] for x in r if isinstance(x, tuple)]
            if ext and not move:
                C.bad(oid, 'after %s the trade-off shares the quality of %s' % (f['q'], ext[0]), C.where(f))
            elif '?' in r and I.unknown:
                C.und(oid, 'not modelled', C.where(f))
            else:
                C.ok(oid, 'own quality object', C.where(f))
        if not move:
            judge_writes(C, f, I, (), cache, 'tradeoff.operand.' + nm(f), f['q'])
    for f in C.P.functions.values():
        if f.get('cls') or not f.get('op') or f.get('b') is None or strip(f['rt']) != t:
            continue
        I = C.interp()
        r = I.call(f['key'])
        C.used(I, f)
        for p in ptrs:
            oid = 'tradeoff.result.' + nm(f)
            if not isinstance(r, LV):
                C.und(oid, 'result not modelled', C.where(f))
                continue
            v = I.load(floc(t, p, I.canon(r.loc)), p['t'])
            ext = [x[1] for x in Origin(I, ()).ptr(v) if isinstance(x, tuple)]
            if ext:
                C.bad(oid, 'the result of %s shares the quality of %s' % (f['q'], ext[0]), C.where(f))
            else:
                C.ok(oid, 'the result has a quality of its own', C.where(f))



# ------------------------------------------------------------------ C23
DENY = [
    (r'^(std::)?(rand|srand|random|srandom|drand48|erand48|lrand48|nrand48|mrand48|jrand48|srand48|rand_r|arc4random.*|getrandom|getentropy)$', 'randomness'),
    (r'^std::(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|shuffle|random_shuffle|uniform_\w+|normal_distribution|bernoulli_distribution|shuffle_order_engine|discard_block_engine|independent_bits_engine|default_random_engine)\b', 'randomness'),
    (r'^(std::)?(time|clock|gettimeofday|clock_gettime|timespec_get|localtime|gmtime|localtime_r|ftime|times|getrusage|__rdtsc|__builtin_ia32_rdtsc)$', 'time'),
    (r'^std::chrono::.*::now$', 'time'),
    (r'^(std::)?(getenv|secure_getenv|setenv|putenv|unsetenv|getpid|getppid|getuid|gethostname|uname|getcwd|sysconf|setlocale|localeconv|fesetround|fesetenv|fegetround|signal|raise)$', 'the environment'),
    (r'^std::locale::global$', 'the environment'),
    (r'^std::this_thread::|^pthread_self$|^std::thread::(id|hardware_concurrency)', 'the running thread'),
    (r'^(std::)?(v?f?printf|puts|putchar|putc|fputs|fputc|fwrite|fread|f?scanf|getchar|gets|fgets|fopen|freopen|fclose|perror|system|popen|remove|rename|tmpfile|tmpnam|open|read|write|unlink|mkdir|stat|fflush)$', 'input or output'),
    (r'^std::(basic_)?(ofstream|ifstream|fstream|filebuf)\b|^std::filesystem::', 'input or output'),
]
EXTIO = {'std::cout', 'std::cerr', 'std::clog', 'std::cin', 'std::wcout', 'std::wcerr', 'std::wcin', 'stdout', 'stderr', 'stdin', 'environ'}


def own_functions(C):
    return [f for f in C.P.functions.values() if f.get('b') is not None and not f.get('implicit') and '/src/' in (f.get('file') or '')]


def each(o, g):
    if isinstance(o, dict):
        g(o)
        for v in o.values():
            each(v, g)
    elif isinstance(o, list):
        for v in o:
            each(v, g)


def eroot(n):
    """the variable an lvalue expression is part of"""
    while isinstance(n, dict):
        k = n.get('k')
        if k == 'mem':
            if n.get('arrow'):
                return n if False else eroot(n['b'])
            n = n['b']
        elif k == 'sub':
            n = n['a']
        elif k in ('cast', 'mat'):
            n = n['e']
        elif k == 'call' and n.get('obj') is not None and (n.get('op') in ('[]', '()', '*', '->') or n.get('rref')):
            n = n['obj']
        elif k == 'un' and n.get('op') in ('*', '&', '++', '--'):
            n = n['e']
        elif k == 'asg':
            n = n['a']
        elif k == 'cond':
            return eroot(n['a']) or eroot(n['b'])
        else:
            return n
    return None


def line(C, f, n):
    return '%s:%s' % (frontend.rel(f.get('file') or ''), n.get('l') or f.get('l'))


def mutations(C):
    """global variables (their names) with the places that may change them"""
    out = {}
    def at(f, n, why, x):
        r = eroot(x)
        if isinstance(r, dict) and r.get('k') == 'var' and r.get('g'):
            out.setdefault(r['g'], []).append((line(C, f, n), why))
    for f in C.P.functions.values():
        if f.get('b') is None:
            continue
        def g(n):
            k = n.get('k')
            if k == 'asg':
                at(f, n, 'assigned', n['a'])
            elif k == 'un' and n.get('op') in ('++', '--'):
                at(f, n, 'stepped', n['e'])
            elif k == 'un' and n.get('op') == '&':
                at(f, n, 'address taken', n['e'])
            elif k == 'call':
                if n.get('obj') is not None and not n.get('const') and not n.get('static') and not (n.get('op') in ('[]', '()', '*', '->') or n['n'] in ('begin', 'end', 'at', 'front', 'back', 'data', 'find', 'rbegin', 'rend')):
                    at(f, n, 'modified by ' + n['n'], n['obj'])
                elif n.get('obj') is not None and n['n'] == 'operator[]' and strip(n.get('cls') or '').startswith(('std::map', 'std::unordered_map')):
                    at(f, n, 'extended by operator[]', n['obj'])
                for a, r in zip(n.get('args', []), n.get('pr', [])):
                    if r == 1:
                        at(f, n, 'passed to ' + n['n'], a)
            elif 'id' in n and 'init' in n and n.get('ref') and not n.get('t', '').startswith('const '):
                at(f, n, 'bound to a reference', n['init'])
        each(f.get('b'), g)
        each(f.get('inits'), g)
    return out


def rule_state(C):
    """no variable outside objects is ever changed, none is initialised from the first caller's data"""
    mut = mutations(C)
    seen = 0
    for (q, fl), g in sorted(C.P.globals.items(), key=str):
        where = '%s:%s' % (frontend.rel(g.get('file') or ''), g.get('l'))
        if g.get('ext'):
            if q in EXTIO:
                for f in own_functions(C):
                    hit = []
                    each(f['b'], lambda n: hit.append(n) if n.get('k') == 'var' and n.get('g') == q else None)
                    for h in hit[:1]:
                        C.bad('io.' + q, '%s uses %s' % (f['q'], q), line(C, f, h))
            continue
        if '/src/' not in (g.get('file') or ''):
            continue
        seen += 1
        oid = 'state.' + q
        ms = mut.get(q, [])
        dep = []
        if g.get('sl'):
            each(g.get('init'), lambda n: dep.append(n) if n.get('k') == 'this' or n.get('k') == 'var' and not n.get('g') else None)
        if ms and not g.get('constexpr') and not (g.get('const') and all(w == 'address taken' or w.startswith('passed') for l, w in ms)):
            C.bad(oid, '%s is shared by every object and changed (%s)' % (q, ms[0][1]), ms[0][0])
        elif dep:
            C.bad(oid, 'the static variable %s keeps the value of the first call (initialised from %s)' % (q, dep[0].get('n', 'this')), where)
        else:
            C.ok(oid, '%s is never changed' % q, where)
    C.ok('state', '%d variables with static storage in %d functions' % (seen, len(own_functions(C))))


def rule_callees(C):
    """no call to a source of randomness, time, environment, thread identity or input/output"""
    n = 0
    names = set()
    for f in own_functions(C):
        C.functions.add(f['q'])
        def g(x):
            nonlocal n
            k = x.get('k')
            if k in ('call', 'fn') and not x.get('repo') and x.get('q') or k == 'ctor' and not x.get('repo'):
                q = x.get('q') or strip(x.get('t') or x.get('cls') or '')
                n += 1
                names.add(q)
                for rx, what in DENY:
                    if re.search(rx, q) or k == 'call' and x.get('cls') and re.search(rx, strip(x['cls'])):
                        C.bad('callee.' + q, '%s depends on %s through %s' % (f['q'], what, q), line(C, f, x))
                        return
            elif k == 'icall' and not (x.get('fn') or {}).get('k') in ('lambda', 'fn'):
                C.und('callee.indirect', '%s calls through a pointer' % f['q'], line(C, f, x))
        each(f.get('b'), g)
        each(f.get('inits'), g)
    C.ok('callees', '%d calls leave the library, to %d functions of the standard library, none a source of outside influence' % (n, len(names)))


def ptrtype(t):
    t = strip(t)
    return t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<'))


def keyed(t):
    """ordered or hashed container whose key is a pointer"""
    t = strip(t)
    for h in ('std::map<', 'std::set<', 'std::multimap<', 'std::multiset<', 'std::unordered_map<', 'std::unordered_set<'):
        if t.startswith(h):
            a = targs(t)
            return bool(a) and ptrtype(a[0]) and not (len(a) > (2 if 'map' in h else 1) and 'less' not in a[2 if 'map' in h else 1] and 'unordered' not in h)
    return False


def rule_addresses(C):
    """no decision depends on the order of addresses"""
    n = 0
    for f in own_functions(C):
        def g(x):
            nonlocal n
            k = x.get('k')
            w = line(C, f, x)
            if k == 'bin' and x.get('op') in ('<', '>', '<=', '>='):
                n += 1
                t = strip(x.get('ct') or '')
                if t.endswith('*'):
                    (C.bad if 'lpaggreg::' in t or t == 'void *' else C.und)('address.order', '%s compares the addresses of %s' % (f['q'], t), w)
            elif k == 'call':
                if x.get('q') in ('std::operator<', 'std::operator>', 'std::operator<=', 'std::operator>=') and 'shared_ptr' in (x.get('f') or ''):
                    hit = [a for a in x.get('args', [])]
                    if re.search(r'^_ZSt(lt|gt|le|ge)I.*RKSt10shared_ptr', x['f']):
                        C.bad('address.order', '%s orders objects by their addresses' % f['q'], w)
                if re.match(r'^std::(hash|less|greater|less_equal|greater_equal)<.*(\*|shared_ptr<.*>)>::operator\(\)$', x.get('q', '')) or x.get('q', '').endswith('::owner_before'):
                    C.bad('address.order', '%s uses the address of an object as a number' % f['q'], w)
                if x['n'] in ('begin', 'rbegin', 'cbegin', 'lower_bound', 'upper_bound') and x.get('obj') is not None and keyed(x.get('ot') or ''):
                    C.bad('address.iterate', '%s visits a container ordered by addresses' % f['q'], w)
                if x.get('q') in ('std::sort', 'std::stable_sort', 'std::min_element', 'std::max_element', 'std::make_heap', 'std::partial_sort', 'std::lower_bound') and len(x['args']) == 2:
                    ta = x.get('targs') or ''
                    if re.search(r'__normal_iterator<(std::shared_ptr<.*>|[^,]*\*) ?\*,', ta):
                        C.bad('address.order', '%s sorts pointers by address' % f['q'], w)
            elif k == 'rfor' and keyed(x.get('rt') or ''):
                C.bad('address.iterate', '%s visits a container ordered by addresses' % f['q'], w)
            elif k == 'cast' and x.get('ck') == 'PointerToIntegral':
                C.bad('address.number', '%s turns an address into a number' % f['q'], w)
        each(f.get('b'), g)
        each(f.get('inits'), g)
    C.ok('addresses', '%d ordering comparisons inspected, none of addresses' % n)


RULES = {'C22': [rule_compute, rule_qualities, rule_pure, rule_history, rule_copied, rule_tradeoff_copy],
         'C23': [rule_state, rule_callees, rule_addresses]}
