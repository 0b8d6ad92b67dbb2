"""C26: quality numbers keep their extended precision end to end."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction
from .core import *
from .r_effects import each

RANK = {'float': 1, 'double': 2, 'long double': 3}
QT = 'long double'
# the query that computes in its narrower result type, by definition
QUERIES = ['computeAUC']
# classes whose arithmetic is on the input data's own type (C01, C19), not on qualities
DATA = re.compile(r'lpaggreg::([OHD]Aggregat|[OHD]Values)')
EXACTFUN = {'abs', 'fabs', 'fabsf', 'min', 'max', 'fmin', 'fmax', 'fminf', 'fmaxf', 'swap', 'move', 'forward', 'isnan', 'isinf', 'isfinite', 'signbit', 'copysign', 'floor', 'ceil', 'trunc'}


def bare(t):
    return re.sub(r'\bconst\b|\bvolatile\b|&', '', t or '').strip()


def rank(t):
    return RANK.get(bare(t), 0)


def integral(t):
    return re.match(r'^(unsigned |signed )?(bool|char|short|int|long|long long|unsigned|size_t)( int)?$', bare(t)) is not None


def ntype(n):
    return n.get('rt') if n.get('k') == 'call' else n.get('t')


def queries(C):
    """the final queries and the helpers only they use"""
    P = C.P
    part = C.cls('Partitioner')
    tops = {f['key'] for f in P.functions.values() if f.get('b') is not None and f['n'] in QUERIES and f.get('cls') in [part] + P.derived(part)}
    if not tops:
        raise Anchor('Partitioner::' + QUERIES[0])
    callers = {}
    for k in P.functions:
        for c in P.callees(k):
            callers.setdefault(c, set()).add(k)
    out, ch = set(tops), True
    while ch:
        ch = False
        for k in P.functions:
            if k not in out and callers.get(k) and callers[k] <= out | {k}:
                out.add(k)
                ch = True
    return out


class Flow:
    """what the floating values of one function carry: 'const', 'int' (counts), 'par' (the trade-off parameter, a float), 'data'"""
    ORDER = ['const', 'int', 'par', 'data']

    def __init__(s, C, f):
        s.P, s.f = C.P, f
        s.stores = {}
        s.params = {p['id']: p for p in f.get('ps', ())}
        def g(n):
            if n.get('k') == 'decl':
                for v in n['vs']:
                    s.stores.setdefault(v['id'], []).append(v.get('init'))
            elif n.get('k') == 'asg' and n['a'].get('k') == 'var':
                s.stores.setdefault(n['a']['id'], []).append(n['b'])
        each(f.get('b'), g)

    def join(s, xs):
        r = 'const'
        for x in xs:
            if s.ORDER.index(x) > s.ORDER.index(r):
                r = x
        return r

    def cls(s, n, seen=()):
        if not isinstance(n, dict):
            return 'const'
        k = n.get('k')
        if k in ('int', 'flt', 'bool', 'null', 'str', 'char', 'sizeof'):
            return 'const'
        if k in ('cast', 'mat', 'un', 'expr') and 'e' in n:
            return s.cls(n['e'], seen)
        if k == 'bin' or k == 'asg':
            return s.join([s.cls(n['a'], seen), s.cls(n['b'], seen)])
        if k == 'cond':
            return s.join([s.cls(n['a'], seen), s.cls(n['b'], seen)])
        t = ntype(n)
        if integral(t):
            return 'int'
        if k == 'var':
            if n.get('g'):
                return 'const' if 'const' in (n.get('t') or '') or n.get('cq') else 'data'
            if n['id'] in seen:
                return 'const'
            if n['id'] in s.params or n['id'] not in s.stores:
                return 'par' if rank(t) == 1 else 'data'
            return s.join([s.cls(x, seen + (n['id'],)) for x in s.stores[n['id']] if x is not None] + (['par'] if rank(t) == 1 else []))
        if k == 'call' and not n.get('repo') and n.get('n') in EXACTFUN | {'lround', 'round', 'sqrt', 'log', 'log2', 'pow', 'exp', 'operator*', 'operator[]', 'get'} and n.get('n') not in ('operator*', 'operator[]', 'get'):
            return s.join([s.cls(a, seen) for a in n['args']])
        if rank(t) == 1:
            return 'par'
        return 'data'

    def arith(s, n, seen=(), depth=0):
        """the first arithmetic step below n that is carried out narrower than the quality type and can round"""
        if not isinstance(n, dict) or depth > 40:
            return None
        k = n.get('k')
        if k in ('mat', 'expr') or k == 'cast' and (n.get('ck') in ('FloatingCast', 'NoOp', 'LValueToRValue') or 'ck' not in n):
            return s.arith(n.get('e'), seen, depth + 1)
        if k == 'bin' and n['op'] in '+-*/' and 0 < rank(n.get('t')) < 3:
            c = s.cls(n)
            if c == 'data' or c == 'int' and n['op'] == '/' or c == 'const' and n['op'] == '/' and not exactconst(n):
                return n
            return s.arith(n['a'], seen, depth + 1) or s.arith(n['b'], seen, depth + 1)
        if k == 'un' and n.get('op') in ('-', '+'):
            return s.arith(n['e'], seen, depth + 1)
        if k == 'cond':
            return s.arith(n['a'], seen, depth + 1) or s.arith(n['b'], seen, depth + 1)
        if k == 'call' and not n.get('repo') and 0 < rank(n.get('rt')) < 3 and rank(n.get('rt')) == 2:
            if n.get('n') in EXACTFUN:
                for a in n['args']:
                    r = s.arith(a, seen, depth + 1)
                    if r:
                        return r
            elif n.get('n') in ROUNDING and s.cls(n) != 'par':
                return n
        if k == 'var' and n.get('id') in s.stores and n['id'] not in seen and 0 < rank(n.get('t')) < 3:
            for x in s.stores[n['id']]:
                r = s.arith(x, seen + (n['id'],), depth + 1)
                if r:
                    return r
        return None


ROUNDING = {'log', 'log2', 'log10', 'log1p', 'exp', 'exp2', 'pow', 'sqrt', 'cbrt', 'expm1', 'sin', 'cos', 'hypot', 'fma', 'accumulate', 'inner_product', 'logf', 'powf', 'sqrtf'}


def exactconst(n):
    """a constant expression computed without rounding"""
    def ev(n):
        k = n.get('k')
        if k == 'int':
            return Fraction(int(n['v']))
        if k == 'flt':
            return Fraction(float(n['v']))
        if k in ('cast', 'mat', 'expr'):
            return ev(n['e'])
        if k == 'un' and n['op'] == '-':
            return -ev(n['e'])
        if k == 'bin':
            a, b = ev(n['a']), ev(n['b'])
            return {'+': a + b, '-': a - b, '*': a * b, '/': a / b if b else 0}[n['op']]
        raise ValueError
    try:
        v = ev(n)
        return Fraction(float(v)) == v
    except Exception:
        return False


def inexact(n):
    """a literal of a narrower type whose digits were cut (its mantissa is full)"""
    while isinstance(n, dict) and n.get('k') in ('cast', 'mat', 'expr') and n.get('k') != 'flt':
        n = n.get('e')
    if isinstance(n, dict) and n.get('k') == 'un':
        return inexact(n.get('e'))
    if isinstance(n, dict) and n.get('k') == 'flt' and rank(n.get('t')) in (1, 2):
        m = Fraction(float(n['v'])).numerator
        return m.bit_length() > 20 and abs(float(n['v'])) > 1e-6        # smaller ones are comparison tolerances
    return False


def scope(C):
    q = queries(C)
    for k, f in sorted(C.P.functions.items(), key=lambda kf: (kf[1].get('file') or '', kf[1].get('l') or 0)):
        if f.get('b') is None or not (f.get('file') or '').startswith(os.path.join(frontend.REPO, 'src')):
            continue
        yield k, f, k in q, bool(DATA.search(f.get('cls') or f['q']))


def at(f, n):
    return '%s:%s' % (frontend.rel(f.get('file') or ''), n.get('l') or f.get('l'))


def short(f):
    return f['q'].replace('lpaggreg::', '')


def rule_narrowing(C):
    """no value of the quality type is converted to a narrower type outside the final queries"""
    nf = nc = 0
    for k, f, isq, isdata in scope(C):
        if isq:
            continue
        nf += 1
        C.functions.add(f['q'])
        F = Flow(C, f)
        oid = 'narrow.%s' % k
        bads = []
        def g(n):
            nonlocal nc
            if n.get('k') != 'cast' or n.get('ck') not in ('FloatingCast', 'FloatingToIntegral'):
                return
            nc += 1
            a, b = rank(n.get('ft')), rank(n.get('t'))
            if n['ck'] == 'FloatingCast' and b >= a:
                return
            if n['ck'] == 'FloatingToIntegral' and a < 3:
                return
            c = F.cls(n['e'])
            if c in ('const', 'int', 'par'):
                if c == 'const' and not (n['ck'] == 'FloatingCast'):
                    return
                return
            if a == 2 and isdata:
                return
            bads.append(n)
        each(f['b'], g)
        each(f.get('inits'), g)
        if bads:
            for n in bads:
                C.bad(oid, '%s converts a %s value to %s: %s' % (short(f), bare(n['ft']), bare(n['t']), 'its digits below that type are lost'), at(f, n))
        else:
            C.ok(oid, 'no narrowing conversion in ' + short(f))
    C.ok('narrow.all', '%d functions, %d floating conversions' % (nf, nc))


def rule_arithmetic(C):
    """quality code computes in the quality type: no double arithmetic on data, no narrower function or cut constant feeding a quality"""
    nf = nops = 0
    for k, f, isq, isdata in scope(C):
        if isq or isdata:
            continue
        nf += 1
        C.functions.add(f['q'])
        F = Flow(C, f)
        oid = 'arith.%s' % k
        bads = []
        def g(n):
            nonlocal nops
            kk = n.get('k')
            if kk == 'bin' and n['op'] in '+-*/' and 0 < rank(n.get('t')) < 3:
                nops += 1
                if rank(n['t']) == 2 and F.cls(n) == 'data':
                    bads.append((n, 'computes on data in %s' % bare(n['t'])))
            if kk == 'asg' and n['op'] in ('+=', '-=', '*=', '/=') and 0 < rank(n.get('t')) < 3:
                nops += 1
                c = F.join([F.cls(n['a']), F.cls(n['b'])])
                if c == 'data' and not (rank(n['t']) == 1 and F.cls(n['b']) in ('par', 'int', 'const')):
                    bads.append((n, 'accumulates data in %s' % bare(n['t'])))
            if kk == 'call' and not n.get('repo') and rank(n.get('rt')) in (1, 2) and n.get('n') in ROUNDING and F.cls(n) == 'data':
                bads.append((n, 'calls %s in %s' % (n['n'], bare(n['rt']))))
            if kk == 'cast' and n.get('ck') == 'FloatingCast' and rank(n.get('t')) == 3 and rank(n.get('ft')) in (1, 2):
                nops += 1
                r = F.arith(n['e'])
                if r is not None and not any(b[0] is r for b in bads):
                    bads.append((r, 'a step that feeds a quality is rounded to %s' % bare(ntype(r))))
            if kk == 'bin' and n['op'] in '*/' and rank(n.get('t')) == 3 or kk == 'asg' and n['op'] in ('*=', '/=') and rank(n.get('ct') or n.get('t')) == 3:
                nops += 1
                for s in (n['a'], n['b']):
                    if inexact(s):
                        bads.append((n, 'a constant of a narrower type, already rounded, enters a quality'))
        each(f['b'], g)
        each(f.get('inits'), g)
        if bads:
            for n, m in bads:
                C.bad(oid, '%s: %s' % (short(f), m), at(f, n))
        else:
            C.ok(oid, 'quality arithmetic of %s in the quality type' % short(f))
    # constants shared by the quality code
    for (q, file), g in C.P.globals.items():
        if '/src/' not in (file or '') or rank(g.get('t')) == 0:
            continue
        oid = 'const.' + q
        if rank(g['t']) < 3:
            C.bad(oid, 'the shared constant %s is of type %s' % (q, bare(g['t'])), '%s:%s' % (frontend.rel(file), g['l']))
            continue
        F = Flow(C, {'b': None, 'ps': []})
        bad = []
        def h(n):
            if n.get('k') == 'call' and rank(n.get('rt')) in (1, 2) and n.get('n') in ROUNDING:
                bad.append(n)
            if n.get('k') == 'bin' and rank(n.get('t')) in (1, 2) and n['op'] in '+-*/' and not exactconst(n):
                bad.append(n)
        each(g.get('init'), h)
        if bad or inexact(g.get('init')):
            C.bad(oid, 'the constant %s is computed in a narrower type' % q, '%s:%s' % (frontend.rel(file), g['l']))
        else:
            C.ok(oid, 'constant %s in the quality type' % q)
    C.ok('arith.all', '%d functions, %d floating steps' % (nf, nops))


def rule_types(C):
    """what a user reads as a gain, a loss or a trade-off value has the quality type"""
    P = C.P
    n = 0
    def want(oid, t, what, f):
        nonlocal n
        n += 1
        if rank(t) == 3:
            C.ok(oid, what)
        else:
            C.bad(oid, '%s has type %s' % (what, bare(t)), C.where(f))
    for cl, names in (('Quality', ('getGain', 'getLoss')), ('Tradeoff', ('getValue',))):
        c = C.cls(cl)
        for nm in names:
            for f in C.meths(c, nm):
                want('type.%s.%s' % (cl, nm), f['rt'], '%s::%s' % (cl, nm), f)
        for nm in ('setGain', 'setLoss', 'addToGain', 'addToLoss'):
            for f in C.meths(c, nm):
                if len(f['ps']) == 1:
                    want('type.%s.%s' % (cl, nm), f['ps'][0]['t'], '%s::%s argument' % (cl, nm), f)
        for f in C.ctors(c):
            ts = [p for p in f['ps'] if rank(p['t'])]
            if cl == 'Quality':
                for i, p in enumerate(ts):
                    want('type.Quality.ctor.%d' % i, p['t'], 'Quality constructor argument %s' % p['n'], f)
    for cl in ('OPartitioner', 'HPartitioner', 'DPartitioner'):
        c = C.cls(cl)
        for f in C.meths(c, 'getPartitionsTuples'):
            m = re.search(r'tuple<(.*?)>', f['rt'])
            cols = [x.strip() for x in m.group(1).split(',')] if m else []
            if not m:
                C.und('type.%s.tuples' % cl, 'result of getPartitionsTuples is %s' % f['rt'])
                continue
            for i in (-2, -1):
                want('type.%s.tuples.%d' % (cl, i), cols[i], '%s::getPartitionsTuples %s column' % (cl, 'gain' if i == -2 else 'loss'), f)
    for nm in ('entropy', 'entropyReduction', 'divergence'):
        for f in P.functions.values():
            if f['n'] == nm and f.get('b') is not None and not f.get('cls'):
                want('type.%s' % nm, f['rt'], nm, f)
                for p in f['ps']:
                    if rank(p['t']):
                        want('type.%s.%s' % (nm, p['n']), p['t'], '%s argument %s' % (nm, p['n']), f)
    C.ok('type.all', '%d public types' % n)


# ------------------------------------------------------------------ conversions inside library templates
def irfuncs(text):
    """(name, body lines) of the functions of one IR file"""
    cur = None
    for l in text.splitlines():
        if l.startswith('define '):
            m = re.match(r'^define .*?@"?([\w.$]+)"?\(', l)
            cur = (m.group(1), [l]) if m else None
        elif l == '}' and cur:
            yield cur
            cur = None
        elif cur:
            cur[1].append(l)


def rule_templates(C):
    """no standard-library template called from quality code narrows a quality or computes in double (compiler IR of the instantiations)"""
    exempt = queries(C)
    P = C.P
    repo = {}
    for k, f, isq, isdata in scope(C):
        repo[k] = (f, isq, isdata)
    d = tempfile.mkdtemp(prefix='lpaprec.')
    nf = 0
    hits = {}
    try:
        def job(x):
            i, (fn, args) = x
            o = os.path.join(d, '%d.ll' % i)
            r = subprocess.run(['clang++', '-S', '-emit-llvm', '-O0', '-g1', '-w', fn, '-o', o] + [a for a in args if not a.startswith('-O')], capture_output=True, text=True)
            return fn, o, r
        with ThreadPoolExecutor(8) as ex:
            for fn, o, r in ex.map(job, enumerate(P.cc)):
                if r.returncode:
                    raise Undecided('IR of %s' % frontend.rel(fn))
                text = open(o).read()
                lines = dict(re.findall(r'^(!\d+) = (?:distinct )?!DILocation\(line: (\d+)', text, re.M))
                body, calls = {}, {}
                for nm, ls in irfuncs(text):
                    body[nm] = ls
                    cs = []
                    for l in ls:
                        m = re.search(r'\b(?:call|invoke)\b[^@]*@"?([\w.$]+)"?\(', l)
                        if m:
                            dm = re.search(r'!dbg (!\d+)', l)
                            cs.append((m.group(1), lines.get(dm.group(1)) if dm else None))
                    calls[nm] = cs
                def canon(nm):
                    for v in (nm, nm.replace('C2E', 'C1E', 1), nm.replace('C1E', 'C2E', 1)):
                        if v in repo:
                            return v
                    return None
                def narrow(nm):
                    out = []
                    for l in body[nm]:
                        m = re.search(r'= fptrunc (\w+) .* to (\w+)', l)
                        if m and m.group(1) == 'x86_fp80':
                            out.append('converts long double to ' + m.group(2))
                        m = re.search(r'= fpto[su]i x86_fp80', l)
                        if m:
                            out.append('converts long double to an integer')
                        m = re.search(r'= f(add|sub|mul|div) double', l)
                        if m and not re.search(r'_Hashtable|__detail|random|chrono|complex', nm):
                            out.append('computes in double')
                    return out
                for nm, ls in body.items():
                    kk = canon(nm)
                    if kk is None or repo[kk][1] or repo[kk][2]:
                        continue
                    nf += 1
                    # library functions reachable without passing through another function of the project
                    seen, todo = set(), [(c, l) for c, l in calls[nm]]
                    while todo:
                        c, l = todo.pop()
                        if c in seen or c not in body or canon(c) is not None or c.startswith('_ZN8lpaggreg') or '_GLOBAL__' in c:
                            continue
                        if not re.match(r'_ZN?K?(St|S[abdios]|9__gnu_cxx|K?St)|_ZN[KVRO]*(St|S[absiod]|9__gnu)', c):
                            # a lambda or a helper the extractor knows under another name: its own obligations cover it
                            pass
                        seen.add(c)
                        for w in narrow(c):
                            hits.setdefault((kk, l), (w, c))
                        todo += [(x, l) for x, _ in calls[c]]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (k, l), (w, c) in sorted(hits.items(), key=str):
        f = repo[k][0]
        dn = subprocess.run(['c++filt', c], capture_output=True, text=True).stdout.strip() or c
        C.bad('template.%s' % k, '%s: the call of %s %s' % (short(f), dn[:120], w), '%s:%s' % (frontend.rel(f.get('file') or ''), l or f.get('l')))
    if not hits:
        C.ok('template.all', '%d functions, no instantiation below them narrows a quality' % nf)


RULES = {'C26': [rule_narrowing, rule_arithmetic, rule_types, rule_templates]}
