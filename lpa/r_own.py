"""C28: every object has exactly one owner group: freshly allocated objects go straight into a smart
pointer, nothing else is ever owned or deleted, nothing handed out or kept refers to storage that ends
earlier, and no class can own itself."""
import re
from .core import *
from .r_effects import each
from .r_rcpp import unit

SMART = re.compile(r'^std::(?:__)?(shared_ptr|unique_ptr)\b')
SMARTM = re.compile(r'^std::(?:__)?(shared_ptr|unique_ptr|weak_ptr)\b')
VIEW = re.compile(r'^std::(reference_wrapper|span|basic_string_view|initializer_list)\b|__normal_iterator|_iterator<|_Rb_tree_iterator|_List_iterator')
RAWFN = {'get', 'operator->', 'addressof', '__addressof', 'data'}


def bare(t):
    return re.sub(r'^(const|volatile) ', '', (t or '').replace('&', '').strip()).strip()


def smart(t):
    return SMART.match(bare(t)) is not None


def core(n):
    """the expression behind conversions"""
    while isinstance(n, dict) and n.get('k') in ('cast', 'mat'):
        n = n['e']
    return n


def rel(f):
    p = f.get('file') or ''
    for m in ('/src/', '/R/'):
        i = p.find(m)
        if i >= 0:
            return p[i + 1:]
    return p


def sname(f):
    return re.sub(r'^lpaggreg::', '', f['q'])


def kids(n):
    for v in n.values():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for w in v:
                if isinstance(w, dict):
                    yield w


def walk(n, par, g):
    """g(node, ancestors)"""
    g(n, par)
    for c in kids(n):
        walk(c, par + (n,), g)


def parts(f):
    return [x for x in [f.get('b')] + list(f.get('inits') or ()) if isinstance(x, dict)]


def bodies(P):
    for f in P.functions.values():
        if parts(f) and not f.get('implicit'):
            yield f


def scan(f, g):
    for x in parts(f):
        walk(x, (), g)


# ------------------------------------------------------------------ what a raw pointer is
class Own:
    def __init__(self, C, P):
        self.C, self.P = C, P
        self.fns = list(bodies(P))
        self.memo = {}
        self.info = {}

    def returns(self, f):
        out = []
        def g(n, par):
            if n.get('k') == 'ret' and not any(p.get('k') == 'lambda' for p in par):
                out.append(n)
        scan(f, g)
        return out

    def locals(self, f):
        """id -> (declaration, kind)"""
        k = f['key']
        if k in self.info:
            return self.info[k]
        d = {}
        for p in f.get('ps') or ():
            d[p['id']] = (p, 'param')
        def g(n, par):
            if n.get('k') == 'decl':
                for v in n['vs']:
                    d[v['id']] = (v, 'local')
            elif n.get('k') == 'rfor':
                d[n['v']['id']] = (n['v'], 'each')
            for key in ('cv',):
                if isinstance(n.get(key), dict):
                    d[n[key]['id']] = (n[key], 'local')
        scan(f, g)
        self.info[k] = d
        return d

    def fresh(self, f):
        """every value the function returns is a newly allocated object"""
        k = f['key']
        if k not in self.memo:
            self.memo[k] = False
            rs = self.returns(f)
            self.memo[k] = '*' in (f.get('rt') or '') and bool(rs) and all(self.kind(f, r.get('e'))[0] in ('fresh', 'null') for r in rs)
        return self.memo[k]

    def kind(self, f, e, depth=0):
        """(kind, node): fresh | null | this | owned (someone else owns it) | stack | local | released | ?"""
        e = core(e)
        if not isinstance(e, dict) or depth > 6:
            return '?', e
        k = e.get('k')
        if k == 'new':
            return ('placement' if e.get('placement') else 'fresh'), e
        if k in ('null', 'zero'):
            return 'null', e
        if k == 'int':
            return 'null', e
        if k == 'this':
            return 'this', e
        if k == 'cond':
            a, b = self.kind(f, e['a'], depth + 1), self.kind(f, e['b'], depth + 1)
            for bad in ('this', 'owned', 'stack'):
                for x in (a, b):
                    if x[0] == bad:
                        return x
            if a[0] == b[0] or b[0] == 'null':
                return a
            return b if a[0] == 'null' else ('?', e)
        if k == 'call':
            if e.get('n') == 'release' and e.get('cls') and 'unique_ptr' in e['cls']:
                return 'fresh', e
            if e.get('n') in ('get', 'operator->') and 'ptr' in (e.get('cls') or ''):
                return 'owned', e
            t = self.P.functions.get(e.get('f'))
            if t is not None:
                if self.fresh(t):
                    return 'fresh', e
                rs = self.returns(t)
                ks = set(self.kind(t, r.get('e'), depth + 1)[0] for r in rs)
                if ks and ks <= {'owned', 'this', 'null', 'stack'} and ks - {'null'}:
                    return 'owned', e
            return '?', e
        if k == 'un' and e.get('op') == '&':
            b = core(e['e'])
            if isinstance(b, dict):
                if b.get('k') == 'call' and b.get('op') in ('*', '->') and 'ptr' in (b.get('cls') or ''):
                    return 'owned', e
                if b.get('k') in ('mem', 'var', 'call', 'sub'):
                    return 'stack' if b.get('k') == 'var' and b['id'] in self.locals(f) else 'owned', e
            return '?', e
        if k == 'var':
            d = self.locals(f).get(e.get('id'))
            if d and d[1] == 'local' and not d[0].get('ref') and not d[0].get('static'):
                return 'local', e
            return '?', e
        return '?', e

    # -------------------------------------------------------------- a raw local that holds an allocated object
    def raw_local(self, f, v):
        """(kind of its value, uses as owner, deletes, escapes) of the raw pointer variable v"""
        vals, own, dele, esc = [], [], [], []
        d = self.locals(f)[v]
        if d[0].get('init') is not None:
            vals.append(d[0]['init'])
        def g(n, par):
            if n.get('k') == 'asg' and core(n['a']).get('k') == 'var' and core(n['a'])['id'] == v:
                vals.append(n['b'])
            if n.get('k') == 'var' and n.get('id') == v:
                p = [x for x in par if x.get('k') not in ('cast', 'mat', 'expr')]
                if not p:
                    return
                q = p[-1]
                if q.get('k') == 'asg' and core(q['a']) is n:
                    return
                if q.get('k') == 'ctor' and (smart(q.get('cls')) or smart(q.get('t'))):
                    own.append((n, par))
                elif q.get('k') == 'call' and q.get('n') == 'reset' and smart(q.get('cls')) and core(q.get('obj')) is not n:
                    own.append((n, par))
                elif q.get('k') == 'delete':
                    dele.append((n, par))
                elif q.get('k') == 'mem' or q.get('k') == 'sub' or q.get('k') == 'un' and q.get('op') in ('*', '++', '--', '!', '&') or q.get('k') == 'bin':
                    if q.get('k') == 'un' and q.get('op') == '&':
                        esc.append(n)
                elif q.get('k') == 'call' and core(q.get('obj') or {}) is n:
                    pass
                elif q.get('k') in ('if', 'while', 'for', 'cond', 'do'):
                    if q.get('k') == 'cond' and core(q['c']) is not n:
                        esc.append(n)
                else:
                    esc.append(n)
        scan(f, g)
        return vals, own, dele, esc


LOOPS = ('for', 'while', 'do', 'rfor')


def loopof(par, upto=None):
    return [id(x) for x in par if x.get('k') in LOOPS]


def declpar(f, v):
    out = [()]
    def g(n, par):
        if n.get('k') == 'decl' and any(x['id'] == v for x in n['vs']):
            out[0] = par + (n,)
    scan(f, g)
    return out[0]


def exclusive(a, b):
    """the two places are in different arms of one condition"""
    for x, y in zip(a, b):
        if x is not y:
            return False
        if x.get('k') in ('if', 'cond'):
            arms = ('t', 'e') if x['k'] == 'if' else ('a', 'b')
            ia = [k for k in arms if isinstance(x.get(k), dict) and any(z is x[k] for z in a)]
            ib = [k for k in arms if isinstance(x.get(k), dict) and any(z is x[k] for z in b)]
            if ia and ib and ia != ib:
                return True
    return False


def analyse(C, P, seen):
    O = Own(C, P)
    bad = 0
    counts = {'allocations': 0, 'owners': 0, 'references returned': 0, 'members': 0}

    def hit(f, n, what):
        nonlocal bad
        bad += 1
        C.bad('own.%s' % sname(f), what, '%s:%s' % (rel(f), (n or {}).get('l') or f.get('l', 0)))

    def und(f, n, what):
        C.und('own.%s' % sname(f), what, '%s:%s' % (rel(f), (n or {}).get('l') or f.get('l', 0)))

    for f in O.fns:
        if f['key'] in seen:
            continue
        seen.add(f['key'])
        news, owners, dels = [], [], []
        def g(n, par):
            k = n.get('k')
            if k == 'new':
                news.append((n, par))
            elif k == 'ctor' and smart(n.get('cls')) and n.get('args'):
                a = core(n['args'][0])
                pt = (n.get('pt') or [''])[0]
                if '*' in pt and not smart(pt) and 'nullptr_t' not in pt:
                    owners.append((n, n['args'], par))
                elif len(n['args']) == 2 and '*' in (n.get('pt') or ['', ''])[1]:
                    owners.append((n, None, par))          # aliasing
            elif k == 'call' and n.get('n') == 'reset' and smart(n.get('cls')) and n.get('args'):
                owners.append((n, n['args'], par))
            elif k == 'delete':
                dels.append((n, par))
        scan(f, g)
        counts['allocations'] += len(news)
        counts['owners'] += len(owners)

        # --- owners
        taken = set()
        for n, args, par in owners:
            if args is None:
                und(f, n, 'a smart pointer shares the ownership of another object')
                continue
            if len(args) > 1:
                d = core(args[1])
                while isinstance(d, dict) and d.get('k') == 'ctor' and d.get('args'):
                    d = core(d['args'][0])
                if isinstance(d, dict) and d.get('k') == 'lambda':
                    l = P.functions.get(d.get('f'))
                    if l is not None and not deletes(l):
                        hit(f, n, 'the smart pointer never releases its object: its deleter does nothing, so it only refers to an object owned elsewhere')
                        continue
                und(f, n, 'a smart pointer with its own deleter')
                taken.add(id(core(args[0])))
                continue
            kd, e = O.kind(f, args[0])
            if kd == 'this':
                hit(f, n, 'a smart pointer takes ownership of the object itself, which already has an owner: it is released twice')
            elif kd == 'owned':
                hit(f, n, 'a smart pointer takes ownership of an object that another owner already holds: it is released twice')
            elif kd == 'stack':
                hit(f, n, 'a smart pointer takes ownership of a local variable')
            elif kd == 'placement':
                und(f, n, 'placement allocation')
            elif kd == 'fresh':
                taken.add(id(e))
                if isinstance(e, dict) and e.get('k') == 'new' and e.get('array') and '[]' not in (n.get('cls') or '') + (n.get('t') or ''):
                    hit(f, n, 'an array is released as a single object')
                base(C, P, f, n, e, args[0], hit)
            elif kd == 'local':
                pass
            elif kd == '?':
                und(f, n, 'a smart pointer takes ownership of a raw pointer of unknown origin')

        # --- allocations
        rawvars = {}
        for n, par in news:
            if id(n) in taken or n.get('placement'):
                continue
            up = [x for x in par if x.get('k') not in ('cast', 'mat')]
            q = up[-1] if up else {}
            v = None
            if q.get('k') == 'cond':
                up2 = [x for x in up if x.get('k') != 'cond']
                q = up2[-1] if up2 else {}
            if q.get('k') == 'decl' or 'init' in q and 'id' in q:
                for dv in (q.get('vs') or [q]):
                    i = dv.get('init')
                    if i is not None and any(x is n for x in flat(i)):
                        v = dv['id']
            elif q.get('k') == 'asg' and core(q['a']).get('k') == 'var':
                v = core(q['a'])['id']
            if v is not None and v in O.locals(f) and O.locals(f)[v][1] == 'local':
                if smart(O.locals(f)[v][0].get('t')):
                    continue
                rawvars.setdefault(v, n)
                continue
            if q.get('k') == 'ret':
                continue                       # the caller's business: its calls count as allocations
            if q.get('k') == 'ctor' and smart(q.get('cls')) or q.get('k') == 'call' and smart(q.get('cls')):
                continue
            if q.get('k') == 'un' and q.get('op') == '*' or q.get('k') == 'expr' or q.get('k') == 'call' and core(q.get('obj') or {}) is n or q.get('k') == 'mem':
                hit(f, n, 'an allocated object is used and then forgotten: it is never released')
                continue
            if q.get('k') == 'delete':
                continue
            if q.get('k') == 'asg' and core(q['a']).get('k') == 'mem' or q.get('field'):
                m = q.get('field') or core(q['a'])['n']
                if not released(P, f.get('cls'), m):
                    hit(f, n, 'an allocated object is kept in the raw pointer %s, which no destructor releases' % m)
                else:
                    und(f, n, 'an allocated object is kept in a raw pointer that a destructor releases')
                continue
            und(f, n, 'an allocated object is handed over as a raw pointer')

        # --- calls of functions that hand out a new object
        def gc(n, par):
            if n.get('k') != 'call' or '*' not in (n.get('rt') or ''):
                return
            t = P.functions.get(n.get('f'))
            if t is None or not O.fresh(t) or id(n) in taken:
                return
            up = [x for x in par if x.get('k') not in ('cast', 'mat')]
            q = up[-1] if up else {}
            if q.get('k') in ('expr', 'block') or q.get('k') == 'un' and q.get('op') == '*' or q.get('k') == 'call' and core(q.get('obj') or {}) is n:
                hit(f, n, 'the new object %s returns is never released' % sname(t))
            elif q.get('k') == 'decl' or 'init' in q and 'id' in q:
                for dv in (q.get('vs') or [q]):
                    if dv.get('init') is not None and core(dv['init']) is n and not smart(dv.get('t')):
                        rawvars.setdefault(dv['id'], n)
        scan(f, gc)

        for v, n in rawvars.items():
            rawvar(O, f, v, n, hit, und)

        # --- a raw local given to an owner although it does not hold a new object
        for n, args, par in owners:
            if args is None or not args:
                continue
            kd, e = O.kind(f, args[0])
            if kd != 'local' or e['id'] in rawvars:
                continue
            vals, own, dele, esc = O.raw_local(f, e['id'])
            ks = [O.kind(f, x)[0] for x in vals]
            if any(x in ('owned', 'this', 'stack') for x in ks):
                hit(f, n, 'a smart pointer takes ownership of %s, which already has an owner: it is released twice' % e['n'])
            elif not ks or any(x not in ('fresh', 'null') for x in ks):
                und(f, n, 'a smart pointer takes ownership of a raw pointer of unknown origin')

        # --- deletions
        for n, par in dels:
            kd, e = O.kind(f, n['e'])
            if kd in ('owned', 'this', 'stack'):
                hit(f, n, 'an object that has another owner is deleted')
            elif kd == 'local':
                vals, own, dele, esc = O.raw_local(f, e['id'])
                ks = [(O.kind(f, x)) for x in vals]
                if any(k in ('owned', 'this', 'stack') for k, _ in ks):
                    hit(f, n, 'an object that has another owner is deleted')
                for k, x in ks:
                    if k == 'fresh' and isinstance(x, dict) and x.get('k') == 'new' and bool(x.get('array')) != bool(n.get('array')):
                        hit(f, n, 'an array is released as a single object' if x.get('array') else 'a single object is released as an array')
            elif isinstance(core(n['e']), dict) and core(n['e']).get('k') == 'mem' and f.get('dtor'):
                c = f.get('cls')
                if not copyguard(P, c):
                    hit(f, n, 'the destructor deletes %s, but copies of %s share it: it is released twice' % (core(n['e'])['n'], c.replace(NS, '')))
                else:
                    und(f, n, 'a destructor releases a raw pointer')
            elif isinstance(core(n['e']), dict) and core(n['e']).get('k') == 'var' and O.locals(f).get(core(n['e']).get('id'), (0, ''))[1] in ('param', 'each'):
                und(f, n, 'a deleted parameter')
            else:
                und(f, n, 'a deletion that is not modelled')

        # --- references and pointers that outlive what they refer to
        rt = f.get('rt') or ''
        if rt.endswith('&') or rt.endswith('*') or VIEW.search(rt):
            for r in O.returns(f):
                counts['references returned'] += 1
                w = ends(O, f, r.get('e'), rt)
                if w:
                    hit(f, r, w)
        lam = []
        def gl(n, par):
            if n.get('k') == 'lambda' and any(c.get('ref') and not c.get('this') for c in n.get('caps') or ()) and any(p.get('k') == 'ret' for p in par) and not any(p.get('k') == 'call' for p in par):
                lam.append(n)
        scan(f, gl)
        for n in lam:
            hit(f, n, 'a function object referring to local variables is returned')

    # --- members
    for q, r in P.records.items():
        if not q.startswith(NS) and '/R/' not in (r.get('file') or '') or '(lambda' in q or ('rec', q) in seen:
            continue
        seen.add(('rec', q))
        for m in r.get('fields') or ():
            counts['members'] += 1
            t = m['t']
            if '(*)' in t:
                continue
            raw = t.endswith('*') or t.endswith('*const') or t.endswith('&') or VIEW.search(t) or t.startswith('std::weak_ptr') or '*>' in t or '*,' in t or 'std::weak_ptr<' in t
            if not raw or 'char *' in t:
                continue
            wh = '%s:%s' % (rel(r), m.get('l'))
            oid = 'own.member.%s.%s' % (q.replace(NS, ''), m['n'])
            if weakowner(P, q, m):
                C.bad(oid, '%s keeps only a weak pointer to %s: the object is gone once the caller has released it' % (q.replace(NS, ''), m['n']), wh)
                bad += 1
                continue
            w = borrow(O, P, q, m)
            if w is None:
                C.ok(oid, 'a view made only by the object it refers to', wh)
            elif w[0] == 'bad':
                C.bad(oid, w[1], wh)
                bad += 1
            else:
                C.und(oid, w[1], wh)
    cycles(C, P, seen)
    return bad, counts


def flat(n):
    out = []
    walk(n, (), lambda x, p: out.append(x))
    return out


def deletes(l):
    h = []
    scan(l, lambda n, p: n.get('k') in ('delete', 'call') and h.append(n))
    return bool(h)


def virtdtor(P, q):
    for c in [q] + list(P.bases(q)):
        r = P.records.get(c)
        if r is None:
            return True
        for m in r.get('methods') or ():
            if m['n'].startswith('~') and m.get('virt'):
                return True
    return False


def base(C, P, f, n, e, arg, hit):
    """deleted through a base class that has no virtual destructor"""
    if not isinstance(e, dict) or e.get('k') != 'new':
        return
    dyn = bare(e.get('t'))
    cls = n.get('cls') or ''
    st = None
    x = arg
    while isinstance(x, dict) and x.get('k') in ('cast', 'mat'):
        if x.get('ck') in ('DerivedToBase', 'UncheckedDerivedToBase') and x.get('pc'):
            st = x['pc'] if st is None else st
        x = x['e']
    if st and st != dyn and st in P.records and not virtdtor(P, st):
        hit(f, n, 'an object of type %s is released as a %s, whose destructor is not virtual: its own members are never released' % (dyn.replace(NS, ''), st.replace(NS, '')))


def released(P, cls, m):
    for f in P.functions.values():
        if f.get('dtor') and f.get('cls') == cls:
            h = []
            scan(f, lambda n, p: n.get('k') == 'delete' and any(x.get('k') == 'mem' and x['n'] == m for x in flat(n)) and h.append(n))
            if h:
                return True
    return False


def copyguard(P, cls):
    r = P.records.get(cls) or {}
    ms = r.get('methods') or ()
    cc = [m for m in ms if m.get('ctor') and m.get('copy') and (m.get('user') or m.get('del'))]
    ca = [m for m in ms if m['n'] == 'operator=' and (m.get('user') or m.get('del'))]
    return bool(cc) and bool(ca)


def rawvar(O, f, v, n, hit, und):
    vals, own, dele, esc = O.raw_local(f, v)
    name = O.locals(f)[v][0]['n']
    rets = []
    def g(x, par):
        if x.get('k') == 'ret' and x.get('e') is not None and core(x['e']).get('k') == 'var' and core(x['e']).get('id') == v:
            rets.append((x, par))
    scan(f, g)
    ends_ = own + dele + rets
    if not ends_ and not esc:
        hit(f, n, 'the object allocated for %s is never released' % name)
        return
    if len(own) + len(dele) >= 2:
        xs = [p for _, p in own + dele]
        if any(not exclusive(a, b) for i, a in enumerate(xs) for b in xs[i + 1:]):
            hit(f, own[-1][0] if own else dele[-1][0], 'the object allocated for %s is released by two owners' % name)
            return
    d = declpar(f, v)
    for x, par in own + dele:
        if set(loopof(par)) - set(loopof(d)):
            news_in = [y for y in vals if False]
            asg = []
            def ga(y, p2):
                if y.get('k') == 'asg' and core(y['a']).get('k') == 'var' and core(y['a'])['id'] == v:
                    asg.append(p2)
            scan(f, ga)
            if not any(set(loopof(par)) <= set(loopof(p)) for p in asg):
                hit(f, x, 'the object allocated for %s is released once per pass of a loop' % name)
                return
    if esc and not ends_:
        und(f, n, 'an allocated object is handed over as the raw pointer ' + name)
        return
    # released on every way out: in the block of the declaration with no return in between
    blk = [x for x in d if x.get('k') == 'block']
    rel_ = own + dele
    if blk and rel_ and not rets:
        b = blk[-1]['b']
        i = next((j for j, s in enumerate(b) if any(y is d[-1] for y in flat(s))), None)
        ks = [j for j, s in enumerate(b) if any(any(y is x for y in flat(s)) for x, _ in rel_)]
        direct = [j for j in ks if b[j].get('k') in ('expr', 'decl', 'ret')]
        if i is not None and direct:
            for s in b[i + 1:direct[0]]:
                if any(y.get('k') == 'ret' for y in flat(s)) and not any(any(y is x for y in flat(s)) for x, _ in rel_):
                    hit(f, n, 'the object allocated for %s is not released when the function returns before line %s' % (name, b[direct[0]].get('l')))
                    return
        elif i is not None:
            und(f, n, 'the release of %s depends on conditions' % name)


# ------------------------------------------------------------------ lifetimes of references
def rootvar(e):
    """the variable a reference expression refers into, without passing a pointer or a call that hands out a reference of its own"""
    e0 = e
    while isinstance(e, dict):
        k = e.get('k')
        if k == 'var':
            return e
        if k == 'mem':
            if e.get('arrow'):
                return None
            e = e['b']
        elif k == 'sub':
            if '*' in (core(e['a']).get('t') or ''):
                return None
            e = e['a']
        elif k == 'cast':
            e = e['e']
        elif k == 'mat':
            return {'k': 'temporary', 'l': e.get('l')}
        elif k == 'call' and e.get('obj') is not None and e.get('rref') and re.match(r'std::(vector|map|list|basic_string|tuple|array|deque|set)\b', bare(e.get('ot'))):
            e = e['obj']
        elif k == 'call' and e.get('obj') is not None and e.get('n') in ('begin', 'end', 'data', 'c_str', 'find', 'rbegin', 'rend', 'cbegin', 'cend') and re.match(r'std::', bare(e.get('ot'))):
            e = e['obj']
        elif k == 'ctor' and len(e.get('args') or ()) == 1 and (e.get('copy') or e.get('move')):
            e = e['args'][0]
        elif k == 'call' and e.get('n') in ('move', 'forward', 'ref', 'cref') and len(e.get('args') or ()) == 1:
            e = e['args'][0]
        elif k in ('ctor', 'new', 'ilist'):
            return {'k': 'temporary', 'l': e.get('l')} if k != 'new' else None
        elif k == 'call' and e.get('obj') is None and e.get('n') in ('get',) and e.get('args'):
            e = e['args'][0]
        else:
            return None
    return None


def ends(O, f, e, rt, depth=0):
    """why the returned reference or pointer refers to storage that ends with the function"""
    x = core(e)
    if not isinstance(x, dict) or depth > 4:
        return None
    if x.get('k') == 'cond':
        return ends(O, f, x['a'], rt, depth + 1) or ends(O, f, x['b'], rt, depth + 1)
    if rt.endswith('*'):
        if x.get('k') == 'un' and x.get('op') == '&':
            v = rootvar(x['e'])
        elif x.get('k') == 'call' and x.get('n') in ('data', 'c_str') and x.get('obj') is not None:
            v = rootvar(x['obj'])
        elif x.get('k') == 'call' and x.get('n') == 'get' and 'ptr' in (x.get('cls') or ''):
            # the object of a local owner: gone unless someone else holds it too
            o = rootvar(x['obj'])
            if o is not None and o.get('k') == 'var':
                d = O.locals(f).get(o['id'])
                if d and d[1] == 'local' and not d[0].get('ref') and not d[0].get('static'):
                    i = core(d[0].get('init')) if d[0].get('init') is not None else None
                    while isinstance(i, dict) and i.get('k') == 'ctor' and (i.get('copy') or i.get('move')) and i.get('args'):
                        i = core(i['args'][0])
                    if isinstance(i, dict) and (i.get('k') == 'ctor' and i.get('args') and O.kind(f, i['args'][0])[0] == 'fresh' or i.get('k') == 'call' and i.get('n') in ('make_shared', 'make_unique')):
                        return 'a pointer to an object is returned whose only owner %s ends with the function' % o['n']
            return None
        elif x.get('k') == 'var':
            d = O.locals(f).get(x['id'])
            if d and d[1] == 'local' and d[0].get('init') is not None and not d[0].get('ref'):
                return ends(O, f, d[0]['init'], rt, depth + 1)
            return None
        else:
            return None
    else:
        v = rootvar(e)
    if v is None:
        return None
    if v.get('k') == 'temporary':
        return 'a reference to a temporary is returned' if rt.endswith('&') else None
    if v.get('g'):
        return None
    d = O.locals(f).get(v['id'])
    if d is None:
        return None
    t = d[0].get('t') or ''
    if d[0].get('static'):
        return None
    if t.endswith('&') or d[0].get('ref'):
        if d[1] == 'local' and d[0].get('init') is not None:
            return ends(O, f, d[0]['init'], '&', depth + 1)
        return None
    if VIEW.search(bare(t)) and VIEW.search(rt):
        if d[1] == 'local' and d[0].get('init') is not None:
            return ends(O, f, d[0]['init'], rt, depth + 1)
        return None
    if '*' in t and not rt.endswith('&'):
        return None
    return 'a reference to the %s %s is returned, which ends with the function' % ('parameter' if d[1] == 'param' else 'local variable', d[0]['n'])


# ------------------------------------------------------------------ members
def owned(P, q, seen=()):
    """types the members of q own through smart pointers (directly or in containers)"""
    out = set()
    for c in [q] + list(P.bases(q)):
        for m in (P.records.get(c) or {}).get('fields') or ():
            out |= set(pointees(m['t']))
    return out


def pointees(t):
    out = []
    for m in re.finditer(r'std::(?:shared_ptr|unique_ptr)<', t):
        i = m.end()
        d, j = 1, i
        while j < len(t) and d:
            d += (t[j] == '<') - (t[j] == '>')
            if t[j] == ',' and d == 1:
                break
            j += 1
        out.append(t[i:j - 1 if d == 0 else j].strip())
    return out


def weakowner(P, q, m):
    w = re.search(r'std::weak_ptr<(.*)>$', m['t'])
    if not w:
        return False
    return w.group(1).strip() not in owned(P, q)


def borrow(O, P, q, m):
    """None: a view made only by the object it refers to; otherwise (status, message)"""
    t = bare(m['t'])
    short = q.replace(NS, '')
    target = bare(re.sub(r'\*.*$', '', t))
    srcs = []        # (function, expression) stored in the member
    for f in O.fns:
        ctor = f.get('cls') == q and f.get('ctor')
        def g(n, par):
            if n.get('k') == 'asg' and isinstance(core(n['a']), dict) and core(n['a']).get('k') == 'mem' and core(n['a'])['n'] == m['n'] and core(n['a']).get('rc') == q:
                srcs.append((f, n['b']))
            if n.get('field') == m['n'] and ctor and 'e' in n:
                srcs.append((f, n['e']))
        scan(f, g)
    # trace parameters of the constructor to its call sites
    done, work, final = set(), list(srcs), []
    while work:
        f, e = work.pop()
        x = core(e)
        if isinstance(x, dict) and x.get('k') == 'var':
            i = next((j for j, p in enumerate(f.get('ps') or ()) if p['id'] == x['id']), None)
            if i is not None and '*' in (f['ps'][i].get('t') or ''):
                if (f['key'], i) in done:
                    continue
                done.add((f['key'], i))
                calls = 0
                for h in O.fns:
                    def g(n, par):
                        nonlocal calls
                        if n.get('k') in ('ctor', 'call') and n.get('f') == f['key'] and i < len(n.get('args') or ()):
                            calls += 1
                            work.append((h, n['args'][i]))
                    scan(h, g)
                if not calls and f.get('cls') == q:
                    final.append((f, '?'))
                continue
            if i is not None:
                final.append((f, 'param'))
                continue
        if m['t'].endswith('&'):
            v = rootvar(e)
            d = O.locals(f).get(v.get('id')) if v else None
            if v and (v.get('k') == 'temporary' or d and not (d[0].get('t') or '').endswith(('&', '*')) and not d[0].get('ref')):
                return 'bad', '%s keeps a reference %s to a %s, which ends with %s' % (short, m['n'], 'temporary' if not d else 'parameter passed by value' if d[1] == 'param' else 'local variable', sname(f))
        k = O.kind(f, e)[0] if not m['t'].endswith('&') else ('param' if isinstance(rootvar(e), dict) and O.locals(f).get(rootvar(e).get('id'), (0, ''))[1] == 'param' else '?')
        final.append((f, k))
    ks = set(k for _, k in final)
    if ks and ks <= {'this', 'null'}:
        # the object itself hands out views on itself: they must not be kept
        keep = [c for c, r in P.records.items() if c.startswith(NS) for x in r.get('fields') or () if re.search(r'\b%s\b' % re.escape(q), x['t'])]
        if keep:
            return 'und', 'views of type %s are kept in %s' % (short, keep[0])
        return None
    if ks <= {'null'}:
        return 'ok', 'never set'
    if ks & {'owned', 'param', 'stack', 'local'}:
        own = owned(P, q)
        if not any(target == bare(o) or o in P.records and target in [o] + list(P.bases(o)) for o in own) and not m['t'].endswith('const_iterator'):
            if 'owned' in ks or m['t'].endswith('&') and 'param' in ks or 'stack' in ks:
                return 'bad', '%s keeps %s (%s) without owning what it refers to: it is gone once the caller has released it' % (short, m['n'], m['t'].replace(NS, ''))
    return 'und', 'a member that refers to an object it does not own'


def cycles(C, P, seen):
    if ('cycles',) in seen:
        return
    seen.add(('cycles',))
    G = {}
    for q in P.records:
        if not q.startswith(NS):
            continue
        outs = set()
        for m in P.records[q].get('fields') or ():
            for t in pointees(m['t']):
                for c in re.findall(r'lpaggreg::\w+', t):
                    outs.add(c)
                    outs |= set(d for d in P.derived(c)) if c in P.records else set()
            for c in re.findall(r'lpaggreg::\w+', re.sub(r'std::weak_ptr<[^>]*>', '', m['t'])):
                outs.add(c)
        outs |= set(P.bases(q))
        G[q] = outs
    def reach(a):
        s, w = set(), [a]
        while w:
            for y in G.get(w.pop(), ()):
                if y not in s:
                    s.add(y)
                    w.append(y)
        return s
    cyc = [q for q in G if q in reach(q)]
    self_ = [f for f in P.functions.values() if any(c.get('n') == 'shared_from_this' for c in calls(f))]
    if not cyc:
        C.ok('own.cycles', '%d classes, none can own itself' % len(G), '')
    elif self_:
        for q in cyc:
            C.bad('own.cycles.' + q.replace(NS, ''), 'an object of this class is owned by what it owns (it hands out shared_from_this): it is never released', '%s:%s' % (rel(P.records[q]), P.records[q].get('l')))
    else:
        for q in cyc:
            C.und('own.cycles.' + q.replace(NS, ''), 'an object of this class may own another of its class: whether the owners can form a cycle is not decided', '%s:%s' % (rel(P.records[q]), P.records[q].get('l')))


def calls(f):
    out = []
    scan(f, lambda n, p: n.get('k') == 'call' and out.append(n))
    return out


def rule_own(C):
    """every allocated object has exactly one owner group and nothing handed out or kept refers to storage that ends earlier"""
    seen = set()
    bad, n = analyse(C, C.P, seen)
    try:
        P = unit(C)
        b2, n2 = analyse(C, P, seen)
        bad += b2
        for k in n:
            n[k] += n2[k]
    except Undecided as e:
        C.und('own.R', str(e))
    except Anchor:
        pass
    if not bad:
        C.ok('own', ', '.join('%d %s' % (v, k) for k, v in n.items()), '')


RULES = {'C28': [rule_own]}
