"""Obligations, verdicts and shared helpers of the rules."""
import time, traceback
from . import frontend, prims
from .terms import *
from .interp import Interp, LV, Ev, Loop, Undecided, strip, fam, root, prefixes, targs, dump

NS = 'lpaggreg::'
ONE_LIMIT = 200          # seconds for one analysed operation
ALL_LIMIT = 600          # seconds for one check


class Anchor(Exception):
    """a public name the property is stated about does not exist any more"""


class Ctx:
    def __init__(self, P):
        self.P = P
        self.obs = []            # obligations
        self.cur = None
        self.functions = set()
        self.done = set()
        self.end = time.time() + ALL_LIMIT

    # -------------------------------------------------- verdicts
    def _add(self, status, oid, msg, where=None, detail=None):
        self.obs.append({'rule': self.cur, 'id': oid, 'status': status, 'where': where, 'msg': msg, 'detail': detail})

    def ok(self, oid, msg='', where=None):
        self._add('ok', oid, msg, where)

    def bad(self, oid, msg, where=None, detail=None):
        self._add('violation', oid, msg, where, detail)

    def und(self, oid, msg, where=None):
        self._add('undecided', oid, msg, where)

    # -------------------------------------------------- program lookups
    def cls(self, name):
        q = NS + name
        if q not in self.P.records:
            raise Anchor('class ' + q)
        return q

    def meths(self, cls, name, n=None):
        """definitions of cls::name (own or inherited)"""
        for c in [cls] + self.P.bases(cls):
            fs = [f for f in self.P.functions.values() if f.get('cls') == c and f['n'] == name and f.get('b') is not None]
            fs = [f for f in fs if n is None or len(f['ps']) == n]
            if fs:
                return fs
        return []

    def meth(self, cls, name, n=None):
        fs = self.meths(cls, name, n)
        if not fs:
            raise Anchor('%s::%s' % (cls, name))
        if len(fs) > 1:
            raise Undecided('overloaded %s::%s' % (cls, name))
        return fs[0]

    def ctors(self, cls):
        return [f for f in self.P.functions.values() if f.get('ctor') and f.get('cls') == cls and f.get('b') is not None and not self.copyctor(f, cls) and not f.get('implicit')]

    def copyctor(self, f, cls):
        return len(f['ps']) == 1 and strip(f['ps'][0]['t'].replace('&&', '').strip()) == cls

    def where(self, f):
        return '%s:%s' % (frontend.rel(f.get('file') or ''), f.get('l'))

    def evwhere(self, e):
        return '%s:%s' % (frontend.rel(e.file or ''), e.line)

    # -------------------------------------------------- analyses
    def interp(self, opts=(), opaque=(), axioms=None):
        I = Interp(self.P, prims=prims.get(opts), axioms=axioms, opaque=opaque)
        I.deadline = min(time.time() + ONE_LIMIT, self.end)
        return I

    def used(self, I, *fs):
        for f in fs:
            self.functions.add(f['q'])
        for k in I.inlined:
            f = self.P.functions.get(k)
            if f:
                self.functions.add(f['q'])


UNK = ('unk', 'undef', 'fin', 'in', 'retin', 'Lx')


def hasunk(t, allow=()):
    if not isinstance(t, tuple):
        return False
    ok = set(n for a in allow for n in nodes(a) if n[0] in UNK)
    return contains(t, lambda n: n[0] in UNK and n not in ok)


def simp(I, t, facts):
    """resolve conditionals decided by the facts"""
    memo = {}
    def dec(c):
        if c not in memo:
            memo[c] = True if I.entails(list(facts), c) else False if I.entails(list(facts), b_not(c)) else None
        return memo[c]
    def f(n):
        if n[0] == 'ite':
            d = dec(n[1])
            if d is True:
                return n[2]
            if d is False:
                return ZERO
        if n[0] in ('cmp', 'bat'):
            d = dec(n)
            if d is not None:
                return T if d else F
        return None
    r = _simp(t, f, {})
    return r


def _simp(t, f, memo):
    # rewrite() applies f to rebuilt atoms only when nothing changed; force it on every ite atom
    from . import terms as TT
    if not isinstance(t, tuple) or not t:
        return t
    if t in memo:
        return memo[t]
    if t[0] == 'P':
        m = {}
        for i in atoms(t):
            at = atom_of(i)
            if at[0] == 'ite':
                c = _simp(at[1], f, memo)
                d = f(('ite', c, ZERO)) if c not in (T, F) else None
                if c == F or d == ZERO and d is not None and f(('ite', c, ONE)) == ZERO:
                    m[i] = ZERO
                elif c == T or f(('ite', c, ONE)) == ONE:
                    m[i] = _simp(at[2], f, memo)
                else:
                    n = ite(c, _simp(at[2], f, memo), ZERO)
                    if n != A(at):
                        m[i] = n
            else:
                parts = tuple(_simp(x, f, memo) if isinstance(x, tuple) else x for x in at)
                if parts != at:
                    m[i] = _mkatom(parts)
        r = subst_atoms(t, m) if m else t
    elif t[0] == 'cmp':
        p = _simp(t[2], f, memo)
        r = t if p == t[2] else TT.recmp(t[1], p)
        x = f(r) if r[0] == 'cmp' else None
        if x is not None:
            r = x
    elif t[0] == 'and':
        r = b_and(*[_simp(x, f, memo) for x in t[1]])
    elif t[0] == 'or':
        r = b_or(*[_simp(x, f, memo) for x in t[1]])
    elif t[0] == 'not':
        r = b_not(_simp(t[1], f, memo))
    else:
        r = tuple(_simp(x, f, memo) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'bat':
            x = f(r)
            if x is not None:
                r = x
        if t[0] == 'pite' :
            if r[1] == T:
                r = r[2]
            elif r[1] == F:
                r = r[3]
    memo[t] = r
    return r


def _mkatom(n):
    from . import terms as TT
    if n[0] == 'ite':
        return ite(n[1], n[2], ZERO)
    if n[0] == 'idiv':
        return idiv(n[1], n[2])
    if n[0] == 'inv':
        return inv(n[1])
    if n[0] == 'sum':
        return TT.mk_sum_raw(*n[1:])
    return A(n)


def eqt(I, a, b, facts=()):
    """are the values equal for all inputs?"""
    if a == b:
        return True
    if is_poly(a) and is_poly(b):
        return polyeq(I, a, b, list(facts), 0)
    if is_bool(a) and is_bool(b):
        return b_equiv(a, b, list(facts))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return simp(I, a, facts) == simp(I, b, facts)
    return False


def polyeq(I, a, b, facts, depth):
    a2, b2 = simp(I, a, facts), simp(I, b, facts)
    if a2 == b2:
        return True
    d = sub(a2, b2)
    if d == ZERO:
        return True
    if contains(d, lambda n: n[0] == 'sum'):
        a2, b2 = alpha(shift(simp(I, a2, facts))), alpha(shift(simp(I, b2, facts)))
        d = sub(a2, b2)
        if d == ZERO:
            return True
    conds = [n[1] for n in nodes(d) if n[0] == 'ite' and not contains(n[1], lambda x: x[0] in ('bv', 'sum', 'forall'))]
    if not conds or depth > 5:
        return bool(facts) and lin(cmp_('==', d, ZERO, True)) is not None and I.entails(facts, cmp_('==', d, ZERO, True)) if intpoly(d) else False
    c = min(conds, key=lambda x: len(repr(x)))
    for f in (c, b_not(c)):
        fs = facts + list(conj(f))
        if not feasible(fs):
            continue
        if not polyeq(I, a2, b2, fs, depth + 1):
            return False
    return True


def intpoly(d):
    return all(atom_of(i)[0] in ('ld', 'sym', 'iv', 'idiv') for i in atoms(d))


def alpha(t, depth=0):
    """canonical names of summation variables: numbered from the outside in"""
    from . import terms as TT
    if not isinstance(t, tuple) or not t or not contains(t, lambda n: n[0] == 'sum'):
        return t
    if t[0] != 'P':
        return tuple(alpha(x, depth) if isinstance(x, tuple) else x for x in t)
    m = {}
    for i in atoms(t):
        a = atom_of(i)
        if a[0] == 'sum':
            v = ('bv', 5000 + depth)
            m[i] = TT.mk_sum_raw(v, alpha(a[2], depth), alpha(a[3], depth), alpha(substitute(a[4], {a[1]: A(v)}), depth + 1))
        else:
            x = tuple(alpha(y, depth) if isinstance(y, tuple) else y for y in a)
            if x != a:
                m[i] = _mkatom(x)
    return subst_atoms(t, m) if m else t


def shift(t):
    """sums start at zero"""
    from . import terms as TT
    from .r_quality import up
    v = ('iv', 'q', 'it')

    def f(n):
        if n[0] == 'sum' and n[2] != ZERO:
            return TT.mk_sum(v, ZERO, sub(n[3], n[2]), substitute(n[4], {n[1]: add(A(v), n[2])}))
        return None
    return up(t, f)


def judge(C, I, oid, got, want, facts, msg, where, allow=()):
    """compare a computed term with its specification"""
    if got is None:
        C.und(oid, msg + ': no value', where)
        return False
    if eqt(I, got, want, facts):
        C.ok(oid, msg, where)
        return True
    if hasunk(got, allow) or I.unknown:
        C.und(oid, '%s: not fully modelled (%s)' % (msg, I.unknown[:1] or 'opaque term'), where)
        return False
    C.bad(oid, '%s: the code yields %s where the property requires %s' % (msg, show(simp(I, got, facts))[:400], show(want)[:400]), where)
    return False


def assume(I, facts):
    """specialise the state to the facts (resolves conditionals in stored values)"""
    st = I.st
    st.mem = {simp(I, l, facts): (simp(I, v, facts) if isinstance(v, tuple) else v) for l, v in st.mem.items()}
    st.cinit = {l: tuple(simp(I, x, facts) if isinstance(x, tuple) else x for x in v) for l, v in st.cinit.items()}


# ------------------------------------------------------------------ arithmetic facts about polynomials
def nnpoly(p, lows):
    """p >= 0 for all integer values with atom >= low (lows: {atom: int}); sufficient test"""
    m = {a: add(A(('low', a)), num(l)) for a, l in lows.items()}
    q = substitute(p, m)
    return all(c >= 0 for _, c in q[1]) and all(atom_of(i)[0] == 'low' for i in atoms(q))


def evalnum(t, env):
    """integer/rational evaluation of a term at a point of its atoms; None when an atom is not given"""
    if t[0] == 'P':
        s = Fraction(0)
        for m, c in t[1]:
            x = c
            for i, e in m:
                v = evalatom(atom_of(i), env)
                if v is None:
                    return None
                x *= v ** e
            s += x
        return s
    return evalatom(t, env)


def evalatom(a, env):
    if a in env:
        return Fraction(env[a])
    if a[0] == 'idiv':
        x, y = evalnum(a[1], env), evalnum(a[2], env)
        if x is None or not y:
            return None
        return Fraction(int(x / y))
    if a[0] == 'inv':
        x = evalnum(a[1], env)
        return 1 / x if x else None
    if a[0] == 'ite':
        c = evalbool(a[1], env)
        return None if c is None else evalnum(a[2], env) if c else Fraction(0)
    if a[0] == 'fn' and a[1] in ('abs', 'max', 'min'):
        xs = [evalnum(x, env) for x in a[2:]]
        if None in xs:
            return None
        return abs(xs[0]) if a[1] == 'abs' else max(xs) if a[1] == 'max' else min(xs)
    return None


def evalbool(b, env):
    h = b[0]
    if h in 'TF':
        return h == 'T'
    if h == 'not':
        x = evalbool(b[1], env)
        return None if x is None else not x
    if h in ('and', 'or'):
        xs = [evalbool(x, env) for x in b[1]]
        if h == 'and':
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if h == 'cmp':
        p = evalnum(b[2], env)
        if p is None:
            return None
        return p > 0 if b[1].endswith('>') else p >= 0 if b[1].endswith('>=') else p == 0
    return None


def simp_low(I, t, lows):
    """resolve integer conditionals of t that hold for all values above the lower bounds"""
    conds = [n for n in nodes(t) if n[0] == 'cmp' and n[1] == 'i>=']
    facts = []
    for c in conds:
        if nnpoly(c[2], lows):
            facts.append(c)
    for a, l in lows.items():
        facts.append(cmp_('>=', A(a), num(l), True))
    return simp(I, t, facts)


# ------------------------------------------------------------------ event helpers
def flat(evs, loops=()):
    """every event with its enclosing loops"""
    for e in evs:
        if isinstance(e, Loop):
            yield from flat(e.body, loops + (e,))
        else:
            yield e, loops


def rootfam(loc):
    return fam(loc)


def fill_events(I, container):
    """events that give the elements of a container their value: (event, loops, value)"""
    out = []
    c = I.canon(container)
    for e, loops in flat(I.events):
        if e.loc is None:
            continue
        if e.kind == 'push' and I.canon(e.loc) == c:
            out.append((e, loops, e.val))
        elif e.kind == 'write' and e.loc[0] in ('idx', 'at', 'cell', 'lin') and I.canon(e.loc[1]) == c:
            out.append((e, loops, e.val))
    return out


def freshness(I, e, loops, v):
    """does each execution of the storing event store a pointer to an object created for it alone?"""
    if not isinstance(v, tuple):
        return None
    if v[0] == 'freshptr':
        return True
    if v[0] != 'ptr':
        return False if v[0] == 'ldp' and not hasunk(v) else None
    o = root(v[1])
    if o[0] != 'new':
        return False
    for a, al in flat(I.events):
        if a.kind == 'alloc' and a.loc == o:
            return [l.id for l in al] == [l.id for l in loops]
    return None


# ------------------------------------------------------------------ index coverage
class Writes:
    """one store: location, value, guard (without the loops' own conditions), enclosing loops, event"""
    def __init__(s, loc, val, guard, loops, e):
        s.loc, s.val, s.guard, s.loops, s.e = loc, val, guard, loops, e


def writes(evs):
    """every scalar store, object copies taken apart"""
    out = []
    for e, l in (flat(evs) if not isinstance(evs, list) or (evs and not isinstance(evs[0], tuple)) else evs):
        if e.kind == 'write':
            out.append(Writes(e.loc, e.val, e.guard, l, e))
        elif e.kind == 'copyobj' and getattr(e, 'comps', None):
            for k, v in e.comps.items():
                loc = ('fld', e.loc, k) if isinstance(k, str) else ('tup', e.loc, k)
                out.append(Writes(loc, v, e.guard, l, e))
    return out


def loopcons(loops):
    """constraints lo <= iv <= hi of enclosing counting loops; None when a loop is not a counting loop"""
    out = []
    for L in loops:
        if L.lo is None or L.hi is None or L.ivatom is None:
            return None
        iv = A(L.ivatom) if not is_poly(L.ivatom) else L.ivatom
        out.append(cmp_('>=', iv, L.lo, True))
        out.append(cmp_('<=', iv, L.hi, True))
    return out


def early(loops):
    return any(x.get('kind') != 'head' for L in loops for x in L.exits if isinstance(x, dict))


def solve_keys(keys, ivs, syms):
    """invert keys(ivs) = syms: {iv atom: poly over syms} when the map is linear and unimodular"""
    rows = []
    for k, s in zip(keys, syms):
        cs = []
        r = k
        for v in ivs:
            r0 = substitute(k, {v: ZERO})
            c = const(sub(substitute(k, {v: ONE}), r0))
            if c is None:
                return None
            cs.append(c)
            r = sub(r, scale(A(v), c))
        if any(contains(r, lambda n: n == v) for v in ivs):
            return None
        rows.append([cs, sub(s, r)])
    n = len(ivs)
    if len(rows) != n:
        return None
    rows = [(list(c), p) for c, p in rows]
    for col in range(n):
        piv = next((r for r in range(col, n) if rows[r][0][col] != 0), None)
        if piv is None:
            return None
        rows[col], rows[piv] = rows[piv], rows[col]
        c = rows[col][0][col]
        rows[col] = ([x / c for x in rows[col][0]], scale(rows[col][1], 1 / c))
        for r in range(n):
            if r != col and rows[r][0][col] != 0:
                f = rows[r][0][col]
                rows[r] = ([a - f * b for a, b in zip(rows[r][0], rows[col][0])], sub(rows[r][1], scale(rows[col][1], f)))
    out = {}
    for v, (c, p) in zip(ivs, rows):
        if any(x.denominator != 1 for _, x in p[1]):
            return None
        out[v] = p
    return out


def instances(loops, guard, keys, syms):
    """(set of index tuples reached, as a constraint over syms) with injectivity; None when not a linear nest.
    Loops whose variable does not occur in the keys and guard must be absent."""
    cons = loopcons(loops)
    if cons is None:
        return None
    ivs = [L.ivatom if not is_poly(L.ivatom) else single(L.ivatom) for L in loops]
    sol = solve_keys(keys, ivs, syms)
    if sol is None:
        return None
    gs = [x for x in conj(guard)]
    return b_and(*[substitute(c, sol) for c in cons + gs])


def covers(I, got, region, facts):
    """does the set described by got equal the region? True / (False, which) / None"""
    a = I.entails(list(facts) + list(conj(region)), got)
    b = I.entails(list(facts) + list(conj(got)), region)
    if a and b:
        return True
    return (False, 'too small' if not a else 'too large')


def wraps(I, facts, sub=None):
    """comparisons of unsigned values that go the wrong way under the facts, because an operand is below zero and wraps"""
    out = []
    for (op, a, b, pc, l), fl in I.ucmps.items():
        if sub:
            a, b, pc = [substitute(x, sub) for x in (a, b, pc)]
        a, b = simp(I, a, facts), simp(I, b, facts)
        for x, y in ((a, b), (b, a)):
            c = const(x)
            if c is not None and c < 0 and I.entails(facts, b_and(pc, cmp_('<', y, ZERO, True))) is False and not I.entails(facts, b_not(pc)) and I.entails(facts + [pc], cmp_('>=', y, ZERO, True)):
                out.append(('%s:%s' % (fl, l), show(cmp_(op, a, b, True))))
    return out
