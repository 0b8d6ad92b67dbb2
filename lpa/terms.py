"""Canonical terms: polynomials over interned atoms (real algebra), booleans, quantities used by
the abstract interpreter.  Nothing here evaluates the program; terms denote sets of values for all inputs."""
from fractions import Fraction
from itertools import product

_atoms = {}      # atom tuple -> id
_atab = []       # id -> atom tuple


def aid(atom):
    i = _atoms.get(atom)
    if i is None:
        i = _atoms[atom] = len(_atab)
        _atab.append(atom)
    return i


def atom_of(i):
    return _atab[i]


# ------------------------------------------------------------------ polynomials
def mk(d):
    return ('P', tuple(sorted((m, c) for m, c in d.items() if c != 0)))


def num(n):
    n = Fraction(n)
    return ('P', (((), n),) if n else ())


ZERO, ONE = num(0), num(1)


def A(atom):
    return ('P', ((((aid(atom), 1),), Fraction(1)),))


def is_poly(t):
    return isinstance(t, tuple) and t and t[0] == 'P'


def const(p):
    """Fraction if constant else None"""
    if not is_poly(p):
        return None
    if not p[1]:
        return Fraction(0)
    if len(p[1]) == 1 and p[1][0][0] == ():
        return p[1][0][1]
    return None


def single(p):
    """the atom if p is exactly one atom, else None"""
    if is_poly(p) and len(p[1]) == 1:
        m, c = p[1][0]
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return atom_of(m[0][0])
    return None


def add(a, b):
    if not a[1]:
        return b
    if not b[1]:
        return a
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + c
    return mk(d)


def neg(a):
    return ('P', tuple((m, -c) for m, c in a[1]))


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    k = Fraction(k)
    return mk({m: c * k for m, c in a[1]})


def _mm(m1, m2):
    d = dict(m1)
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    # x * inv(x) cancels
    out = {}
    for i, e in d.items():
        if e:
            out[i] = e
    for i in list(out):
        at = _atab[i]
        if at[0] == 'inv' and i in out:
            s = single(at[1])
            if s is not None:
                j = aid(s)
                if j in out:
                    k = min(out[i], out[j])
                    for x in (i, j):
                        out[x] -= k
                        if not out[x]:
                            del out[x]
    return tuple(sorted(out.items()))


def mul(a, b):
    d = {}
    for m1, c1 in a[1]:
        for m2, c2 in b[1]:
            m = _mm(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mk(d)


def inv(b):
    c = const(b)
    if c is not None:
        return num(1 / c) if c else A(('inv', b))
    if len(b[1]) == 1:          # monomial: invert atom by atom
        m, c = b[1][0]
        r = num(1 / c)
        for i, e in m:
            at = _atab[i]
            if at[0] == 'inv':
                x = at[1]
            else:
                x = A(('inv', A(at)))
            for _ in range(e):
                r = mul(r, x)
        return r
    return A(('inv', b))


def div(a, b):
    return mul(a, inv(b))


def atoms(p):
    s = set()
    for m, c in p[1]:
        for i, e in m:
            s.add(i)
    return s


def _mod_zero(p, n):
    """is integer-coefficient polynomial p == 0 (mod n) for all integer values of its atoms?"""
    n = int(n)
    if n > 12:
        return False
    ids = sorted(atoms(p))
    if len(ids) > 4:
        return False
    for vals in product(range(n), repeat=len(ids)):
        env = dict(zip(ids, vals))
        s = 0
        for m, c in p[1]:
            if c.denominator != 1:
                return False
            t = int(c)
            for i, e in m:
                t *= env[i] ** e
            s += t
        if s % n:
            return False
    return True


def idiv(a, b):
    """integer division (operands non-negative)"""
    cb = const(b)
    ca = const(a)
    if cb is not None and ca is not None and cb:
        return num(int(ca) // int(cb))
    if cb is not None and cb == 1:
        return a
    if cb is not None and cb > 0:
        ex, rest = {}, {}
        for m, c in a[1]:
            q = c / cb
            (ex if q.denominator == 1 else rest)[m] = q if q.denominator == 1 else c
        # constants: keep them with the rest unless exact
        r = mk(rest)
        if not r[1]:
            return mk(ex)
        if _mod_zero(r, cb):
            return add(mk(ex), scale(r, 1 / cb))
        return add(mk(ex), _idiv_atom(r, b))
    if len(b[1]) == 1 and b[1][0][1] == 1:
        bm = dict(b[1][0][0])
        ex, rest = {}, {}
        for m, c in a[1]:
            md = dict(m)
            if all(md.get(i, 0) >= e for i, e in bm.items()) and c.denominator == 1:
                for i, e in bm.items():
                    md[i] -= e
                ex[tuple(sorted((i, e) for i, e in md.items() if e))] = c
            else:
                rest[m] = c
        r = mk(rest)
        return add(mk(ex), _idiv_atom(r, b) if r[1] else ZERO)
    return _idiv_atom(a, b)


def _idiv_atom(a, b):
    if not a[1]:
        return ZERO
    s = single(a)
    if s is not None and s[0] == 'idiv':
        return _idiv_atom(s[1], mul(s[2], b))
    return A(('idiv', a, b))


def mod(a, b):
    return sub(a, mul(b, idiv(a, b)))


def fn(name, *args):
    if name == 'abs':
        x = args[0]
        c = const(x)
        if c is not None:
            return num(abs(c))
        if x[1][0][1] < 0:
            return A(('fn', 'abs', neg(x)))
    return A(('fn', name) + args)


# ------------------------------------------------------------------ booleans
T, F = ('T',), ('F',)


def is_bool(t):
    return isinstance(t, tuple) and t and t[0] in ('T', 'F', 'cmp', 'and', 'or', 'not', 'bat', 'forall')


def _content(p):
    """divide by positive gcd-ish factor so that comparison polys are canonical"""
    if not p[1]:
        return p
    from math import gcd
    den = 1
    for m, c in p[1]:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in p[1]:
        g = gcd(g, abs(int(c * den)))
    if g == 0:
        return p
    return scale(p, Fraction(den, g))


def _lead(p):
    for m, c in p[1]:
        if m != ():
            return c
    return p[1][0][1] if p[1] else 0


def cmp_(op, a, b, isint):
    """a op b -> canonical boolean"""
    p = sub(a, b)
    if op == '<':
        return cmp_('>', b, a, isint)
    if op == '<=':
        return cmp_('>=', b, a, isint)
    if op == '!=':
        return b_not(cmp_('==', a, b, isint))
    c = const(p)
    if c is not None:
        return T if {'>': c > 0, '>=': c >= 0, '==': c == 0}[op] else F
    if isint:
        if op == '>':
            p = sub(p, ONE)
            op = '>='
        if op == '>=':
            # divide by gcd of non-constant coefficients, floor the constant
            p = _int_tighten(p)
            return ('cmp', 'i>=', p)
        p = _content(p)
        if _lead(p) < 0:
            p = neg(p)
        return ('cmp', 'i==', p)
    p = _content(p)
    if op == '==':
        if _lead(p) < 0:
            p = neg(p)
        return ('cmp', 'r==', p)
    return ('cmp', 'r>' if op == '>' else 'r>=', p)


def _int_tighten(p):
    from math import gcd, floor
    den = 1
    for m, c in p[1]:
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    k = Fraction(0)
    for m, c in p[1]:
        if m == ():
            k = c * den
        else:
            g = gcd(g, abs(int(c * den)))
    if g == 0:
        return p
    d = {m: c * den / g for m, c in p[1] if m != ()}
    d[()] = Fraction(floor(k / g))
    return mk(d)


def b_not(b):
    t = b[0]
    if t == 'T':
        return F
    if t == 'F':
        return T
    if t == 'not':
        return b[1]
    if t == 'cmp':
        op, p = b[1], b[2]
        if op == 'i>=':
            return ('cmp', 'i>=', _int_tighten(sub(num(-1), p)))
        if op == 'r>':
            return ('cmp', 'r>=', neg(p))
        if op == 'r>=':
            return ('cmp', 'r>', neg(p))
        return ('not', b)
    if t == 'and':
        return b_or(*[b_not(x) for x in b[1]])
    if t == 'or':
        return b_and(*[b_not(x) for x in b[1]])
    return ('not', b)


def _key(b):
    return repr(b)


def b_and(*bs):
    out = []
    for b in bs:
        if b[0] == 'F':
            return F
        if b[0] == 'T':
            continue
        if b[0] == 'and':
            for x in b[1]:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        if b_not(x) in out:
            return F
    # absorption:  a and (a or b) -> a ; a and (not a or b) -> a and b
    ch = True
    while ch:
        ch = False
        for i, x in enumerate(out):
            if x[0] == 'or':
                if any(y in out for y in x[1]):
                    out.pop(i)
                    ch = True
                    break
                ys = [y for y in x[1] if b_not(y) not in out]
                if len(ys) < len(x[1]):
                    out.pop(i)
                    r = b_or(*ys)
                    if r == F:
                        return F
                    for z in (r[1] if r[0] == 'and' else (r,)):
                        if z not in out:
                            out.append(z)
                    ch = True
                    break
    out = _cmp_join(out)
    if out is None:
        return F
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ('and', tuple(sorted(out, key=_key)))


def _cmp_join(out):
    """combine p>=0 and -p>=0 (ints: ==), contradictory pairs"""
    s = list(out)
    for x in list(s):
        if x not in s:
            continue
        if x[0] == 'cmp' and x[1] in ('i>=', 'r>=', 'r>'):
            for y in list(s):
                if y is x or y[0] != 'cmp' or y[1] not in ('i>=', 'r>=', 'r>') or y not in s:
                    continue
                d = add(x[2], y[2])
                c = const(d)
                if c is not None:
                    if c < 0 or (c == 0 and ('r>' in (x[1], y[1]))):
                        return None
                    if c == 0:
                        s.remove(x)
                        s.remove(y)
                        p = x[2]
                        if _lead(p) < 0:
                            p = neg(p)
                        n = ('cmp', 'i==' if x[1] == 'i>=' else 'r==', p)
                        if n not in s:
                            s.append(n)
                        break
                else:
                    c = const(sub(x[2], y[2]))
                    if c is not None and x[1] == y[1] == 'i>=' and c > 0 and x in s:
                        s.remove(x)        # x weaker
                        break
    return s


def b_or(*bs):
    out = []
    for b in bs:
        if b[0] == 'T':
            return T
        if b[0] == 'F':
            continue
        if b[0] == 'or':
            for x in b[1]:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for x in out:
        if b_not(x) in out:
            return T
    ch = True
    while ch:
        ch = False
        for i, x in enumerate(out):
            if x[0] == 'and':
                if any(y in out for y in x[1]):
                    out.pop(i)
                    ch = True
                    break
                ys = [y for y in x[1] if b_not(y) not in out]
                if len(ys) < len(x[1]):
                    out.pop(i)
                    r = b_and(*ys)
                    if r == T:
                        return T
                    for z in (r[1] if r[0] == 'or' else (r,)):
                        if z not in out:
                            out.append(z)
                    ch = True
                    break
    # factor:  (a&b) | (a&!b) -> a
    ch = True
    while ch:
        ch = False
        for i in range(len(out)):
            for j in range(i + 1, len(out)):
                x, y = out[i], out[j]
                xs = set(x[1]) if x[0] == 'and' else {x}
                ys = set(y[1]) if y[0] == 'and' else {y}
                dx, dy = xs - ys, ys - xs
                if len(dx) == 1 and len(dy) == 1 and b_not(next(iter(dx))) == next(iter(dy)):
                    r = b_and(*(xs & ys)) if xs & ys else T
                    out = [z for k, z in enumerate(out) if k not in (i, j)]
                    if r == T:
                        return T
                    if r not in out:
                        out.append(r)
                    ch = True
                    break
            if ch:
                break
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ('or', tuple(sorted(out, key=_key)))


def conj(b):
    if b[0] == 'T':
        return []
    return list(b[1]) if b[0] == 'and' else [b]


# ------------------------------------------------------------------ conditional values
def ite(c, a, b):
    """numeric conditional in canonical form"""
    if c[0] == 'T' or a == b:
        return a
    if c[0] == 'F':
        return b
    a = restrict(a, c)
    b = restrict(b, b_not(c))
    if a == b:
        return a
    n = b_not(c)
    d = sub(a, b)
    # canonical orientation
    if _orient(c):
        return add(b, A(('ite', c, d)))
    return add(a, A(('ite', n, neg(d))))


def _orient(c):
    if c[0] == 'cmp':
        return _lead(c[2]) > 0 or c[1] in ('i==', 'r==')
    if c[0] == 'not':
        return False
    n = b_not(c)
    return repr(c) <= repr(n)


def as_cond(p):
    """decompose p as (c, a, b) alternatives for each ite atom"""
    out = []
    for i in sorted(atoms(p)):
        at = _atab[i]
        if at[0] == 'ite':
            c, d = at[1], at[2]
            a = subst_atoms(p, {i: d})
            b = subst_atoms(p, {i: ZERO})
            out.append((c, a, b))
            out.append((b_not(c), b, a))
    return out


def subst_atoms(p, m):
    """replace atoms (top level of the polynomial only) by polynomials"""
    if not any(i in m for i in atoms(p)):
        return p
    r = ZERO
    for mo, c in p[1]:
        t = num(c)
        for i, e in mo:
            x = m.get(i)
            x = x if x is not None else ('P', ((((i, 1),), Fraction(1)),))
            for _ in range(e):
                t = mul(t, x)
        r = add(r, t)
    return r


def restrict(t, c):
    """simplify numeric t under the assumption c"""
    if not is_poly(t):
        return t
    pos = set(conj(c))
    negs = set(b_not(x) for x in pos)
    m = {}
    for i in atoms(t):
        at = _atab[i]
        if at[0] == 'ite':
            cs = conj(at[1])
            if all(x in pos for x in cs):
                m[i] = restrict(at[2], c)
            elif any(x in negs for x in cs) or (at[1][0] == 'or' and all(x in negs for x in at[1][1])):
                m[i] = ZERO
            elif at[1][0] == 'or' and any(x in pos for x in at[1][1]):
                m[i] = restrict(at[2], c)
    return subst_atoms(t, m) if m else t


# ------------------------------------------------------------------ generic rewriting
def rewrite(t, f, memo=None):
    """bottom-up rewriting of any nested tuple structure: atoms are rebuilt, then f(node) is applied
    to every tuple node whose head is a string (locations, atoms, terms); f returns replacement or None.
    For atoms, f receives the atom tuple and may return a *polynomial* (term) to substitute."""
    if memo is None:
        memo = {}
    return _rw(t, f, memo)


def _rw(t, f, memo):
    if not isinstance(t, tuple) or not t:
        return t
    k = t
    if k in memo:
        return memo[k]
    if t[0] == 'P':
        m = {}
        for i in atoms(t):
            at = _atab[i]
            n = _rw_atom(at, f, memo)
            if n != A(at):
                m[i] = n
        r = subst_atoms(t, m) if m else t
    elif t[0] == 'cmp':
        p = _rw(t[2], f, memo)
        r = t if p == t[2] else recmp(t[1], p)
        x = f(r)
        if x is not None:
            r = x
    elif t[0] == 'and':
        r = b_and(*[_rw(x, f, memo) for x in t[1]])
    elif t[0] == 'or':
        r = b_or(*[_rw(x, f, memo) for x in t[1]])
    elif t[0] == 'not':
        r = b_not(_rw(t[1], f, memo))
    else:
        r = tuple(_rw(x, f, memo) if isinstance(x, tuple) else x for x in t)
        if isinstance(t[0], str):
            x = f(r)
            if x is not None:
                r = x
    memo[k] = r
    return r


def recmp(op, p):
    return cmp_({'i>=': '>=', 'i==': '==', 'r>': '>', 'r>=': '>=', 'r==': '=='}[op], p, ZERO, op[0] == 'i')


def _rw_atom(at, f, memo):
    key = ('@', at)
    if key in memo:
        return memo[key]
    parts = tuple(_rw(x, f, memo) if isinstance(x, tuple) else x for x in at)
    if parts == at:
        n = at
        r = None
    else:
        n = parts
        r = None
        if n[0] == 'ite':
            r = ite(n[1], n[2], ZERO)
        elif n[0] == 'idiv':
            r = idiv(n[1], n[2])
        elif n[0] == 'inv':
            r = inv(n[1])
        elif n[0] == 'sum':
            r = mk_sum_raw(*n[1:])
        elif n[0] == 'fn' and n[1] == 'abs':
            r = fn('abs', n[2])
    if r is None:
        x = f(n)
        r = x if x is not None else A(n)
        if not is_poly(r):
            r = A(r)
    memo[key] = r
    return r


def substitute(t, m):
    """m: dict from tuple node (atom / loc / bool atom) to replacement"""
    return rewrite(t, lambda n: m.get(n))


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, tuple) or not t:
        return False
    if t in memo:
        return memo[t]
    memo[t] = False
    if t[0] == 'P':
        r = any(contains(_atab[i], pred, memo) for i in atoms(t))
    else:
        r = (isinstance(t[0], str) and pred(t)) or any(contains(x, pred, memo) for x in t if isinstance(x, tuple))
    memo[t] = r
    return r


def nodes(t, out=None, seen=None):
    """all nested tuple nodes with a string head (atoms included)"""
    if out is None:
        out, seen = [], set()
    if not isinstance(t, tuple) or not t or t in seen:
        return out
    seen.add(t)
    if t[0] == 'P':
        for i in sorted(atoms(t)):
            nodes(_atab[i], out, seen)
    else:
        if isinstance(t[0], str):
            out.append(t)
        for x in t:
            if isinstance(x, tuple):
                nodes(x, out, seen)
    return out


# ------------------------------------------------------------------ binders
def _bvmax(t):
    return max([n[1] for n in nodes(t) if n[0] == 'bv'], default=-1)


def bind(ivatom, *ts):
    """abstract the iteration variable: returns (bv, t1', t2'...)"""
    k = max([_bvmax(t) for t in ts] + [-1]) + 1
    bv = ('bv', k)
    return (bv,) + tuple(substitute(t, {ivatom: A(bv)}) for t in ts)


def mk_sum(ivatom, lo, hi, body):
    if body == ZERO:
        return ZERO
    bv, b = bind(ivatom, body)
    return mk_sum_raw(bv, lo, hi, b)


def mk_sum_raw(bv, lo, hi, b):
    if b == ZERO:
        return ZERO
    d = sub(hi, lo)
    c = const(d)
    if c is not None and c < 0:
        return ZERO
    if c is not None and c == 0:
        return substitute(b, {bv: lo})
    if not contains(b, lambda n: n == bv):
        return mul(b, add(d, ONE))
    # linearity: split over the terms of the polynomial
    r = ZERO
    for m, cc in b[1]:
        inm, outm = [], []
        for i, e in m:
            (inm if contains(_atab[i], lambda n: n == bv) else outm).append((i, e))
        o = mk({tuple(outm): cc})
        if not inm:
            r = add(r, mul(o, add(d, ONE)))
        else:
            r = add(r, mul(o, A(('sum', bv, lo, hi, mk({tuple(inm): Fraction(1)})))))
    return r


def mk_forall(ivatom, lo, hi, body):
    if body == T:
        return T
    if not contains(body, lambda n: n == ivatom):
        return b_or(body, cmp_('<', hi, lo, True))
    bv, b = bind(ivatom, body)
    return ('forall', bv, lo, hi, b)


# ------------------------------------------------------------------ Fourier-Motzkin feasibility
def lin(b):
    """constraints from a boolean atom: list of (poly, strict) meaning poly>=0 / >0; [] if unusable"""
    if b[0] == 'cmp':
        op, p = b[1], b[2]
        if op == 'i>=' or op == 'r>=':
            return [(p, False)]
        if op == 'r>':
            return [(p, True)]
        return [(p, False), (neg(p), False)]
    if b[0] == 'and':
        return [x for y in b[1] for x in lin(y)]
    return []


def _fm(cons):
    """cons: list of (dict mono->coef, const, strict). True if feasible over the rationals"""
    cons = [(dict(d), k, s) for d, k, s in cons]
    for _ in range(60):
        vs = {}
        for d, k, s in cons:
            for m in d:
                vs.setdefault(m, [0, 0])[0 if d[m] > 0 else 1] += 1
        nc = []
        for d, k, s in cons:
            if not d:
                if k < 0 or (s and k <= 0):
                    return False
        cons = [c for c in cons if c[0]]
        if not cons:
            return True
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [c for c in cons if c[0].get(v, 0) > 0]
        ngs = [c for c in cons if c[0].get(v, 0) < 0]
        rest = [c for c in cons if v not in c[0]]
        new = set()
        for d1, k1, s1 in pos:
            for d2, k2, s2 in ngs:
                a, b = -d2[v], d1[v]
                d = {}
                for m, c in d1.items():
                    d[m] = d.get(m, 0) + a * c
                for m, c in d2.items():
                    d[m] = d.get(m, 0) + b * c
                d = {m: c for m, c in d.items() if c}
                new.add((tuple(sorted(d.items())), a * k1 + b * k2, s1 or s2))
        cons = rest + [(dict(d), k, s) for d, k, s in new]
        if len(cons) > 400:
            return True
    return True


def feasible(bools, extra=()):
    """may the conjunction hold? (True unless refuted). bools: list of booleans"""
    cons, nes = [], []
    todo = list(bools)
    ors = []
    while todo:
        b = todo.pop()
        if b[0] == 'F':
            return False
        if b[0] == 'and':
            todo.extend(b[1])
        elif b[0] == 'or':
            ors.append(b)
        elif b[0] == 'not' and b[1][0] == 'cmp':
            nes.append(b[1])
        else:
            for p, s in lin(b):
                cons.append(_split(p, s))
    # boolean contradictions
    bs = set(b for b in bools)
    for b in bools:
        if b_not(b) in bs:
            return False
    if len(ors) > 6:
        ors = ors[:6]
    return _feas(cons, nes, ors, [b for b in bools])


def _split(p, s):
    d, k = {}, Fraction(0)
    for m, c in p[1]:
        if m == ():
            k = c
        else:
            d[m] = c
    return (d, k, s)


def _feas(cons, nes, ors, bools):
    if not _fm(cons):
        return False
    if nes:
        n = nes[0]
        isint = n[1][0] == 'i'
        one = Fraction(1) if isint else Fraction(0)
        a = _split(sub(n[2], num(one)), not isint)
        b = _split(sub(neg(n[2]), num(one)), not isint)
        return _feas(cons + [a], nes[1:], ors, bools) or _feas(cons + [b], nes[1:], ors, bools)
    if ors:
        o = ors[0]
        for x in o[1]:
            if b_not(x) in bools:
                continue
            c2, n2, o2 = list(cons), [], list(ors[1:])
            todo = [x]
            dead = False
            while todo:
                y = todo.pop()
                if y[0] == 'and':
                    todo.extend(y[1])
                elif y[0] == 'or':
                    o2.append(y)
                elif y[0] == 'F':
                    dead = True
                elif y[0] == 'not' and y[1][0] == 'cmp':
                    n2.append(y[1])
                else:
                    if b_not(y) in bools:
                        dead = True
                    c2 += [_split(p, s) for p, s in lin(y)]
            if not dead and _feas(c2, n2, o2, bools):
                return True
        return False
    return True


def implies(facts, b):
    """facts |- b (sound, incomplete)"""
    if b[0] == 'T':
        return True
    if b in facts:
        return True
    if b[0] == 'and':
        return all(implies(facts, x) for x in b[1])
    return not feasible(list(facts) + [b_not(b)])


# ------------------------------------------------------------------ boolean equivalence
def _bvars(b, out):
    if b[0] in ('and', 'or'):
        for x in b[1]:
            _bvars(x, out)
    elif b[0] == 'not':
        _bvars(b[1], out)
    elif b[0] == 'cmp':
        p = b[2]
        q = p if _lead(p) > 0 else neg(p)
        k = ('tri', q) if b[1][0] == 'r' else b
        if b[1][0] == 'i':
            k = b if b[1] == 'i==' else (b if repr(b) <= repr(b_not(b)) else b_not(b))
        if k not in out:
            out.append(k)
    elif b[0] not in ('T', 'F'):
        if b not in out:
            out.append(b)
    return out


def _beval(b, env):
    t = b[0]
    if t == 'T':
        return True
    if t == 'F':
        return False
    if t == 'and':
        return all(_beval(x, env) for x in b[1])
    if t == 'or':
        return any(_beval(x, env) for x in b[1])
    if t == 'not':
        return not _beval(b[1], env)
    if t == 'cmp':
        p = b[2]
        if b[1][0] == 'r':
            q = p if _lead(p) > 0 else neg(p)
            s = env[('tri', q)]
            if q != p:
                s = -s
            return {'r>': s > 0, 'r>=': s >= 0, 'r==': s == 0}[b[1]]
        if b[1] == 'i==':
            return env[b]
        k = b if repr(b) <= repr(b_not(b)) else b_not(b)
        return env[k] if k == b else not env[k]
    return env[b]


def lift_ite(b, depth=12):
    """comparisons of conditional numbers as boolean combinations of their cases"""
    if b[0] in ('and', 'or'):
        xs = [lift_ite(x, depth) for x in b[1]]
        return b if list(b[1]) == xs else (b_and if b[0] == 'and' else b_or)(*xs)
    if b[0] == 'not':
        x = lift_ite(b[1], depth)
        return b if x == b[1] else b_not(x)
    if b[0] != 'cmp' or depth <= 0:
        return b
    for i in sorted(atoms(b[2])):
        at = _atab[i]
        if at[0] == 'ite':
            c = lift_ite(at[1], depth - 1)
            y = lift_ite(recmp(b[1], restrict(subst_atoms(b[2], {i: at[2]}), at[1])), depth - 1)
            n = lift_ite(recmp(b[1], restrict(subst_atoms(b[2], {i: ZERO}), b_not(at[1]))), depth - 1)
            return y if y == n else b_or(b_and(c, y), b_and(b_not(c), n))
    return b


def b_equiv(a, b, facts=(), limit=14):
    """True: equivalent under facts; False: a feasible distinguishing assignment exists; None: too large"""
    if a == b:
        return True
    a, b = lift_ite(a), lift_ite(b)
    if a == b:
        return True
    vs = _bvars(a, [])
    _bvars(b, vs)
    if len(vs) > limit:
        return None
    doms = [(-1, 0, 1) if v[0] == 'tri' else (True, False) for v in vs]
    for vals in product(*doms):
        env = dict(zip(vs, vals))
        if _beval(a, env) != _beval(b, env):
            bs = list(facts)
            for v, x in env.items():
                if v[0] == 'tri':
                    q = v[1]
                    bs.append(('cmp', 'r>', q) if x > 0 else ('cmp', 'r==', q) if x == 0 else ('cmp', 'r>', neg(q)))
                else:
                    bs.append(v if x else b_not(v))
            if feasible(bs):
                return False
    return True


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if depth > 14:
        return '..'
    if isinstance(t, Fraction):
        return str(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return ''
    s = lambda x: show(x, depth + 1)
    h = t[0]
    if h == 'P':
        if not t[1]:
            return '0'
        out = []
        for m, c in t[1]:
            fs = []
            for i, e in m:
                x = s(_atab[i])
                fs.append(x if e == 1 else '%s^%d' % (x, e))
            if c == 1 and fs:
                out.append('*'.join(fs))
            elif c == -1 and fs:
                out.append('-' + '*'.join(fs))
            else:
                out.append('*'.join([str(c)] + fs))
        return (' + '.join(out)).replace('+ -', '- ') if len(out) == 1 or depth == 0 else '(' + (' + '.join(out)).replace('+ -', '- ') + ')'
    if h == 'cmp':
        return '%s %s 0' % (s(t[2]), {'i>=': '>=', 'i==': '==', 'r>': '>', 'r>=': '>=', 'r==': '=='}[t[1]])
    if h in ('and', 'or'):
        return '(' + (' && ' if h == 'and' else ' || ').join(s(x) for x in t[1]) + ')'
    if h == 'not':
        return '!(%s)' % s(t[1])
    if h == 'T':
        return 'true'
    if h == 'F':
        return 'false'
    if h == 'bat':
        return s(t[1])
    if h == 'forall':
        return 'forall %s in [%s..%s]: %s' % (s(t[1]), s(t[2]), s(t[3]), s(t[4]))
    if h in ('ld', 'ldp'):
        return s(t[1])
    if h == 'this':
        return 'this'
    if h == 'fld':
        return (s(t[1]) + '.' + t[2]) if t[1] != ('this',) else t[2]
    if h == 'idx':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if h == 'lin':
        return '%s[#%s]' % (s(t[1]), s(t[2]))
    if h == 'cell':
        return '%s(%s,%s)' % (s(t[1]), s(t[2]), s(t[3]))
    if h == 'at':
        return '%s{%s}' % (s(t[1]), s(t[2]))
    if h == 'deref':
        return '*' + s(t[1])
    if h in ('size', 'dim'):
        return '%s(%s)' % (h, s(t[1]))
    if h == 'var':
        return str(t[2])
    if h == 'sym':
        return str(t[2] if len(t) > 2 else t[1])
    if h == 'iv':
        return '%s%s' % (t[2] if len(t) > 2 else 'iv', t[1])
    if h == 'in':
        return 'in<%s>' % s(t[2])
    if h == 'bv':
        return 't%s' % t[1]
    if h == 'ite':
        return '(%s ? %s : 0)' % (s(t[1]), s(t[2]))
    if h == 'sum':
        return 'sum(%s=%s..%s: %s)' % (s(t[1]), s(t[2]), s(t[3]), s(t[4]))
    if h == 'new':
        return 'new@%s' % (t[1],)
    if h in ('fn', 'call', 'vcall'):
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    if h == 'idiv':
        return '(%s div %s)' % (s(t[1]), s(t[2]))
    if h == 'inv':
        return '1/(%s)' % s(t[1])
    if h == 'ptr':
        return '&' + s(t[1])
    return h + '(' + ', '.join(s(x) for x in t[1:]) + ')'
