"""Abstract interpreter over the extracted program.

Every function is analysed once, for all inputs: scalars are canonical terms over symbolic inputs, loops are
summarised (iteration ranges, induction variables, sums, running maxima, quantified conditions) and never
unrolled, helpers are inlined, and the result is an *effect trace*: the ordered list of writes / insertions /
calls, each with its location, value, guard and enclosing loops."""
import re, time
from .terms import *
from . import terms as TT

CONT = ('std::vector<', 'std::list<', 'std::map<', 'std::set<', 'std::deque<', 'std::array<', 'std::unordered_map<', 'std::multimap<', 'std::initializer_list<', 'std::unordered_set<', 'std::stack<', 'std::queue<')
ITER = ('__gnu_cxx::__normal_iterator<', 'std::_Rb_tree_iterator<', 'std::_Rb_tree_const_iterator<', 'std::_List_iterator<', 'std::_List_const_iterator<', 'std::reverse_iterator<', 'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::_Deque_iterator<')
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long', '__int128'}
REALS = {'float', 'double', 'long double'}


WIDTH = {'float': 1, 'double': 2, 'long double': 3}


def strip(t):
    t = t.strip()
    ch = True
    while ch:
        ch = False
        for p in ('const ', 'volatile '):
            if t.startswith(p):
                t = t[len(p):]
                ch = True
        for s in ('&', ' const'):
            if t.endswith(s):
                t = t[:-len(s)].strip()
                ch = True
    return t


def targs(t):
    """template arguments of the outermost template-id"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for c in t[i + 1:]:
        if c in '<(':
            d += 1
        if c in '>)':
            if d == 0:
                break
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Undecided(Exception):
    pass


class LV:
    __slots__ = ('loc', 't', 'tmp')

    def __init__(self, loc, t, tmp=False):
        self.loc, self.t, self.tmp = loc, strip(t), tmp

    def __repr__(self):
        return 'LV(%s:%s)' % (show(self.loc), self.t)


class Ev:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.loc = self.val = None
        self.guard = T
        self.line = 0
        self.fn = self.file = None
        self.promoted = False
        self.__dict__.update(kw)

    def where(self):
        return '%s:%s' % (self.file, self.line)

    def __repr__(self):
        return '%s %s := %s if %s @%s' % (self.kind, show(self.loc) if self.loc else '', show(self.val) if self.val is not None else '', show(self.guard), self.line)


class Loop:
    def __init__(self, **kw):
        self.kind = 'loop'
        self.exits = []
        self.body = []
        self.guard = T
        self.carried = {}
        self.problem = None
        self.__dict__.update(kw)

    def where(self):
        return '%s:%s' % (self.file, self.line)


class State:
    def __init__(self):
        self.env, self.mem, self.vers, self.copies, self.cinit, self.decl = {}, {}, {}, {}, {}, {}
        self.pc = T

    def copy(self):
        s = State()
        s.env, s.mem, s.vers, s.copies, s.cinit, s.decl = dict(self.env), dict(self.mem), dict(self.vers), dict(self.copies), dict(self.cinit), dict(self.decl)
        s.pc = self.pc
        return s


def fam(loc):
    """alias family: indices abstracted"""
    h = loc[0]
    if h == 'idx':
        return ('idx', fam(loc[1]), '*')
    if h == 'cell':
        return ('cell', fam(loc[1]), '*')
    if h == 'lin':
        return ('cell', fam(loc[1]), '*')
    if h == 'at':
        return ('idx', fam(loc[1]), '*')
    if h in ('fld', 'tup'):
        return (h, fam(loc[1]), loc[2])
    if h in ('size', 'dim', 'key'):
        return (h, fam(loc[1]))
    if h == 'deref':
        p = loc[1]
        if p[0] == 'ldp':
            return ('deref', fam(p[1])) if isinstance(p[1], tuple) and p[1] and p[1][0] in LOCK else ('deref', p[1])
        return ('deref', p)
    return loc


LOCK = ('this', 'arg', 'var', 'glob', 'fld', 'idx', 'at', 'cell', 'lin', 'deref', 'new', 'tmp', 'tup', 'size', 'dim', 'cv', 'key')


def closed(n):
    """an initialiser that mentions no argument, local variable or object"""
    if isinstance(n, dict):
        if n.get('k') == 'this' or n.get('k') == 'var' and not n.get('g'):
            return False
        return all(closed(x) for x in n.values())
    return all(closed(x) for x in n) if isinstance(n, list) else True


def prefixes(loc):
    out = [loc]
    while loc[0] in ('fld', 'idx', 'at', 'cell', 'lin', 'tup', 'size', 'dim', 'key'):
        loc = loc[1]
        out.append(loc)
    return out


def root(loc):
    return prefixes(loc)[-1]


def repl_prefix(loc, a, b):
    if loc == a:
        return b
    if loc[0] in ('fld', 'idx', 'at', 'cell', 'lin', 'tup', 'size', 'dim', 'key'):
        n = repl_prefix(loc[1], a, b)
        if n is not loc[1]:
            return (loc[0], n) + loc[2:]
    return loc


def cases(p, depth=5):
    """the values a number can take, each with its condition; None when there are too many"""
    for i in sorted(atoms(p)):
        at = atom_of(i)
        if at[0] == 'ite':
            if not depth:
                return None
            n = b_not(at[1])
            y = cases(restrict(subst_atoms(p, {i: at[2]}), at[1]), depth - 1)
            z = cases(restrict(subst_atoms(p, {i: ZERO}), n), depth - 1)
            if y is None or z is None:
                return None
            return [x for x in [(b_and(at[1], c), v) for c, v in y] + [(b_and(n, c), v) for c, v in z] if x[0] != F]
    return [(T, p)]


def selection(p, x, clean):
    """(condition, value) when p is either x or one other value"""
    cs = cases(p) or ()
    vs = {v for c, v in cs if v != x}
    if len(vs) != 1 or not any(v == x for c, v in cs) or not clean(min(vs)):
        return None
    return b_or(*[c for c, v in cs if v != x]), min(vs)


class Interp:
    def __init__(self, P, prims=None, axioms=None, opaque=()):
        self.P = P
        self.prims = prims or {}
        self.axioms = axioms
        self.rounding = False              # model the rounding of floating-point results
        self.callw = {}
        self.opaque = set(opaque)          # qualified names / keys of functions not to inline
        self.st = State()
        self.events = []
        self.loops = []                    # enclosing loops (with facts)
        self.wlog = []
        self.stack = []                    # (function key)
        self.thisloc = None
        self.thiscls = None
        self.retstack = []
        self.exstack = []                  # loop exit collectors
        self.uid = 0
        self.tmp_floor = 0
        self.loop_floor = 0
        self.loopid = 0
        self.unknown = []                  # unmodelled constructs met
        self.nonneg = set()
        self.inlined = set()
        self.recw = {}                     # recursive function -> families written
        self.guess = {}
        self.curfile = None
        self._impc = {}
        self.deadline = None
        self.allocs = {}
        self.steps = 0
        self.ptypes = {}
        self.ucmps = {}                    # relational comparisons of unsigned values
        self.dyn = {}                      # object -> dynamic class, where known

    # ------------------------------------------------------------ utilities
    def kind(self, t):
        t = strip(t)
        if t in self.prims.get('scalar_types', ()):
            return 'num'
        if t in INTS:
            return 'int'
        if t in REALS:
            return 'real'
        if t == 'bool' or t == 'std::_Bit_reference':
            return 'bool'
        if t == 'void':
            return 'void'
        if t.endswith('*') or t.endswith('*const') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr', 'std::nullptr_t')) or t == 'nullptr_t':
            return 'ptr'
        if t.startswith(ITER):
            return 'iter'
        if t.startswith(CONT):
            return 'cont'
        if t.startswith(('std::tuple<', 'std::pair<', 'std::_Tuple')):
            return 'tuple'
        if '(lambda' in t:
            return 'lambda'
        if t in self.P.records:
            return 'rec'
        return 'other'

    def fresh(self):
        self.uid += 1
        return self.uid

    def unk(self, what, line=0, t='int'):
        self.unknown.append((what, '%s:%s' % (self.curfile, line)))
        return self.symbol(t, ('unk', what, self.fresh()))

    def symbol(self, t, at):
        k = self.kind(t) if t else 'int'
        if k == 'bool':
            return ('bat', at)
        if k in ('ptr',):
            return ('ldp', at, 0)
        if k == 'iter':
            return ('it', ('cv', at), A(at))
        if k in ('cont', 'rec', 'tuple', 'other'):
            return LV(('cv', at), t or 'other')
        if k == 'void':
            return None
        return A(at)

    def emit(self, kind, **kw):
        n = kw.pop('node', None)
        e = Ev(kind, guard=self.st.pc, line=(n or {}).get('l', 0) if isinstance(n, dict) else self.curline, fn=self.stack[-1] if self.stack else None, file=self.curfile, **kw)
        if not e.line:
            e.line = self.curline
        e.loops = tuple(self.loops)
        self.events.append(e)
        return e

    curline = 0

    # ------------------------------------------------------------ facts
    def facts(self):
        fs = list(conj(self.st.pc))
        for L in self.loops:
            fs += L['facts']
            fs += conj(L['pc0'])
        return fs

    def implied(self, b, extra=()):
        if b == T:
            return True
        if b == F:
            return False
        fs = self.facts() + list(extra)
        return self.entails(fs, b)

    def entails(self, fs, b):
        key = (tuple(fs), b)
        r = self._impc.get(key)
        if r is None:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time limit of the analysis reached')
            fs = fs + self.typefacts(fs + [b])
            r = self._impc[key] = implies(fs, b)
        return r

    def typefacts(self, bs):
        out = []
        seen = set()
        for b in bs:
            for n in nodes(b):
                if n in seen:
                    continue
                seen.add(n)
                if n[0] == 'ld' and (n in self.nonneg or (n[1][0] in ('size', 'dim'))):
                    out.append(cmp_('>=', A(n), ZERO, True))
                elif n[0] == 'idiv':
                    out.append(cmp_('>=', A(n), ZERO, True))
        if self.axioms:
            out += self.axioms(seen)
        return out

    def distinct(self, a, b):
        """provably different locations (same family)"""
        if a == b:
            return False
        if a[0] != b[0]:
            if {a[0], b[0]} == {'idx', 'at'} or {a[0], b[0]} == {'cell', 'lin'}:
                return False
            return True
        h = a[0]
        if h in ('fld', 'tup'):
            if a[2] != b[2]:
                return True
            return self.distinct(a[1], b[1])
        if h in ('size', 'dim', 'key'):
            return self.distinct(a[1], b[1])
        if h in ('idx', 'lin', 'at'):
            if a[1] != b[1] and self.distinct(a[1], b[1]):
                return True
            if is_poly(a[2]) and is_poly(b[2]):
                return self.differ(a[2], b[2])
            return False
        if h == 'cell':
            if a[1] != b[1] and self.distinct(a[1], b[1]):
                return True
            return self.differ(a[2], b[2]) or self.differ(a[3], b[3])
        if h == 'deref':
            x, y = a[1], b[1]
            if x[0] == 'ldp' and y[0] == 'ldp' and isinstance(x[1], tuple) and isinstance(y[1], tuple) and x[1] and y[1] and x[1][0] in LOCK and y[1][0] in LOCK and x[2] == y[2]:
                # pointers held in distinct cells of one owning container point to distinct objects
                return self.distinct(x[1], y[1])
            return fam(a) != fam(b)
        return a != b

    def differ(self, p, q):
        d = sub(p, q)
        c = const(d)
        if c is not None:
            return c != 0
        return self.implied(b_not(cmp_('==', p, q, True)))

    # ------------------------------------------------------------ memory
    def resolve(self, loc):
        """follow by-value copies"""
        for _ in range(30):
            ch = False
            for p in prefixes(loc)[(1 if loc[0] not in ('size', 'dim') else 1):]:
                s = self.st.copies.get(p)
                if s is not None and p != loc:
                    loc = repl_prefix(loc, p, s)
                    ch = True
                    break
                if p[0] == 'idx' and p != loc:
                    ci = self.st.cinit.get(p[1])
                    if ci and isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'copy':
                        loc = repl_prefix(loc, p, ci[2][1])
                        ch = True
                        break
            if not ch:
                return loc
        return loc

    def canon(self, loc):
        s = self.st.copies.get(loc)
        n = 0
        while s is not None and n < 30:
            loc = s
            s = self.st.copies.get(loc)
            n += 1
        return self.resolve(loc)

    def ver(self, loc):
        return self.st.vers.get(fam(loc), 0)

    def load(self, loc, t):
        if loc[0] == 'slot':
            v = self.st.env.get(loc[1])
            if v is None or v == ('undef',):
                self.emit('undef', loc=loc)
                v = self.symbol(t, ('undef', loc[2]))
            return v
        loc = self.resolve(loc)
        if loc in self.st.mem:
            return self.st.mem[loc]
        v = self.default(loc, t)
        self.st.mem[loc] = v
        return v

    def default(self, loc, t):
        k = self.kind(t)
        if loc[0] in ('size', 'dim'):
            ci = self.st.cinit.get(loc[1])
            if ci and ci[1] is not None:
                return ci[1]
        if loc[0] in ('idx', 'cell', 'lin'):
            ci = self.st.cinit.get(loc[1])
            if ci is not None and ci[2] is not None and not (isinstance(ci[2], tuple) and ci[2] and ci[2][0] in ('copy', 'fresh', 'obj', 'freshptr')):
                return ci[2]
        at = ('ld', loc, self.ver(loc))
        if k == 'bool':
            return ('bat', at)
        if k == 'ptr':
            return ('ldp', loc, self.ver(loc))
        if k == 'iter':
            return ('it', ('cv', at), A(at))
        if strip(t).startswith('unsigned'):
            self.nonneg.add(at)
        return A(at)

    def kill(self, loc, exact_ok=True):
        """invalidate what may alias a write to loc"""
        f = fam(loc)
        for l in list(self.st.mem):
            if l != loc and fam(l) == f and not self.distinct(l, loc):
                del self.st.mem[l]
        self.st.vers[f] = self.fresh()
        # default contents of the enclosing containers no longer describe every element
        for p in prefixes(loc)[1:]:
            if p in self.st.cinit and loc[0] not in ('size', 'dim'):
                ci = self.st.cinit[p]
                if ci[2] is not None and not (isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'fresh'):
                    if fam(loc) == ('idx', fam(p), '*') or True:
                        if not self._scalar_elem_keep(p, loc):
                            self.st.cinit[p] = (ci[0], ci[1], None)

    def _scalar_elem_keep(self, p, loc):
        return False

    def dirty(self, loc):
        """a by-value copy is about to be modified: detach it from its source"""
        for p in prefixes(loc):
            if p in self.st.copies:
                self.detach(p)
        # somebody else's copy of the modified container
        for d, s in list(self.st.copies.items()):
            if any(s == q for q in prefixes(loc)) or any(q == loc for q in prefixes(s)):
                self.detach(d)
        for c, ci in list(self.st.cinit.items()):
            if isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'copy' and any(q == ci[2][1] for q in prefixes(loc)):
                self.st.cinit[c] = (ci[0], ci[1], None)
        # element created from a shared initial value
        for p in reversed(prefixes(loc)[1:]):
            if p[0] == 'idx':
                ci = self.st.cinit.get(p[1])
                if ci and isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'copy':
                    src = ci[2][1]
                    self.st.cinit[p[1]] = (ci[0], ci[1], None)
                    q = self.resolve(p)
                    if ('size', q) not in self.st.mem:
                        self.st.mem[('size', q)] = self.size(src)
                    self.graft(src, q)

    def detach(self, d):
        s = self.st.copies.pop(d)
        self.graft(s, d)

    def graft(self, s, d):
        s = self.resolve(s)
        for l in list(self.st.mem):
            if s in prefixes(l) and l != s:
                n = repl_prefix(l, s, d)
                if n not in self.st.mem:
                    self.st.mem[n] = self.st.mem[l]
        for l in list(self.st.cinit):
            if s in prefixes(l):
                self.st.cinit.setdefault(repl_prefix(l, s, d), self.st.cinit[l])
        for l in list(self.st.copies):
            if s in prefixes(l) and l != s:
                self.st.copies.setdefault(repl_prefix(l, s, d), self.st.copies[l])

    def store(self, loc, val, node=None, kind='write', **kw):
        self.dirty(loc)
        loc = self.resolve(loc)
        if isinstance(val, LV):
            val = self.unk('object value stored', (node or {}).get('l', 0))
        self.kill(loc)
        self.st.mem[loc] = val
        self.wlog.append(loc)
        return self.emit(kind, loc=loc, val=val, node=node, **kw)

    def store_quiet(self, loc, val):
        self.dirty(loc)
        loc = self.resolve(loc)
        self.kill(loc)
        self.st.mem[loc] = val
        self.wlog.append(loc)

    def purge(self, loc):
        """loc is (re)created: forget everything below it"""
        for d in (self.st.mem, self.st.cinit, self.st.copies):
            for l in list(d):
                if loc in prefixes(l):
                    del d[l]

    def clobber(self, loc):
        """unknown modification of everything below loc"""
        loc = self.resolve(loc)
        self.dirty(loc)
        for d in (self.st.mem, self.st.cinit):
            for l in list(d):
                if loc in prefixes(l):
                    del d[l]
        self.st.vers[fam(loc)] = self.fresh()
        self.wlog.append(('all', loc))
        self.emit('clobber', loc=loc)

    # ------------------------------------------------------------ containers
    def size(self, c):
        c2 = self.canon(c)
        return self.load(('size', c2), 'unsigned long')

    def elem(self, c, i, t):
        return LV(('idx', c, i), t)

    def elemtype(self, ct):
        a = targs(ct)
        ct = strip(ct)
        if ct.startswith(('std::map<', 'std::multimap<', 'std::unordered_map<')):
            return 'std::pair<const %s, %s>' % (a[0], a[1])
        return a[0] if a else 'other'

    def new_container(self, loc, size, val, node=None, ct=None):
        """loc becomes a container of `size` elements all equal to val (None: unspecified)"""
        self.dirty(loc)
        loc = self.resolve(loc)
        if self.st.copies.get(loc) is not None:
            self.st.copies.pop(loc)
        v0 = self.st.vers.get(fam(loc))
        self.purge(loc)
        self.st.cinit[loc] = (ct, size, val)
        for f in (('idx', fam(loc), '*'),):
            if f in self.st.vers or v0 is not None:
                self.st.vers[f] = self.fresh()
        self.st.vers[fam(loc)] = self.fresh()
        self.wlog.append(('all', loc))
        self.st.mem[('size', loc)] = size if size is not None else A(('ld', ('size', loc), self.fresh()))
        self.wlog.append(('size', loc))
        return self.emit('init', loc=loc, val=val, size=size, node=node, ct=ct)

    def zero_of(self, t):
        k = self.kind(t)
        if k == 'bool':
            return F
        if k == 'ptr':
            return ('null',)
        if k in ('int', 'real', 'num'):
            return ZERO
        return None

    def copy_obj(self, dst, src, t, node=None, tmp=False, ev=True):
        t = strip(t)
        k = self.kind(t)
        src0 = src
        src = self.resolve(src)
        if k in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
            v = self.load(src, t)
            if ev:
                self.store(dst, v, node)
            else:
                self.store_quiet(dst, v)
            return
        if k == 'rec':
            self.dirty(dst)
            dst = self.resolve(dst)
            e = self.emit('copyobj', loc=dst, val=('ptr', src), node=node, t=t) if ev else None
            for cls in [t] + self.P.bases(t):
                for f in self.P.records.get(cls, {}).get('fields', []):
                    n = cls + '::' + f['n']
                    self.copy_obj(('fld', dst, n), ('fld', src, n), f['t'], node, tmp, ev=False)
            if e:
                e.comps = self.components(dst, t)
            return
        if k == 'tuple':
            self.dirty(dst)
            dst = self.resolve(dst)
            if ev:
                self.emit('copyobj', loc=dst, val=('ptr', src), node=node, t=t)
            pair = t.startswith('std::pair')
            for i, a in enumerate(targs(t)):
                f = (lambda L: ('fld', L, 'first' if i == 0 else 'second')) if pair else (lambda L: ('tup', L, i))
                self.copy_obj(f(dst), f(src), a, node, tmp, ev=False)
            return
        # containers and unknown classes: lazy copy
        s = self.canon(src)
        if dst == s:
            return
        self.dirty(dst)
        dst = self.resolve(dst)
        sz = self.size(s) if k == 'cont' else None
        ci = self.st.cinit.get(s)
        al = self.st.copies.get(s)
        sub = {l: v for l, v in self.st.mem.items() if s in prefixes(l) and l != s} if tmp else None
        subc = {l: v for l, v in self.st.cinit.items() if s in prefixes(l)} if tmp else None
        self.purge(dst)
        self.st.vers[fam(dst)] = self.fresh()
        self.wlog.append(('all', dst))
        if tmp and al is None and root(s)[0] in ('tmp',):
            for l, v in sub.items():
                self.st.mem[repl_prefix(l, s, dst)] = v
            for l, v in subc.items():
                self.st.cinit[repl_prefix(l, s, dst)] = v
        else:
            self.st.copies[dst] = s
        if sz is not None:
            self.st.mem[('size', dst)] = sz
            self.wlog.append(('size', dst))
        if ev:
            self.emit('copy', loc=dst, val=('ptr', s), size=sz, node=node, t=t, init=ci)

    def tmp(self, t):
        return LV(('tmp', self.fresh()), t, True)

    # ------------------------------------------------------------ values
    def rv(self, x, t=None, node=None):
        """rvalue of evaluated x"""
        if isinstance(x, LV):
            k = self.kind(x.t)
            if k in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
                return self.load(x.loc, x.t)
            if k == 'lambda' or k == 'other':
                if x.loc[0] == 'slot':
                    v = self.st.env.get(x.loc[1])
                    return v if isinstance(v, tuple) and v and v[0] == 'lam' else x
                v = self.st.mem.get(self.resolve(x.loc))
                if v is not None:
                    return v
            return x
        return x

    def val(self, n):
        return self.rv(self.ev(n))

    def numv(self, n):
        v = self.val(n)
        return self.tonum(v, n)

    def tonum(self, v, n=None):
        if is_poly(v):
            return v
        if is_bool(v):
            return ite(v, ONE, ZERO)
        return self.unk('number expected', (n or {}).get('l', 0))

    def tobool(self, v, n=None, isint=False):
        if is_bool(v):
            return v
        if is_poly(v):
            return b_not(cmp_('==', v, ZERO, isint))
        if isinstance(v, tuple) and v and v[0] in ('ptr', 'ldp', 'null', 'pite'):
            return b_not(self.isnull(v))
        return self.unk('boolean expected', (n or {}).get('l', 0), 'bool')

    def boolv(self, n):
        return self.tobool(self.val(n), n)

    def isnull(self, v):
        if v[0] == 'null':
            return T
        if v[0] == 'ptr':
            return F
        if v[0] == 'pite':
            return b_or(b_and(v[1], self.isnull(v[2])), b_and(b_not(v[1]), self.isnull(v[3])))
        return ('bat', ('isnull', v))

    def deref(self, v, t, node=None):
        if isinstance(v, LV):
            v = self.rv(v)
        if isinstance(v, tuple) and v and v[0] == 'ptr':
            return LV(v[1], t)
        if isinstance(v, tuple) and v and v[0] == 'ldp':
            return LV(('deref', v), t)
        if isinstance(v, tuple) and v and v[0] == 'pite':
            # resolve under the path condition when possible
            if self.implied(v[1]):
                return self.deref(v[2], t, node)
            if self.implied(b_not(v[1])):
                return self.deref(v[3], t, node)
            for c, x in ((v[1], v[2]), (b_not(v[1]), v[3])):
                if x == ('null',):
                    self.emit('nullderef', node=node, cond=c)
            return LV(('deref', v), t)
        if isinstance(v, tuple) and v and v[0] == 'it':
            return LV(('idx', v[1], v[2]), t)
        if isinstance(v, tuple) and v and v[0] == 'null':
            self.emit('nullderef', node=node)
            return LV(('deref', ('ldp', ('nullobj',), 0)), t)
        u = self.unk('dereference of unmodelled pointer', (node or {}).get('l', 0), 'int *')
        return LV(('deref', u), t)

    def mergev(self, c, a, b):
        if a is b or a == b:
            return a
        if a is None or b is None or a == ('undef',) or b == ('undef',):
            # undefined on one path: keep the defined one (reads of undefined data are judged separately)
            return a if b in (None, ('undef',)) else b
        if is_poly(a) and is_poly(b):
            return ite(c, a, b)
        if is_bool(a) and is_bool(b):
            return b_or(b_and(c, a), b_and(b_not(c), b))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] in ('ptr', 'ldp', 'null', 'pite') and b[0] in ('ptr', 'ldp', 'null', 'pite'):
            return ('pite', c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it' and a[1] == b[1]:
            return ('it', a[1], ite(c, a[2], b[2]))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('ref', 'obj'):
            return ('badref', self.fresh())
        return ('badref', self.fresh())

    def merge(self, c, s1, s2):
        """state after `c ? s1 : s2` (both may be dead)"""
        if s1.pc == F:
            return s2
        if s2.pc == F:
            return s1
        r = State()
        r.pc = b_or(s1.pc, s2.pc)
        for k in set(s1.env) | set(s2.env):
            r.env[k] = self.mergev(c, s1.env.get(k), s2.env.get(k))
        save = self.st
        for l in set(s1.mem) | set(s2.mem):
            vals = []
            for s in (s1, s2):
                if l in s.mem:
                    vals.append(s.mem[l])
                else:
                    o = s1.mem.get(l) if s is s2 else s2.mem.get(l)
                    t = 'bool' if is_bool(o) else 'int *' if isinstance(o, tuple) and o[0] in ('ptr', 'ldp', 'null', 'pite') else 'long double'
                    if isinstance(o, tuple) and o[0] in ('it', 'lam', 'ini', 'str'):
                        vals.append(o)
                        continue
                    self.st = s
                    vals.append(self.default(l, t))
            if vals[0] is not None and vals[1] is not None:
                r.mem[l] = self.mergev(c, vals[0], vals[1])
        self.st = save
        for f in set(s1.vers) | set(s2.vers):
            a, b = s1.vers.get(f, 0), s2.vers.get(f, 0)
            r.vers[f] = a if a == b else self.fresh()
        for l in set(s1.copies) | set(s2.copies):
            if s1.copies.get(l) == s2.copies.get(l):
                r.copies[l] = s1.copies[l]
            else:
                # differing copies: unknown content
                r.vers[('idx', fam(l), '*')] = self.fresh()
        for l in set(s1.cinit) & set(s2.cinit):
            a, b = s1.cinit[l], s2.cinit[l]
            if a == b:
                r.cinit[l] = a
            else:
                r.cinit[l] = (a[0], a[1] if a[1] == b[1] else None, a[2] if a[2] == b[2] else None)
        for k in set(s1.decl) | set(s2.decl):
            r.decl[k] = max(s1.decl.get(k, 0), s2.decl.get(k, 0))
        return r

    # ------------------------------------------------------------ expressions
    def ev(self, n):
        if n is None:
            return None
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided('analysis budget exceeded')
        if n.get('l'):
            self.curline = n['l']
        m = getattr(self, 'e_' + n['k'], None)
        if m is None:
            return self.unk('expression %s' % n.get('c', n['k']), n.get('l', 0))
        return m(n)

    def e_int(self, n):
        return num(int(n['v']))

    def e_flt(self, n):
        return num(Fraction(n['v']))

    def e_bool(self, n):
        return T if n['v'] else F

    def e_str(self, n):
        return ('str', n['v'])

    def e_null(self, n):
        return ('null',)

    def e_zero(self, n):
        z = self.zero_of(n['t'])
        if z is not None:
            return z
        return self.unk('value initialisation of ' + n['t'], n.get('l', 0))

    def e_this(self, n):
        return ('ptr', self.thisloc)

    def e_fn(self, n):
        return ('fnref', n['f'])

    def e_mat(self, n):
        v = self.ev(n['e'])
        return v

    def e_var(self, n):
        v = self.st.env.get(n['id'])
        if v is None:
            if n.get('g'):
                g = [x for x in self.P.globals.values() if x['q'] == n['g']]
                if g and g[0].get('const') and g[0].get('init') is not None and self.kind(g[0]['t']) in ('int', 'real', 'bool'):
                    return self.rv(self.ev(g[0]['init']))
                return LV(('glob', n['g']), n['t'])
            return LV(('var', n['id'], n['n'], 0), n['t'])
        if isinstance(v, tuple) and v and v[0] in ('ref', 'obj'):
            return LV(v[1], v[2] if len(v) > 2 and v[0] == 'ref' and v[2] else n['t'])
        if isinstance(v, tuple) and v and v[0] == 'sref':
            return LV(('slot', v[1], v[2]), v[3] or n['t'])
        if isinstance(v, tuple) and v and v[0] == 'badref':
            return self.symbol(n['t'], ('unk', 'ref', self.fresh()))
        return LV(('slot', n['id'], n['n']), n['t'])

    # scalar locals live in env; LV ('slot', id, name)
    def lv_load(self, lv):
        return self.rv(lv)

    def e_mem(self, n):
        b = self.ev(n['b'])
        name = (n['rc'] + '::' + n['n']) if n.get('rc') and not n['rc'].startswith('std::') else n['n']
        if n['arrow']:
            o = self.deref(self.rv(b), 'other', n)
        else:
            o = b if isinstance(b, LV) else self.rv(b)
        if not isinstance(o, LV):
            return self.unk('member of a non-object', n.get('l', 0), n['t'])
        if o.loc[0] == 'mapel' and n['n'] in ('first', 'second'):
            # the element a lookup found: its key is the one looked up, its value that of the container
            if n['n'] == 'first':
                return o.loc[2] if is_poly(o.loc[2]) else LV(o.loc, n['t'])
            return LV(('at', o.loc[1], o.loc[2]), n['t'])
        if strip(o.t).startswith(('std::pair', 'std::tuple')) or n.get('rc', '').startswith('std::pair'):
            base = o.loc
            return LV(('fld', base, n['n']), n['t'])
        return LV(('fld', o.loc, name), n['t'])

    def e_cast(self, n):
        ck = n['ck']
        v = self.ev(n['e'])
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(self.rv(v), n, ck == 'IntegralToBoolean')
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'BooleanToSignedIntegral'):
            r = self.rv(v)
            if is_bool(r):
                r = ite(r, ONE, ZERO)
            if ck == 'FloatingCast' and self.rounding and WIDTH.get(strip(n['t']), 9) < WIDTH.get(strip(n['ft']), 0) and is_poly(r) and const(r) is None:
                return self.rounded(r, n['t']) if single(r) is None or single(r)[0] == 'fn' else fn({'float': 'fl32', 'double': 'fl64'}[strip(n['t'])], r)
            if ck == 'IntegralCast' and is_poly(r) and self.kind(n['ft']) == 'int' and strip(n['ft']).startswith('unsigned'):
                s = single(r)
                if s is not None:
                    self.nonneg.add(s)
            return r
        if ck == 'FloatingToIntegral':
            r = self.rv(v)
            c = const(r) if is_poly(r) else None
            if c is not None:
                return num(int(c))
            return fn('trunc', r) if is_poly(r) else self.unk('cast', n.get('l', 0))
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic'):
            if isinstance(v, LV) and (self.kind(v.t) == 'ptr'):
                return v
            return v
        if ck in ('NullToMemberPointer',):
            return ('null',)
        if ck == 'ToVoid':
            return None
        if ck in ('BitCast', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'LValueBitCast'):
            self.unk('cast ' + ck, n.get('l', 0))
            return v
        self.unk('cast ' + ck, n.get('l', 0))
        return v

    def e_un(self, n):
        op = n['op']
        if op in ('++', '--'):
            lv = self.ev(n['e'])
            old = self.rv(lv)
            d = ONE if op == '++' else num(-1)
            if isinstance(old, tuple) and old[0] == 'it':
                new = self.it_add(old, d)
            elif is_poly(old):
                new = add(old, d)
            else:
                new = self.unk('increment', n.get('l', 0))
            self.assign(lv, new, n)
            return old if n.get('post') else lv
        if op == '*':
            return self.deref(self.val(n['e']), n['t'], n)
        if op == '&':
            lv = self.ev(n['e'])
            if isinstance(lv, LV):
                if lv.loc[0] == 'slot':
                    return self.unk('address of scalar local', n.get('l', 0), 'int *')
                return ('ptr', self.resolve(lv.loc))
            return self.unk('address of', n.get('l', 0), 'int *')
        v = self.val(n['e'])
        if op == '-':
            return neg(self.tonum(v, n))
        if op == '+':
            return self.tonum(v, n)
        if op == '!':
            return b_not(self.tobool(v, n))
        return self.unk('operator ' + op, n.get('l', 0))

    def isint(self, t):
        return self.kind(t) in ('int', 'bool')

    def arith(self, op, a, b, isint, n):
        if isinstance(a, tuple) and a and a[0] in ('it', 'rit'):
            if isinstance(b, tuple) and b and b[0] == a[0] and op == '-':
                return sub(a[2], b[2])
            if is_poly(b):
                return self.it_add(a, b if op == '+' else neg(b))
        if isinstance(b, tuple) and b and b[0] in ('it', 'rit') and op == '+':
            return self.it_add(b, self.tonum(a))
        a, b = self.tonum(a, n), self.tonum(b, n)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return idiv(a, b) if isint else div(a, b)
        if op == '%':
            return mod(a, b)
        if op == '>>' and const(b) is not None:
            return idiv(a, num(2 ** int(const(b))))
        if op == '<<' and const(b) is not None:
            return mul(a, num(2 ** int(const(b))))
        return self.unk('operator ' + op, n.get('l', 0))

    def e_bin(self, n):
        op = n['op']
        if op == ',':
            self.ev(n['a'])
            return self.ev(n['b'])
        if op in ('&&', '||'):
            a = self.boolv(n['a'])
            if (op == '&&' and a == F) or (op == '||' and a == T):
                return a
            g = a if op == '&&' else b_not(a)
            s0 = self.st
            w0 = len(self.wlog)
            env0 = dict(s0.env)
            s1 = s0.copy()
            s1.pc = b_and(s0.pc, g)
            self.st = s1
            b = self.boolv(n['b'])
            if len(self.wlog) > w0 or self.st.env != env0:
                s0.pc = b_and(s0.pc, b_not(g))
                self.st = self.merge(g, self.st, s0)
            else:
                self.st = s0
                for l, v in s1.mem.items():
                    s0.mem.setdefault(l, v)
            return b_and(a, b) if op == '&&' else b_or(a, b)
        a, b = self.val(n['a']), self.val(n['b'])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.compare(op, a, b, n)
        isint = self.isint(n.get('t', 'int'))
        if op in ('&', '|', '^') and is_bool(a) and is_bool(b):
            return b_and(a, b) if op == '&' else b_or(a, b) if op == '|' else b_or(b_and(a, b_not(b)), b_and(b_not(a), b))
        r = self.arith(op, a, b, isint, n)
        return self.rounded(r, n.get('t')) if self.rounding and not isint else r

    def rounded(self, r, t):
        """with rounding on: the result of a floating operation in type t is an uninterpreted rounding of the exact one"""
        w = {'float': 'fl32', 'double': 'fl64', 'long double': 'fl80'}.get(strip(t or ''))
        if w is None or not is_poly(r) or const(r) is not None:
            return r
        s = single(r)
        if s is not None and (s[0] != 'fn' or s[1] in ('fl32', w) or s[1] == 'fl64' and w == 'fl80'):
            if s[0] != 'fn' or s[1].startswith('fl'):
                return r
        return fn(w, r)

    def compare(self, op, a, b, n):
        P_ = ('ptr', 'ldp', 'null', 'pite')
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
            if a[0] in P_ or b[0] in P_:
                if b[0] in P_ and b[0] == 'null' or (is_poly(b) and b == ZERO):
                    r = self.isnull(a)
                elif a[0] == 'null':
                    r = self.isnull(b)
                elif a == b:
                    r = T
                elif a[0] == b[0] == 'ptr' and root(a[1])[0] in ('new', 'tmp', 'var') and root(b[1])[0] in ('new', 'tmp', 'var') and root(a[1]) != root(b[1]):
                    r = F
                else:
                    x, y = sorted([a, b], key=repr)
                    r = ('bat', ('peq', x, y))
                return r if op == '==' else b_not(r) if op == '!=' else self.unk('pointer order', n.get('l', 0), 'bool')
            if a[0] in ('it', 'rit') and b[0] == a[0]:
                x, y = (a[2], b[2]) if a[0] == 'it' else (neg(a[2]), neg(b[2]))
                return cmp_(op, x, y, True)
            if a[0] == 'mit' or b[0] == 'mit':
                return self.mit_compare(op, a, b, n)
        if is_bool(a) and is_bool(b):
            e = b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
            if op == '==':
                return e
            if op == '!=':
                return b_not(e)
        isint = self.isint(n.get('ct', 'int'))
        a, b = self.tonum(a, n), self.tonum(b, n)
        if op[0] in '<>' and strip(n.get('ct') or '').startswith('unsigned'):
            self.ucmps[(op, a, b, self.st.pc, n.get('l', 0))] = self.curfile
        return cmp_(op, a, b, isint)

    def mit_compare(self, op, a, b, n):
        # find(key) compared with end()
        if a[0] != 'mit':
            a, b = b, a
        if b[0] == 'it' and b[1] == a[1]:
            h = ('bat', ('has', a[1], a[2], self.ver(('idx', a[1], ZERO))))
            return b_not(h) if op == '==' else h
        if b[0] == 'mit' and b[1] == a[1]:
            e = cmp_('==', a[2], b[2], False)
            return e if op == '==' else b_not(e)
        return self.unk('iterator comparison', n.get('l', 0), 'bool')

    def it_add(self, it, d):
        if it[0] == 'rit':
            return ('rit', it[1], sub(it[2], d))
        return ('it', it[1], add(it[2], d))

    def e_asg(self, n):
        op = n['op']
        if op == '=':
            v = self.val(n['b'])
            lv = self.ev(n['a'])
            if self.isint(strip(n.get('t', ''))) is False and is_bool(v) and self.kind(n['t']) == 'real':
                v = ite(v, ONE, ZERO)
            self.assign(lv, v, n)
            return lv
        b = self.val(n['b'])
        lv = self.ev(n['a'])
        a = self.rv(lv)
        isint = self.isint(n.get('ct') or n.get('t'))
        r = self.binop(op[:-1], a, b, dict(n, t=n.get('ct') or n.get('t')))
        if is_poly(r) and self.isint(n.get('t', 'int')) and not isint:
            if const(r) is None:
                r = fn('trunc', r)
        elif self.rounding and is_poly(r) and not isint and WIDTH.get(strip(n.get('t') or ''), 9) < WIDTH.get(strip(n.get('ct') or ''), 0):
            r = self.rounded(r, n['t'])
        self.assign(lv, r, n)
        return lv

    def assign(self, lv, v, n):
        if not isinstance(lv, LV):
            self.unk('assignment to non-lvalue', (n or {}).get('l', 0))
            return
        if lv.loc[0] == 'slot':
            if isinstance(v, LV):
                v = self.unk('object in scalar', (n or {}).get('l', 0), lv.t)
            if self.kind(lv.t) == 'bool' and is_poly(v):
                v = self.tobool(v, n)
            elif self.kind(lv.t) in ('int', 'real') and is_bool(v):
                v = ite(v, ONE, ZERO)
            self.st.env[lv.loc[1]] = v
            return
        if isinstance(v, LV):
            if v.loc[0] == 'slot':
                v = self.rv(v)
            else:
                self.copy_obj(lv.loc, v.loc, lv.t, n, v.tmp)
                return
        if self.kind(lv.t) == 'bool' and is_poly(v):
            v = self.tobool(v, n)
        elif self.kind(lv.t) in ('int', 'real') and is_bool(v):
            v = ite(v, ONE, ZERO)
        self.store(lv.loc, v, n)

    def e_cond(self, n):
        c = self.boolv(n['c'])
        if c == T:
            return self.ev(n['a'])
        if c == F:
            return self.ev(n['b'])
        s0 = self.st
        s1, s2 = s0.copy(), s0.copy()
        s1.pc, s2.pc = b_and(s0.pc, c), b_and(s0.pc, b_not(c))
        self.st = s1
        a = self.ev(n['a'])
        if not (isinstance(a, LV) and self.kind(a.t) not in ('int', 'real', 'bool', 'ptr', 'iter', 'num')):
            a = self.rv(a)
        s1 = self.st
        self.st = s2
        b = self.ev(n['b'])
        if not (isinstance(b, LV) and self.kind(b.t) not in ('int', 'real', 'bool', 'ptr', 'iter', 'num')):
            b = self.rv(b)
        s2 = self.st
        pc = s0.pc
        self.st = self.merge(c, s1, s2)
        self.st.pc = pc
        if isinstance(a, LV) or isinstance(b, LV):
            if isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc:
                return a
            if isinstance(a, LV) and isinstance(b, LV):
                return LV(('deref', ('pite', c, ('ptr', a.loc), ('ptr', b.loc))), a.t)
            return self.unk('conditional object', n.get('l', 0), n.get('t', 'int'))
        if is_bool(a) != is_bool(b):
            a, b = (self.tonum(a), self.tonum(b))
        return self.mergev(c, a, b)

    def e_sub(self, n):
        a, b = self.val(n['a']), self.val(n['b'])
        if isinstance(a, LV):
            return LV(('idx', a.loc, self.tonum(b)), n['t'])
        if isinstance(a, tuple) and a and a[0] in ('ptr', 'ldp'):
            return LV(('idx', self.deref(a, 'other').loc, self.tonum(b)), n['t'])
        return self.unk('subscript', n.get('l', 0), n['t'])

    def e_new(self, n):
        t = n['t']
        site = '%s:%s' % ((self.curfile or '').split('/')[-1], n.get('l', 0))
        k = self.st.decl.get(('new', site), 0)
        self.st.decl[('new', site)] = k + 1
        loc = ('new', site, k, len(self.loops) and self.loops[-1]['id'] or 0)
        self.purge(loc)
        self.allocs[loc] = tuple(L['id'] for L in self.loops)
        self.ptypes[loc] = t
        self.emit('alloc', loc=loc, node=n, t=t, val=None)
        if n.get('array'):
            return self.unk('new[]', n.get('l', 0), 'int *')
        ini = n.get('init')
        if self.kind(t) in ('int', 'real', 'bool', 'ptr'):
            if ini is not None:
                v = self.val(ini)
                if isinstance(v, tuple) and v[0] == 'ini':
                    v = v[1][0] if v[1] else self.zero_of(t)
                self.store(loc, v, n)
            return ('ptr', loc)
        if ini is not None:
            self.construct(loc, t, ini)
        return ('ptr', loc)

    def e_delete(self, n):
        v = self.val(n['e'])
        self.emit('delete', val=v, node=n)
        return None

    def e_throw(self, n):
        self.emit('throw', node=n)
        self.st.pc = F
        return None

    def e_lambda(self, n):
        for c in n.get('caps', []):
            if c.get('init') is not None:
                self.declare(dict(id=c['id'], n=c.get('n', ''), t='int', init=c['init']))
        return ('lam', n['f'], ('ptr', self.thisloc) if self.thisloc else ('null',))

    def e_stdinit(self, n):
        return self.ev(n['e'])

    def e_ilist(self, n):
        vs = []
        for x in n['es']:
            v = self.ev(x)
            vs.append(v if isinstance(v, LV) and self.kind(v.t) not in ('int', 'real', 'bool', 'ptr', 'iter', 'num') else self.rv(v))
        if self.kind(n['t']) in ('int', 'real', 'bool', 'ptr') and len(vs) <= 1:
            return vs[0] if vs else self.zero_of(n['t'])
        if self.kind(n['t']) == 'rec':
            lv = self.tmp(n['t'])
            for f, v in zip(self.P.records[strip(n['t'])]['fields'], vs):
                self.put(('fld', lv.loc, strip(n['t']) + '::' + f['n']), f['t'], v, n)
            return lv
        return ('ini', tuple(vs), n['t'])

    def put(self, loc, t, v, n=None, quiet=False):
        """initialise loc of type t with evaluated v"""
        if isinstance(v, LV):
            if v.loc[0] == 'slot' or self.kind(v.t) in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
                v = self.rv(v)
            else:
                self.copy_obj(loc, v.loc, t, n, v.tmp)
                return
        if v is None:
            return
        if self.kind(t) == 'bool' and is_poly(v):
            v = self.tobool(v)
        elif self.kind(t) in ('int', 'real') and is_bool(v):
            v = ite(v, ONE, ZERO)
        self.store(loc, v, n)

    def e_icall(self, n):
        f = self.val(n['fn'])
        args = [self.ev(a) for a in n['args']]
        if isinstance(f, tuple) and f and f[0] == 'lam':
            return self.invoke(f[1], None, args, n, lam=f)
        if isinstance(f, tuple) and f and f[0] == 'fnref':
            return self.invoke(f[1], None, args, n)
        return self.unk('indirect call', n.get('l', 0), n.get('rt', 'int'))

    def e_unk(self, n):
        for c in n.get('ch', []):
            self.ev(c)
        return self.unk('expression ' + n.get('c', '?'), n.get('l', 0))

    # ------------------------------------------------------------ construction
    def e_ctor(self, n):
        t = n['t']
        k = self.kind(t)
        cls = strip(n['cls'])
        if k == 'ptr':
            return self.ptr_ctor(n)
        if k == 'iter':
            v = self.val(n['args'][0]) if n['args'] else self.unk('iterator', n.get('l', 0), t)
            return v
        if (n.get('copy') or n.get('move')) and len(n['args']) >= 1:
            src = self.ev(n['args'][0])
            if isinstance(src, LV) and src.tmp and k != 'num':
                return src
            if k == 'num':
                return self.rv(src)
            if isinstance(src, tuple) and src and src[0] in ('lam', 'ini', 'str', 'it'):
                return src
            lv = self.tmp(t)
            self.construct_from(lv.loc, t, n, [src])
            return lv
        if k == 'num':
            return self.prim_call(n, None, [self.ev(a) for a in n['args']], 'ctor')
        if k in ('int', 'real', 'bool'):
            return self.val(n['args'][0]) if n['args'] else self.zero_of(t)
        lv = self.tmp(t)
        self.construct(lv.loc, t, n)
        return lv

    def ptr_ctor(self, n):
        a = n['args']
        if not a:
            return ('null',)
        v = self.val(a[0])
        if isinstance(v, LV):
            v = self.rv(v)
        if is_poly(v) and v == ZERO:
            return ('null',)
        return v

    def construct(self, loc, t, n):
        """construct an object of type t at loc from initialiser expression n"""
        t = strip(t)
        while n['k'] in ('mat',):
            n = n['e']
        k = self.kind(t)
        if n['k'] == 'ctor' and strip(n['cls']) == t and k not in ('ptr', 'num', 'int', 'real', 'bool', 'iter'):
            args = None
            if (n.get('copy') or n.get('move')) and n['args']:
                src = self.ev(n['args'][0])
                return self.construct_from(loc, t, n, [src])
            args = [self.ev(a) for a in n['args']]
            return self.construct_from(loc, t, n, args)
        v = self.ev(n)
        if isinstance(v, tuple) and v and v[0] == 'ini':
            return self.construct_ini(loc, t, v, n)
        self.put(loc, t, v, n)

    def construct_ini(self, loc, t, v, n):
        k = self.kind(t)
        if k == 'cont' and not strip(t).startswith('std::map'):
            self.new_container(loc, ZERO, None, n, t)
            for x in v[1]:
                self.push(LV(loc, t), x, n)
            return
        if k == 'rec':
            for f, x in zip(self.P.records[strip(t)]['fields'], v[1]):
                self.put(('fld', loc, strip(t) + '::' + f['n']), f['t'], x, n)
            return
        self.unk('initialiser list for ' + t, n.get('l', 0))

    def construct_from(self, loc, t, n, args):
        t = strip(t)
        k = self.kind(t)
        if k == 'cont':
            if t.startswith('std::initializer_list'):
                return
            a = args
            pt = n.get('pt', [])
            while a and len(pt) >= len(a) and strip(pt[len(a) - 1]).startswith('std::allocator'):
                a = a[:-1]
            if not a:
                self.new_container(loc, ZERO, None, n, t)
                return
            a0 = a[0]
            if isinstance(a0, LV) and self.kind(a0.t) == 'cont':
                if self.kind(a0.t) == 'cont' and (n.get('copy') or n.get('move') or strip(a0.t) == t):
                    self.copy_obj(loc, a0.loc, t, n, a0.tmp)
                    return
            v0 = self.rv(a0)
            if isinstance(v0, tuple) and v0 and v0[0] == 'ini':
                return self.construct_ini(loc, t, v0, n)
            if is_poly(v0) and t.startswith(('std::vector<', 'std::list<', 'std::deque<')):
                et = self.elemtype(t)
                if len(a) >= 2:
                    x = a[1]
                    if isinstance(x, LV) and self.kind(x.t) in ('cont', 'rec', 'tuple', 'other') :
                        val = ('copy', self.canon(x.loc))
                    else:
                        val = self.rv(x)
                        if self.kind(et) == 'bool' and is_poly(val):
                            val = self.tobool(val)
                else:
                    val = self.zero_of(et)
                    if val is None and self.kind(et) == 'cont':
                        tv = self.tmp(et)
                        self.new_container(tv.loc, ZERO, None, n, et)
                        val = ('copy', tv.loc)
                    elif val is None:
                        val = ('obj', et)
                self.new_container(loc, v0, val, n, t)
                return
            if isinstance(v0, tuple) and v0 and v0[0] == 'it' and len(a) >= 2:
                v1 = self.rv(a[1])
                if isinstance(v1, tuple) and v1[0] == 'it' and v1[1] == v0[1]:
                    src = self.canon(v0[1])
                    if v0[2] == ZERO and v1[2] == self.size(src):
                        self.copy_obj(loc, src, t, n)
                        return
                    self.new_container(loc, sub(v1[2], v0[2]), None, n, t)
                    return
            self.unk('container constructor', n.get('l', 0))
            self.new_container(loc, A(('unk', 'size', self.fresh())), None, n, t)
            return
        if k == 'tuple':
            if (n.get('copy') or n.get('move')) and args and isinstance(args[0], LV):
                self.copy_obj(loc, args[0].loc, t, n, args[0].tmp)
                return
            pair = t.startswith('std::pair')
            ta = targs(t)
            if len(args) == len(ta):
                for i, (x, a) in enumerate(zip(args, ta)):
                    self.put(('fld', loc, 'first' if i == 0 else 'second') if pair else ('tup', loc, i), a, x, n)
                return
            if len(args) == 1 and isinstance(args[0], LV) and self.kind(args[0].t) == 'tuple':
                src = args[0]
                for i, a in enumerate(ta):
                    f = (lambda L: ('fld', L, 'first' if i == 0 else 'second')) if pair else (lambda L: ('tup', L, i))
                    self.copy_obj(f(loc), f(self.canon(src.loc)), a, n, False)
                return
            if not args:
                for i, a in enumerate(ta):
                    fl = ('fld', loc, 'first' if i == 0 else 'second') if pair else ('tup', loc, i)
                    ka = self.kind(a)
                    if ka in ('int', 'real', 'bool', 'ptr'):
                        self.store(fl, F if ka == 'bool' else ('null',) if ka == 'ptr' else ZERO, n)
                    else:
                        self.construct_from(fl, a, dict(n, copy=False, move=False), [])
                return
            self.unk('tuple constructor', n.get('l', 0))
            return
        if k == 'rec' or n.get('repo'):
            p = self.prim_call(n, LV(loc, t), args, 'ctorat')
            if p is not NotImplemented:
                return
            if (n.get('copy') or n.get('move')) and n.get('impl'):
                if isinstance(args[0], LV):
                    self.copy_obj(loc, args[0].loc, t, n, args[0].tmp)
                    return
            f = self.P.functions.get(n['f'])
            if f is None:
                if n.get('dflt') or not args:
                    return self.default_fields(loc, t, n)
                self.unk('constructor without body ' + n['f'], n.get('l', 0))
                return
            if f.get('implicit') or f.get('defaulted'):
                if f.get('copy') or f.get('move'):
                    if isinstance(args[0], LV):
                        self.copy_obj(loc, args[0].loc, t, n, args[0].tmp)
                        return
            self.invoke(n['f'], LV(loc, t), args, n)
            return
        if k == 'other' and len(args) == 1 and (n.get('copy') or n.get('move')):
            v = self.rv(args[0])
            if not isinstance(v, LV):
                self.st.mem[loc] = v
            else:
                self.st.copies[loc] = v.loc
            return
        self.construct_other(loc, t, n, args)

    def construct_other(self, loc, t, n, args):
        if t.startswith(('std::allocator', 'std::less')):
            return
        self.emit('ctor', loc=loc, t=t, node=n, args=[self.argv(a) for a in args], val=None)
        self.unknown.append(('constructor of ' + t, '%s:%s' % (self.curfile, n.get('l', 0))))

    def argv(self, a):
        if isinstance(a, LV):
            v = self.rv(a)
            return ('ptr', self.canon(v.loc)) if isinstance(v, LV) else v
        return a

    def default_fields(self, loc, t, n):
        for f in self.P.records.get(strip(t), {}).get('fields', []):
            k = self.kind(f['t'])
            fl = ('fld', loc, strip(t) + '::' + f['n'])
            if k == 'cont':
                self.new_container(fl, ZERO, None, n, f['t'])

    # ------------------------------------------------------------ calls
    def e_call(self, n):
        q = n['q']
        obj = None
        if 'obj' in n:
            o = self.ev(n['obj'])
            if n.get('arrow'):
                o = self.rv(o)
                obj = o if isinstance(o, LV) else None
                if obj is None:
                    rt = n.get('cls', 'other')
                    obj = self.deref(o, rt, n)
            else:
                obj = o
        if obj is not None and n.get('repo') is False and n.get('cls'):
            r = self.std_method(n, obj)
            return r
        args = [self.ev(a) for a in n['args']]
        if not n.get('repo'):
            return self.std_free(n, args)
        # lambda call operator
        if isinstance(obj, tuple) and obj and obj[0] == 'lam':
            return self.invoke(n['f'], None, args, n, lam=obj)
        if isinstance(obj, LV):
            v = self.st.mem.get(self.resolve(obj.loc)) if obj.loc[0] != 'slot' else self.rv(obj)
            if isinstance(v, tuple) and v and v[0] == 'lam':
                return self.invoke(n['f'], None, args, n, lam=v)
        p = self.prim_call(n, obj, args, 'call')
        if p is not NotImplemented:
            return p
        if obj is not None and not isinstance(obj, LV):
            obj = self.rv(obj)
            if not isinstance(obj, LV):
                return self.unk('call on a non-object', n.get('l', 0), n['rt'])
        key = n['f']
        if n.get('virt') and not n.get('qualified'):
            key2 = self.devirt(key, n, obj)
            if key2 is None:
                return self.vcall(n, obj, args)
            key = key2
        return self.invoke(key, obj, args, n)

    def devirt(self, key, n, obj):
        cls = n.get('cls')
        c = self.dyn.get(obj.loc) if obj is not None else None
        if c is None and obj is not None and self.thiscls and obj.loc == self.thisloc:
            c = self.thiscls
        if c is not None:
            for x in [c] + self.P.bases(c):
                for m in self.P.records.get(x, {}).get('methods', []):
                    if m['f'] == key or key in self.allover(m['f']):
                        if not m['pure']:
                            return m['f']
            return None
        f = self.P.functions.get(key)
        ov = [m['f'] for r in self.P.derived(cls) for m in self.P.records[r]['methods'] if key in m['over']]
        if not ov and f is not None:
            return key
        return None

    def allover(self, key):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            for r in self.P.records.values():
                for m in r['methods']:
                    if m['f'] == k:
                        for o in m['over']:
                            if o not in out:
                                out.add(o)
                                todo.append(o)
        return out

    def vcall(self, n, obj, args):
        vs = tuple(self.argv(a) for a in args)
        o = ('ptr', self.canon(obj.loc)) if obj is not None else ('null',)
        return self.symbol(n['rt'], ('vcall', n['n'], o) + vs)

    def prim_call(self, n, obj, args, how):
        f = self.prims.get('call')
        if f:
            return f(self, n, obj, args, how)
        return NotImplemented

    def invoke(self, key, obj, args, n, lam=None):
        f = self.P.functions.get(key)
        if f is None or f.get('b') is None or key in self.opaque or f['q'] in self.opaque:
            return self.opaque_call(key, f, obj, args, n)
        if key in self.stack:
            return self.opaque_call(key, f, obj, args, n, rec=True)
        if len(self.stack) > 40:
            return self.unk('call depth', n.get('l', 0), n.get('rt', 'int'))
        self.inlined.add(key)
        # bind parameters
        for p, a in zip(f['ps'], args):
            self.bind_param(p, a, n)
        for p in f['ps'][len(args):]:
            self.st.env[p['id']] = ('undef',)
        save = (self.thisloc, self.thiscls, self.curfile)
        if lam is not None:
            self.thisloc = lam[2][1] if lam[2][0] == 'ptr' else None
        elif obj is not None:
            self.thisloc = obj.loc
            if f.get('ctor') or self.thisloc != save[0]:
                self.thiscls = f.get('cls') if f.get('ctor') else None
            if f.get('ctor') and save[0] == self.thisloc and save[1] and f.get('cls') in self.P.bases(save[1]):
                self.thiscls = f.get('cls')
        elif f.get('cls') and f.get('static'):
            self.thisloc = None
        else:
            self.thisloc = None
        self.curfile = f.get('file')
        r = self.run_body(f)
        self.thisloc, self.thiscls, self.curfile = save
        return r

    def opaque_call(self, key, f, obj, args, n, rec=False):
        vs = tuple(self.argv(a) for a in args)
        o = ('ptr', self.canon(obj.loc)) if isinstance(obj, LV) else ('null',)
        q = f['q'] if f else n.get('q', key)
        # effects on memory: families written by the callee (recursive: those of the functions on the cycle)
        for fm in self.recw.get(key, ()):
            self.havoc_fam(fm)
        self.callee_effects(key, obj)
        e = self.emit('call', q=q, key=key, obj=o, args=vs, node=n, rec=rec)
        e.acomps = {i: self.components(a.loc, a.t) for i, a in enumerate(args) if isinstance(a, LV) and self.kind(a.t) == 'rec'}
        rt = n.get('rt') or (f['rt'] if f else 'int')
        at = ('call', q, o) + vs
        if self.impure(key):
            at = at + (('nth', self.st.vers.get(('callv', key), 0)),)
        e.val = self.symbol(rt, at)
        for i, (a, pr) in enumerate(zip(args, n.get('pr', []))):
            if pr == 1 and isinstance(a, LV) and not rec and key not in self.opaque and (f is None or f['q'] not in self.opaque):
                if a.loc[0] == 'slot':
                    self.st.env[a.loc[1]] = self.symbol(a.t, ('unk', 'out', self.fresh()))
                else:
                    self.clobber(a.loc)
        return e.val

    def impure(self, key):
        return False

    def callee_effects(self, key, obj):
        """members a function left opaque may assign (self.callw: key -> members), in whatever object"""
        ms = self.callw.get(key)
        if not ms:
            return
        fs = set()

        def look(l):
            if isinstance(l, tuple):
                if len(l) == 3 and l[0] == 'fld' and l[2] in ms:
                    fs.add(fam(l))
                for x in l:
                    look(x)
        for l in list(self.st.mem) + list(self.st.cinit) + list(self.st.vers):
            look(l)
        base = self.canon(obj.loc) if isinstance(obj, LV) else self.thisloc
        if base is not None:
            fs |= {fam(('fld', base, m)) for m in ms}
        for g in sorted(fs, key=repr):
            for fm in (g, ('size', g), ('idx', g, '*'), ('cell', g, '*'), ('dim', g)):
                self.havoc_fam(fm)

    def havoc_fam(self, fm):
        for l in list(self.st.mem):
            if fam(l) == fm:
                del self.st.mem[l]
        for c in list(self.st.cinit):
            if fm[0] in ('idx', 'cell') and any(fam(c) == q for q in prefixes(fm)[1:]):
                self.st.cinit[c] = (self.st.cinit[c][0], self.st.cinit[c][1], None)
            if fm == ('size', fam(c)):
                self.st.cinit[c] = (self.st.cinit[c][0], None, self.st.cinit[c][2])
        self.st.vers[fm] = self.fresh()
        self.wlog.append(('fam', fm))

    def bind_param(self, p, a, n):
        t = p['t']
        k = self.kind(t)
        if p.get('ref'):
            if isinstance(a, LV):
                if a.loc[0] == 'slot':
                    self.st.env[p['id']] = ('sref', a.loc[1], a.loc[2], a.t)
                    return
                if p.get('cref') and self.kind(a.t) in ('int', 'real', 'bool', 'ptr', 'num') and False:
                    self.st.env[p['id']] = self.rv(a)
                    return
                self.st.env[p['id']] = ('ref', a.loc, None)
                return
            if a is None:
                a = self.unk('void argument', n.get('l', 0))
            if isinstance(a, tuple) and a and a[0] in ('ini',):
                lv = self.tmp(t)
                self.construct_ini(lv.loc, t, a, n)
                self.st.env[p['id']] = ('ref', lv.loc, None)
                return
            self.st.env[p['id']] = a
            return
        self.declare_value(p, a, n)

    def declare_value(self, p, a, n=None):
        """introduce variable p initialised with evaluated a"""
        t = p['t']
        k = self.kind(t)
        if k in ('int', 'real', 'bool', 'ptr', 'iter', 'num', 'lambda') or (k == 'other' and not isinstance(a, LV)):
            v = self.rv(a) if isinstance(a, LV) else a
            if isinstance(v, LV):
                v = self.unk('object bound to scalar', (n or {}).get('l', 0), t)
            if k == 'bool' and is_poly(v):
                v = self.tobool(v)
            elif k in ('int', 'real') and is_bool(v):
                v = ite(v, ONE, ZERO)
            elif k == 'ptr' and v == ZERO:
                v = ('null',)
            elif k in ('int', 'real') and isinstance(v, tuple) and v and v[0] == 'ini':
                v = v[1][0] if v[1] else ZERO
            self.st.env[p['id']] = v
            return
        c = self.st.decl.get(p['id'], 0)
        self.st.decl[p['id']] = c + 1
        loc = ('var', p['id'], p['n'], c)
        self.purge(loc)
        self.st.env[p['id']] = ('obj', loc)
        if isinstance(a, LV):
            self.copy_obj(loc, a.loc, t, n, a.tmp)
        elif isinstance(a, tuple) and a and a[0] == 'ini':
            self.construct_ini(loc, t, a, n or {})
        elif a is not None:
            self.put(loc, t, a, n)

    def run_body(self, f):
        key = f['key']
        if key in self.stack or not self.P.recursive(key) or any(k in self.stack for k in self.P.scc(key)):
            return self._run_body(f)
        # recursive: first find the families a complete activation may write, then analyse one activation with
        # every inner recursive call havocking exactly those
        entry = self.st
        scc = self.P.scc(key)
        for k in scc:
            self.recw.pop(k, None)
        fams = set()
        for _ in range(4):
            self.st = entry.copy()
            ne, nu, nw, ll, uu = len(self.events), len(self.unknown), len(self.wlog), self.loopid, self.uid
            evs = self.events
            self.events = []
            ex = [list(x) for x in self.exstack]
            self._run_body(f)
            self.events = evs
            for x, y in zip(self.exstack, ex):
                x[:] = y
            floor, self.tmp_floor = self.tmp_floor, uu
            new = set()
            for w in self.wlog[nw:]:
                l = w[1] if w[0] in ('fam', 'all', 'allf') else w
                if w[0] == 'fam':
                    new.add(w[1])
                elif w[0] == 'allf':
                    new.add(('idx', w[1], '*'))
                    new.add(('size', w[1]))
                elif not self.bodylocal(l, entry):
                    if w[0] == 'all':
                        new.add(('idx', fam(l), '*'))
                        new.add(('size', fam(l)))
                    else:
                        new.add(fam(l))
            self.tmp_floor = floor
            del self.unknown[nu:], self.wlog[nw:]
            self.loopid, self.uid = ll, uu
            if new <= fams:
                break
            fams |= new
            for k in scc:
                self.recw[k] = sorted(fams, key=repr)
        self.st = entry
        return self._run_body(f)

    def _run_body(self, f):
        key = f['key']
        self.stack.append(key)
        pc0 = self.st.pc
        self.retstack.append({'rets': [], 'depth': len(self.loops), 'rt': f['rt'], 'rref': f['rt'].strip().endswith('&'), 'exd': len(self.exstack)})
        if f.get('ctor'):
            self.run_inits(f)
        self.exec(f['b'])
        fr = self.retstack.pop()
        self.stack.pop()
        # fallthrough + returns
        res = None
        st = self.st
        rets = fr['rets']
        if not rets:
            return None
        acc_st = st if st.pc != F else None
        acc_v = None
        # process returns from last to first: condition of each is its pc
        for pc, v, s in reversed(rets):
            if acc_st is None:
                acc_st, acc_v = s, v
            else:
                g = self.rel(pc, pc0)
                keep = acc_st
                m = self.merge(g, s, keep)
                if v is not None or acc_v is not None:
                    if isinstance(v, LV) or isinstance(acc_v, LV):
                        if isinstance(v, LV) and isinstance(acc_v, LV) and v.loc == acc_v.loc:
                            pass
                        elif acc_v is None:
                            acc_v = v
                        elif v is None:
                            pass
                        else:
                            a = ('ptr', v.loc) if isinstance(v, LV) else None
                            b = ('ptr', acc_v.loc) if isinstance(acc_v, LV) else None
                            if a and b:
                                acc_v = LV(('deref', ('pite', g, a, b)), v.t)
                            else:
                                acc_v = self.unk('object/scalar return merge')
                    elif acc_v is None:
                        acc_v = v
                    elif v is not None:
                        acc_v = self.mergev(g, v, acc_v)
                acc_st = m
        self.st = acc_st
        if self.st.pc != F and self.complementary([pc for pc, v, s in rets] + ([st.pc] if st.pc != F else []), pc0):
            self.st.pc = pc0
        return acc_v

    def rel(self, pc, pc0):
        """pc relative to pc0 (conjuncts of pc0 removed)"""
        base = set(conj(pc0))
        return b_and(*[x for x in conj(pc) if x not in base]) if pc != pc0 else T

    def complementary(self, pcs, pc0):
        return b_or(*[self.rel(p, pc0) for p in pcs]) == T or b_or(*pcs) == pc0

    def run_inits(self, f):
        cls = f['cls']
        loc = self.thisloc
        done = set()
        for i in f.get('inits', []):
            e = i['e']
            if e is None:
                continue
            if i.get('l'):
                self.curline = i['l']
            if 'base' in i:
                save = self.thiscls
                if e['k'] == 'ctor':
                    args = [self.ev(a) for a in e['args']]
                    self.construct_from(loc, i['base'], e, args)
                self.thiscls = save
            elif 'field' in i:
                fl = ('fld', loc, cls + '::' + i['field'])
                done.add(i['field'])
                self.init_at(fl, i['ft'], e)
            elif i.get('deleg') and e['k'] == 'ctor':
                args = [self.ev(a) for a in e['args']]
                self.construct_from(loc, cls, e, args)
        self.thiscls = cls if self.thiscls is None or self.thiscls == cls else self.thiscls

    def init_at(self, fl, t, e):
        k = self.kind(t)
        if k in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
            v = self.val(e)
            if isinstance(v, tuple) and v and v[0] == 'ini':
                v = v[1][0] if v[1] else self.zero_of(t)
            if k == 'ptr' and v == ZERO:
                v = ('null',)
            self.put(fl, t, v, e)
        else:
            self.construct(fl, t, e)

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.st.pc == F:
            return
        if s.get('l'):
            self.curline = s['l']
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time limit of the analysis reached')
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.unk('statement %s' % s.get('c', s['k']), s.get('l', 0))
            return
        m(s)

    def s_block(self, s):
        for x in s['b']:
            if self.st.pc == F:
                return
            self.exec(x)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        self.ev(s['e'])

    def s_try(self, s):
        self.unk('try', s.get('l', 0))
        self.exec(s['b'])

    def s_decl(self, s):
        for v in s['vs']:
            self.declare(v)

    def declare(self, v):
        if v.get('l'):
            self.curline = v['l']
        if v.get('static') and not (v['t'].startswith('const ') and v.get('init') is not None and closed(v['init'])):
            self.unk('static local ' + v['n'], v.get('l', 0))
            self.st.env[v['id']] = ('obj', ('glob', v['n']))
            return
        t, ini = v['t'], v.get('init')
        k = self.kind(t)
        if v.get('ref'):
            if ini is None:
                self.unk('reference', v.get('l', 0))
                return
            x = self.ev(ini)
            if isinstance(x, LV):
                if x.loc[0] == 'slot':
                    self.st.env[v['id']] = ('sref', x.loc[1], x.loc[2], x.t)
                else:
                    self.st.env[v['id']] = ('ref', x.loc, None)
            elif isinstance(x, tuple) and x and x[0] == 'ini':
                lv = self.tmp(t)
                self.construct_ini(lv.loc, t, x, ini)
                self.st.env[v['id']] = ('ref', lv.loc, None)
            else:
                self.st.env[v['id']] = x
            return
        if k in ('int', 'real', 'bool', 'ptr', 'iter', 'num', 'lambda'):
            if ini is None:
                self.st.env[v['id']] = ('undef',)
                return
            self.declare_value(v, self.ev(ini), ini)
            return
        c = self.st.decl.get(v['id'], 0)
        self.st.decl[v['id']] = c + 1
        loc = ('var', v['id'], v['n'], c)
        self.purge(loc)
        self.st.env[v['id']] = ('obj', loc)
        if ini is None:
            if k == 'cont':
                self.new_container(loc, ZERO, None, v, t)
            return
        self.construct(loc, t, ini)

    def s_if(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('cv'):
            self.declare(s['cv'])
        c = self.boolv(s['c'])
        if c == T:
            return self.exec(s['t'])
        if c == F:
            return self.exec(s.get('e'))
        pcs = conj(self.st.pc)
        if c in pcs:
            return self.exec(s['t'])
        if b_not(c) in pcs:
            return self.exec(s.get('e'))
        if self.implied(c):
            return self.exec(s['t'])
        if self.implied(b_not(c)):
            return self.exec(s.get('e'))
        s0 = self.st
        s1, s2 = s0.copy(), s0.copy()
        pc = s0.pc
        s1.pc, s2.pc = b_and(pc, c), b_and(pc, b_not(c))
        p1, p2 = s1.pc, s2.pc
        self.st = s1
        self.exec(s['t'])
        s1 = self.st
        self.st = s2
        if s.get('e'):
            self.exec(s['e'])
        s2 = self.st
        r = self.merge(c, s1, s2)
        if s1.pc == p1 and s2.pc == p2:
            r.pc = pc
        self.st = r

    def s_ret(self, s):
        fr = self.retstack[-1]
        v = None
        if s.get('e'):
            x = self.ev(s['e'])
            rt = fr['rt']
            if isinstance(x, LV):
                if self.kind(x.t) in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
                    v = x if fr['rref'] and x.loc[0] != 'slot' else self.rv(x)
                elif fr['rref'] or x.tmp:
                    v = x
                elif root(x.loc)[0] == 'var' and x.loc[0] == 'var':
                    v = LV(x.loc, x.t, True)        # local object returned by value
                else:
                    y = self.tmp(x.t)
                    self.copy_obj(y.loc, x.loc, x.t, s, ev=False)
                    v = y
            else:
                v = x
                if isinstance(v, tuple) and v and v[0] == 'ini':
                    y = self.tmp(rt)
                    self.construct_ini(y.loc, rt, v, s)
                    v = y
            if self.kind(rt) == 'bool' and is_poly(v):
                v = self.tobool(v)
            elif self.kind(rt) in ('int', 'real') and is_bool(v):
                v = ite(v, ONE, ZERO)
            elif self.kind(rt) == 'int' and s['e'].get('k') != 'cast' and False:
                pass
        if len(self.loops) > fr['depth']:
            # return from inside loop(s)
            self.exstack[-1].append({'kind': 'ret', 'pc': self.st.pc, 'st': self.st.copy(), 'val': v, 'line': s.get('l'), 'pos': len(self.events), 'frame': len(self.retstack)})
        else:
            fr['rets'].append((self.st.pc, v, self.st.copy()))
        self.st = self.st.copy()
        self.st.pc = F

    def s_break(self, s):
        self.exstack[-1].append({'kind': 'break', 'pc': self.st.pc, 'st': self.st.copy(), 'line': s.get('l'), 'pos': len(self.events)})
        self.st = self.st.copy()
        self.st.pc = F

    def s_continue(self, s):
        self.exstack[-1].append({'kind': 'continue', 'pc': self.st.pc, 'st': self.st.copy(), 'line': s.get('l'), 'pos': len(self.events)})
        self.st = self.st.copy()
        self.st.pc = F

    def s_switch(self, s):
        v = self.numv(s['c'])
        body = s['b']
        stmts = body['b'] if body['k'] == 'block' else [body]
        # flatten case labels
        arms, cur = [], None
        def add_stmt(x):
            nonlocal cur
            labels = []
            while x['k'] in ('case', 'default'):
                labels.append(None if x['k'] == 'default' else x['v'])
                x = x['b']
            if labels:
                cur = [labels, [x]]
                arms.append(cur)
            elif cur is not None:
                cur[1].append(x)
        for x in stmts:
            add_stmt(x)
        ex = []
        self.exstack.append(ex)
        conds = []
        allc = []
        for labels, body_ in arms:
            cs = [cmp_('==', v, self.numv(l), True) for l in labels if l is not None]
            allc += cs
            conds.append((b_or(*cs) if cs else F, None in labels))
        dflt = b_and(*[b_not(c) for c in allc])
        s0 = self.st
        pc0 = s0.pc
        outs = []
        fall = None
        for (c, isd), (labels, body_) in zip(conds, arms):
            if isd:
                c = b_or(c, dflt)
            si = s0.copy()
            si.pc = b_and(pc0, c)
            if fall is not None and fall.pc != F:
                si = self.merge(self.rel(fall.pc, pc0), fall, si)
            self.st = si
            for x in body_:
                self.exec(x)
            fall = self.st
        hasd = any(d for c, d in conds)
        self.exstack.pop()
        ends = [(fall.pc, fall)] if fall is not None and fall.pc != F else []
        if not hasd:
            se = s0.copy()
            se.pc = b_and(pc0, dflt)
            ends.append((se.pc, se))
        for e in ex:
            if e['kind'] == 'break':
                ends.append((e['pc'], e['st']))
            else:
                self.exstack[-1].append(e)
        if not ends:
            self.st = s0.copy()
            self.st.pc = F
            return
        r = ends[0][1]
        for pc, st in ends[1:]:
            r = self.merge(self.rel(pc, pc0), st, r)
        self.st = r

    # ------------------------------------------------------------ loops
    def s_for(self, s):
        if s.get('init'):
            self.exec(s['init'])
        if s.get('inc') is None and s.get('c') is not None:
            return self.s_while(s)
        self.loop(s, s.get('c'), s.get('inc'), s['b'])

    def s_while(self, s):
        u = self.stepping(s['c'])
        if u is not None:
            # while (++i < n) b   is   for (++i; i < n; ++i) b;   while (i-- > 0) b   is   for (i--; i+1 > 0; i--) b
            key = ('_stepped', id(s))
            if key not in self.P.__dict__.setdefault('_desugared', {}):
                v = u['e']
                new = v if not u.get('post') else {'k': 'bin', 'op': '-' if u['op'] == '++' else '+', 't': u['t'], 'ct': u.get('ct', u['t']), 'a': v, 'b': {'k': 'int', 'v': 1, 't': u['t']}, 'l': u.get('l', 0)}
                self.P._desugared[key] = (self.swapnode(s['c'], u, new), s, dict(u))
            c, _, inc = self.P._desugared[key]
            self.ev(inc)
            return self.loop(s, c, inc, s['b'])
        self.loop(s, s['c'], None, s['b'])

    def stepping(self, c):
        """the one increment or decrement of an integer local a loop condition always performs"""
        found = []

        def go(n, always):
            if isinstance(n, list):
                for x in n:
                    go(x, always)
                return
            if not isinstance(n, dict):
                return
            if n.get('k') == 'un' and n['op'] in ('++', '--'):
                e = n['e']
                found.append(n if always and e.get('k') == 'var' and not e.get('g') and self.kind(e.get('t') or n['t']) == 'int' else None)
                return
            if n.get('k') in ('asg', 'lambda'):
                found.append(None)
                return
            if n.get('k') == 'bin' and n['op'] in ('&&', '||'):
                go(n['a'], always)
                go(n['b'], False)
                return
            if n.get('k') == 'cond':
                go(n['c'], always)
                go(n['a'], False)
                go(n['b'], False)
                return
            for x in n.values():
                go(x, always)
        go(c, True)
        if len(found) != 1 or found[0] is None:
            return None
        v = found[0]['e'].get('id')
        # the variable is not read elsewhere in the condition
        uses = []

        def count(n):
            if isinstance(n, list):
                for x in n:
                    count(x)
            elif isinstance(n, dict):
                if n.get('k') == 'var' and n.get('id') == v:
                    uses.append(n)
                for x in n.values():
                    count(x)
        count(c)
        return found[0] if len(uses) == 1 else None

    def swapnode(self, n, old, new):
        if n is old:
            return new
        if isinstance(n, list):
            return [self.swapnode(x, old, new) for x in n]
        if isinstance(n, dict):
            return {k: self.swapnode(x, old, new) for k, x in n.items()}
        return n

    def s_do(self, s):
        self.loop(s, s['c'], None, s['b'], post=True)

    def s_rfor(self, s):
        r = self.ev(s['r'])
        t = s['rt']
        if isinstance(r, LV) and self.kind(r.t) == 'cont':
            c = r
            if self.kind(s['v']['t']) and c.tmp and False:
                pass
        elif isinstance(r, tuple) and r and r[0] == 'ini':
            c = self.tmp(t)
            self.construct_ini(c.loc, t, r, s)
            c.t = 'std::vector<%s>' % targs(t)[0] if targs(t) else c.t
        elif isinstance(r, LV):
            c = r
        else:
            self.unk('range', s.get('l', 0))
            return
        self.loop(s, None, None, s['b'], rng=(c.loc, c.t, s['v']))

    def loop(self, s, cond, inc, body, post=False, rng=None):
        self.loopid += 1
        L = self.loopid
        entry = self.st
        entry_pc = entry.pc
        gkey = (id(s), tuple(self.stack), tuple(l['ast'] for l in self.loops))
        mods = set(self.guess.get(gkey, ()))
        forms = {}
        info = {'iv': None, 'lo': None, 'hi': None, 'dir': 1, 'facts': [], 'pc0': entry_pc}
        ivatom = ('iv', L, 'it')
        iv = A(ivatom)
        cont = None
        if rng:
            info.update(iv=iv, lo=ZERO, hi=sub(self.size(rng[0]), ONE), dir=1)
            info['facts'] = [cmp_('>=', iv, ZERO, True), cmp_('<=', iv, info['hi'], True)]
            cont = rng[0]
        ev_save = self.events
        wl0 = len(self.wlog)
        uid0 = self.uid
        extra = []         # head exit conditions (besides the bound)
        primary = None
        result = None
        stable = False
        rounds = 0
        while True:
            rounds += 1
            if rounds > 14:
                self.unk('loop summary did not converge', s.get('l', 0))
                break
            self.uncopy(entry, mods)
            st = entry.copy()
            st.pc = T
            self.havoc(st, mods, L, forms)
            st_in = st.copy()
            self.st = st
            self.events = []
            wl = len(self.wlog)
            un0 = len(self.unknown)
            self.loops.append({'id': L, 'facts': info['facts'], 'pc0': entry_pc, 'ast': id(s)})
            ex = []
            self.exstack.append(ex)
            c = T
            cpos = None
            if rng:
                self.bind_range_var(rng, iv)
            if not post and cond is not None:
                c = self.boolv(cond)
                self.st.pc = T
                if info['iv'] is not None and primary is not None:
                    c = self.split_bound(c, info, ivatom)[1]
                    self.st.pc = c
                else:
                    self.st.pc = T
            head = len(self.events)
            if self.st.pc != F:
                self.exec(body)
            # continue states join the fallthrough
            cs = [e for e in ex if e['kind'] == 'continue']
            for e in cs:
                self.st = self.merge(e['pc'], e['st'], self.st)
            if not any(e['kind'] in ('break', 'ret') for e in ex) and c == T:
                self.st.pc = T
            elif c != T and not any(e['kind'] in ('break', 'ret') for e in ex):
                self.st.pc = c
            if post and cond is not None:
                c = self.boolv(cond)
            if inc is not None and self.st.pc != F:
                self.ev(inc)
            self.exstack.pop()
            self.loops.pop()
            end = self.st
            writes = self.wlog[wl:]
            evs = self.events
            self.loop_floor, self.tmp_floor = L, uid0
            new = self.loop_mods(entry, st_in, end, writes, ex)
            if not new <= mods or any(m[0] == 'loc' and m not in new for m in mods):
                added = new - mods
                keepiv = info['iv'] is not None and primary is not None and all(m[0] == 'loc' for m in added) and all(m in new for m in mods if m[0] == 'loc') and not rng
                mods = {m for m in mods if m[0] != 'loc'} | new
                if keepiv:
                    forms = {m: t for m, t in forms.items() if m[0] == 'v'}
                    if primary[0] == 'v':
                        del self.unknown[un0:]
                        continue
                forms = {}
                if not rng:
                    info.update(iv=None, facts=[])
                    primary = None
                del self.unknown[un0:]
                continue
            self.guess[gkey] = frozenset(m for m in mods if not contains(m, lambda n: n[0] in ('in', 'iv', 'tmp', 'fin')))
            # solve for closed forms
            progress = False
            if info['iv'] is None:
                primary = self.find_iv(entry, end, mods, L, c, info, ivatom, forms, post)
                if primary is not None:
                    progress = True
            if not progress and info['iv'] is not None:
                progress = self.solve(entry, end, mods, L, info, ivatom, forms, evs, ex, st_in)
            if progress:
                del self.unknown[un0:]
                continue
            break
        # ---- final trace
        self.events = ev_save
        del self.wlog[wl0:]
        line = s.get('l', 0)
        lp = Loop(id=L, iv=info['iv'], ivatom=ivatom, lo=info['lo'], hi=info['hi'], dir=info['dir'], body=evs, guard=entry_pc, line=line, file=self.curfile, fn=self.stack[-1] if self.stack else None, cont=cont, ast=s)
        lp.loops = tuple(self.loops)
        lp.facts = info['facts']
        # exits
        hx = []
        if c != T:
            if info['iv'] is None:
                hx.append({'kind': 'head', 'cond': b_not(c), 'st': st_in, 'line': line, 'pos': -1})
                if not rng:
                    lp.problem = 'no induction variable'
            elif primary is not None and not post:
                rest = c
                if rest != T:
                    hx.append({'kind': 'head', 'cond': b_not(rest), 'st': st_in, 'line': line, 'pos': -1})
            elif post:
                bnd, rest = self.split_bound_post(c, info, ivatom)
                if rest != T:
                    hx.append({'kind': 'tail', 'cond': b_not(rest), 'st': end, 'line': line, 'pos': 10 ** 9})
        if info['iv'] is None and cond is None and not rng:
            lp.problem = 'unbounded loop'
        for e in ex:
            if e['kind'] in ('break', 'ret'):
                cnd = e['pc']
                if info['iv'] is not None and self.only_last(cnd, info, ivatom) and e['kind'] == 'break' and self.trailing(e, evs):
                    lp.last_exit = True
                    continue
                e = dict(e, cond=cnd)
                hx.append(e)
        lp.exits = hx
        lp.mods = mods
        lp.carried = {}
        self.events.append(lp)
        self.finish(lp, entry, entry_pc, st_in, end, mods, L, info, ivatom, forms, hx, writes, post, rng)

    def trailing(self, e, evs):
        """no effects after the exit point in the same iteration"""
        return e['pos'] >= len(evs)

    def only_last(self, cnd, info, ivatom):
        """the exit condition can hold only in the last iteration"""
        if info.get('hi') is None:
            return False
        last = info['hi'] if info['dir'] > 0 else info['lo']
        if last is None:
            return False
        fs = info['facts'] + list(conj(info['pc0']))
        for L in self.loops:
            fs += L['facts'] + list(conj(L['pc0']))
        return self.entails(fs + conj(cnd), cmp_('==', info['iv'], last, True)) if cnd != T else False

    def bind_range_var(self, rng, iv):
        c, ct, v = rng
        et = self.elemtype(ct)
        self.set_range_var(v, LV(('idx', c, iv), et))

    def set_range_var(self, v, lv):
        k = self.kind(v['t'])
        if v.get('ref'):
            self.st.env[v['id']] = ('ref', lv.loc, None)
        else:
            self.declare_value(v, lv, v)

    def uncopy(self, entry, mods):
        """a copy stays equal to its source only while the loop modifies neither"""
        fs = [m[1] for m in mods if m[0] in ('fam', 'allf')] + [fam(m[1]) for m in mods if m[0] == 'all']
        if not fs or not entry.copies and not any(isinstance(c[2], tuple) and c[2] and c[2][0] == 'copy' for c in entry.cinit.values()):
            return
        fs = [f[1] if f[0] in ('size', 'dim') and isinstance(f[1], tuple) else f for f in fs]

        def touched(l):
            l = fam(l)
            return any(l in prefixes(f) or f in prefixes(l) for f in fs)
        save, self.st = self.st, entry
        for d, s in list(entry.copies.items()):
            if d in entry.copies and (touched(d) or touched(s)):
                self.detach(d)
        for c, ci in list(entry.cinit.items()):
            if isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'copy' and touched(ci[2][1]) and root(ci[2][1])[0] != 'tmp':
                entry.cinit[c] = (ci[0], ci[1], None)
        self.st = save

    def havoc(self, st, mods, L, forms):
        for m in mods:
            if m[0] == 'v':
                old = st.env.get(m[1])
                if m in forms:
                    st.env[m[1]] = forms[m]
                else:
                    st.env[m[1]] = self.insym(L, m, old)
            elif m[0] == 'loc':
                pass
            elif m[0] == 'cont':
                pass
        fams = [m[1] for m in mods if m[0] == 'fam']
        alls = [m[1] for m in mods if m[0] == 'all']
        for f in fams:
            for l in list(st.mem):
                if fam(l) == f:
                    del st.mem[l]
            for c in list(st.cinit):
                if any(fam(c) == q for q in prefixes(f)[1:]):
                    a = st.cinit[c]
                    if f[0] == 'size':
                        st.cinit[c] = (a[0], None, a[2])
                    else:
                        st.cinit[c] = (a[0], a[1], a[2] if isinstance(a[2], tuple) and a[2] and a[2][0] == 'fresh' else None)
            st.vers[f] = ('L', L)
        for m in mods:
            if m[0] == 'allf':
                self.allf(st, m[1], ('L', L))
        for lo in alls:
            for d in (st.mem, st.cinit, st.copies):
                for l in list(d):
                    if lo in prefixes(l):
                        del d[l]
            st.vers[fam(lo)] = ('L', L)
            st.vers[('idx', fam(lo), '*')] = ('L', L)
        for m in mods:
            if m[0] == 'loc':
                l = m[1]
                st.mem[l] = forms[m] if m in forms else self.insym(L, m, m[2])
        for m in mods:
            if m[0] == 'copy':
                if m[1] in st.copies:
                    del st.copies[m[1]]

    def insym(self, L, m, old):
        at = ('in', L, m[:2])
        if isinstance(old, str):
            return ('bat', at) if old == 'b' else ('ldp', at, 0) if old == 'p' else A(at)
        if isinstance(old, tuple) and old:
            if is_bool(old):
                return ('bat', at)
            if old[0] in ('ptr', 'ldp', 'null', 'pite'):
                return ('ldp', at, 0)
            if old[0] in ('it', 'rit'):
                return (old[0], old[1], A(at))
            if old[0] == 'undef':
                return ('undef',)
            if old[0] in ('lam',):
                return old
        return A(at)

    def loop_mods(self, entry, st_in, end, writes, ex):
        new = set()
        sts = [end] if end.pc != F else []
        sts += [e['st'] for e in ex if e['kind'] in ('break',)]
        for s in sts:
            for k, v in entry.env.items():
                if k in s.env and s.env[k] != st_in.env.get(k):
                    new.add(('v', k))
        known = set()
        locs = {}
        for w in writes:
            if w[0] == 'fam':
                if root(w[1])[0] in ('new', 'var', 'tmp') and self.bodylocal(w[1], entry):
                    continue
                new.add(('fam', w[1]))
                locs.setdefault(w[1], []).append(None)
                continue
            if w[0] == 'all':
                r = w[1]
                if self.bodylocal(r, entry):
                    continue
                new.add(('allf', fam(r)) if self.mentions_inner(r, entry) else ('all', r))
                continue
            if w[0] == 'allf':
                new.add(w)
                continue
            if self.bodylocal(w, entry):
                continue
            locs.setdefault(fam(w), []).append(w)
        for f, ws in locs.items():
            new.add(('fam', f))
            us = set(x for x in ws if x is not None)
            for l in us:
                if None in ws:
                    continue
                if self.mentions_inner(l, entry):
                    continue
                if all(o == l or self.distinct(o, l) for o in us):
                    v = end.mem.get(l) if end.pc != F else None
                    if v is None:
                        for s in sts:
                            v = v if v is not None else s.mem.get(l)
                    if v is None:
                        continue
                    ty = 'b' if is_bool(v) else 'p' if isinstance(v, tuple) and v and v[0] in ('ptr', 'ldp', 'null', 'pite') else 'n'
                    new.add(('loc', l, ty))
        return new

    def allf(self, st, f, v):
        """everything below any member of a family changes"""
        for d in (st.mem, st.cinit, st.copies):
            for l in list(d):
                if any(fam(q) == f for q in prefixes(l)):
                    del d[l]
        st.vers[f] = v
        st.vers[('idx', f, '*')] = v

    def mentions_inner(self, l, entry):
        """location depends on something defined inside the loop (its iv, inner symbols, fresh objects)"""
        def bad(n):
            if n[0] in ('in', 'iv'):
                return n[1] >= self.loop_floor
            if n[0] in ('new', 'tmp', 'var') and self.bodylocal(n, entry):
                return True
            if n[0] in ('ld', 'ldp') and len(n) > 2 and isinstance(n[2], tuple) and n[2] and n[2][0] == 'L' and n[2][1] >= self.loop_floor:
                # value reloaded in this loop: invariant only if the family is not really changing; be conservative
                return True
            return False
        return contains(l, bad)

    def bodylocal(self, loc, entry):
        r = root(loc)
        if r[0] == 'var':
            return not (entry.decl.get(r[1], 0) > r[3])
        if r[0] == 'tmp':
            return r[1] > self.tmp_floor
        if r[0] == 'new':
            return not (entry.decl.get(('new', r[1]), 0) > r[2])
        if r[0] == 'deref':
            p = r[1]
            if p[0] == 'ldp' and isinstance(p[1], tuple) and p[1] and p[1][0] in LOCK:
                return self.bodylocal(p[1], entry)
        return False

    # -- induction variable and bound
    def find_iv(self, entry, end, mods, L, c, info, ivatom, forms, post):
        if end.pc == F:
            return None
        cands = []
        for m in mods:
            v0, ve = self.mval(entry, m), self.mval(end, m)
            if v0 is None or ve is None:
                continue
            x0, xe, wrap = v0, ve, None
            if isinstance(v0, tuple) and v0 and v0[0] in ('it', 'rit') and isinstance(ve, tuple) and ve and ve[0] == v0[0] and ve[1] == v0[1]:
                x0, xe, wrap = v0[2], ve[2], (v0[0], v0[1])
            if not (is_poly(x0) and is_poly(xe)):
                continue
            d = sub(xe, A(('in', L, m[:2])))
            k = const(d)
            if k is not None and k != 0 and k.denominator == 1:
                cands.append((m, x0, int(k), wrap))
        if not cands:
            return None
        inc = c if c is not None else T
        def inbound(m):
            at = ('in', L, m[:2])
            return contains(inc, lambda n: n == at)
        order = sorted(cands, key=lambda x: (not inbound(x[0]), abs(x[2]) != 1, x[0][0] != 'v', repr(x[0])))
        m, x0, k, wrap = order[0]
        if abs(k) != 1:
            # counter in units of |k|
            base = ZERO
            step = 1
        iv = A(ivatom)
        def setform(mm, xx0, kk, ww):
            if abs(k) == 1:
                t = add(xx0, scale(sub(iv, x0), Fraction(kk, k))) if mm != m else iv
            else:
                t = add(xx0, scale(iv, kk))
            forms[mm] = (ww[0], ww[1], t) if ww else t
        for mm, xx0, kk, ww in cands:
            setform(mm, xx0, kk, ww)
        info['iv'] = iv
        info['dir'] = (1 if k > 0 else -1) if abs(k) == 1 else 1
        start = x0 if abs(k) == 1 else ZERO
        info['lo' if info['dir'] > 0 else 'hi'] = start
        info['hi' if info['dir'] > 0 else 'lo'] = None
        # the bound from the condition
        sub_ = {('in', L, mm[:2]): (forms[mm][2] if ww else forms[mm]) for mm, xx0, kk, ww in cands}
        c2 = substitute(c, sub_) if c is not None else T
        if post:
            bnd = None
            # do-while: body runs first; continue while c2 (evaluated on the updated variables) holds
            prev = c2
            b = self.bound_of(c2, ivatom, info['dir'], shift=0, start=start)
            if b is not None:
                # c2 is in terms of iv at loop head, updated value already substituted by the caller's env
                info['hi' if info['dir'] > 0 else 'lo'] = add(b, num(info['dir']))
        else:
            b = None
            for x in conj(c2):
                b = self.bound_of(x, ivatom, info['dir'], start=start)
                if b is not None:
                    break
            if b is not None:
                info['hi' if info['dir'] > 0 else 'lo'] = b
        fs = []
        if info['lo'] is not None:
            fs.append(cmp_('>=', iv, info['lo'], True))
        if info['hi'] is not None:
            fs.append(cmp_('<=', iv, info['hi'], True))
        info['facts'] = fs
        return m

    def bound_of(self, x, ivatom, dr, shift=0, start=None):
        """inclusive bound on iv from conjunct x, or None"""
        if x[0] == 'not' and x[1][0] == 'cmp' and x[1][1][1:] == '==':
            p = x[1][2]
            a, b = self.lin_iv(p, ivatom)
            if a is None or abs(a) != 1:
                return None
            lim = scale(b, Fraction(-1) / a)      # iv != lim
            return add(lim, num(-dr))
        if x[0] == 'cmp' and x[1] in ('i>=', 'r>', 'r>='):
            a, b = self.lin_iv(x[2], ivatom)
            if a is None or a == 0:
                return None
            # a*iv + b >= 0
            if a > 0 and dr < 0:
                if a == 1:
                    return neg(b)
                return None if x[1] != 'i>=' else self.ceildiv(neg(b), a)
            if a < 0 and dr > 0:
                if a == -1:
                    return b
                return idiv(b, num(-a)) if x[1] == 'i>=' else None
        return None

    def ceildiv(self, p, a):
        return idiv(add(p, num(a - 1)), num(a))

    def lin_iv(self, p, ivatom):
        """p = a*iv + b with b free of iv"""
        i = aid(ivatom)
        a = Fraction(0)
        rest = {}
        for mo, c in p[1]:
            if mo == ((i, 1),):
                a = c
            else:
                rest[mo] = c
        b = mk(rest)
        if contains(b, lambda n: n == ivatom or (n[0] == 'in' and n[1] == ivatom[1])):
            return None, None
        return a, b

    def split_bound(self, c, info, ivatom):
        """remove the conjunct(s) of the head condition implied by the iteration range"""
        rest = []
        for x in conj(c):
            if self.entails(self.facts() + info['facts'], x):
                continue
            b = self.bound_of(x, ivatom, info['dir'])
            if b is not None and b == (info['hi'] if info['dir'] > 0 else info['lo']):
                continue
            rest.append(x)
        return None, b_and(*rest) if rest else T

    def split_bound_post(self, c, info, ivatom):
        rest = []
        for x in conj(c):
            b = self.bound_of(x, ivatom, info['dir'])
            if b is not None and info['hi' if info['dir'] > 0 else 'lo'] == add(b, num(info['dir'])):
                continue
            rest.append(x)
        return None, b_and(*rest) if rest else T

    def mval(self, st, m):
        if m[0] == 'v':
            return st.env.get(m[1])
        if m[0] == 'loc':
            v = st.mem.get(m[1])
            if v is None:
                s0, self.st = self.st, st
                v = self.load(m[1], {'b': 'bool', 'p': 'int *'}.get(m[2], 'unsigned long' if m[1][0] in ('size', 'dim') else 'long double'))
                self.st = s0
            return v
        return None

    def hasin(self, t, L, m=None):
        if m is not None:
            at = ('in', L, m[:2])
            return contains(t, lambda n: n == at) if isinstance(t, tuple) else False
        return contains(t, lambda n: n[0] == 'in' and n[1] == L) if isinstance(t, tuple) else False

    def solve(self, entry, end, mods, L, info, ivatom, forms, evs, ex, st_in):
        """find closed forms (in terms of iv) of further loop-carried variables"""
        if end.pc == F and not ex:
            return False
        iv, dr = info['iv'], info['dir']
        first = info['lo'] if dr > 0 else info['hi']
        if first is None:
            return False
        prog = False
        for m in sorted((x for x in mods if x[0] in ('v', 'loc')), key=repr):
            if m in forms:
                continue
            v0, ve = self.mval(entry, m), self.mval(end, m)
            if v0 is None or ve is None or ve == ('undef',):
                continue
            w0 = we = None
            if isinstance(ve, tuple) and ve and ve[0] in ('it', 'rit') and isinstance(v0, tuple) and v0 and v0[0] == ve[0]:
                continue
            if is_poly(ve) and is_poly(v0):
                at = ('in', L, m[:2])
                d = sub(ve, A(at))
                if not self.hasin(d, L) and not contains(d, self._inner(L)):
                    # accumulation: v0 + sum of d over the iterations done so far
                    if dr > 0:
                        f = add(v0, mk_sum(ivatom, first, sub(iv, ONE), d))
                    else:
                        f = add(v0, mk_sum(ivatom, add(iv, ONE), first, d))
                    forms[m] = f
                    prog = True
                    continue
                if not self.hasin(ve, L):
                    # derived from the induction variable?
                    f = substitute(ve, {ivatom: sub(iv, num(dr))})
                    f0 = substitute(f, {ivatom: first})
                    if self.same(f0, v0):
                        forms[m] = f
                        prog = True
                        continue
                    # reloaded at the end of every iteration from a container the loop changes
                    f = self.reloaded(entry, st_in, end, ve, v0, iv, dr, first, ivatom)
                    if f is not None:
                        forms[m] = f
                        prog = True
                        continue
            elif is_bool(ve) and is_bool(v0):
                at = ('bat', ('in', L, m[:2]))
                eT = substitute(ve, {at: T})
                eF = substitute(ve, {at: F})
                if self.hasin(eT, L, m) or self.hasin(eF, L, m) or self.hasin(eT, L) or self.hasin(eF, L):
                    continue
                lo_, hi_ = (first, sub(iv, ONE)) if dr > 0 else (add(iv, ONE), first)
                if eT == T and not contains(eF, self._inner(L)):
                    forms[m] = b_or(v0, b_not(mk_forall(ivatom, lo_, hi_, b_not(eF))))
                    prog = True
                elif eF == F and not contains(eT, self._inner(L)):
                    forms[m] = b_and(v0, mk_forall(ivatom, lo_, hi_, eT))
                    prog = True
            elif isinstance(ve, tuple) and ve and ve[0] in ('ptr', 'ldp') and not self.hasin(ve, L):
                f = substitute(ve, {ivatom: sub(iv, num(dr))})
                f0 = substitute(f, {ivatom: first})
                if f0 == v0:
                    forms[m] = f
                    prog = True
        return prog

    def reloaded(self, entry, st_in, end, ve, v0, iv, dr, first, ivatom):
        def at(st, loc):
            s0, e0, u0 = self.st, self.events, len(self.unknown)
            self.st, self.events = st.copy(), []
            try:
                return self.load(loc, 'int')
            finally:
                self.st, self.events = s0, e0
                del self.unknown[u0:]
        for n in nodes(ve):
            if n[0] == 'ld' and n[1][0] in ('idx', 'at') and contains(n[1][2], lambda x: x == ivatom) and end.pc != F:
                loc = n[1]
                if at(end, loc) != ve:
                    continue
                back = substitute(loc, {ivatom: sub(iv, num(dr))})
                if self.same(at(entry, substitute(back, {ivatom: first})), v0):
                    return at(st_in, back)
        return None

    def _inner(self, L):
        return lambda n: (n[0] == 'tmp') or (n[0] == 'ld' and len(n) > 2 and isinstance(n[2], tuple) and n[2] and n[2][0] == 'Lx')

    def same(self, a, b):
        if a == b:
            return True
        s = self.prims.get('same')
        if s:
            return s(self, a, b)
        return False

    def finish(self, lp, entry, entry_pc, st_in, end, mods, L, info, ivatom, forms, hx, writes, post, rng):
        """state after the loop"""
        iv, dr = info['iv'], info['dir']
        lo, hi = info['lo'], info['hi']
        st = entry.copy()
        st.pc = entry_pc
        self.st = st
        # havoc everything the loop may have written
        for m in mods:
            if m[0] == 'fam':
                f = m[1]
                for l in list(st.mem):
                    if fam(l) == f:
                        del st.mem[l]
                for c in list(st.cinit):
                    if any(fam(c) == q for q in prefixes(f)[1:]):
                        a = st.cinit[c]
                        if f[0] == 'size':
                            st.cinit[c] = (a[0], None, a[2])
                        else:
                            st.cinit[c] = (a[0], a[1], a[2] if isinstance(a[2], tuple) and a[2] and a[2][0] == 'fresh' else None)
                st.vers[f] = ('E', L)
                self.wlog.append(('fam', f))
            elif m[0] == 'allf':
                self.allf(st, m[1], ('E', L))
                self.wlog.append(m)
            elif m[0] == 'all':
                for d in (st.mem, st.cinit, st.copies):
                    for l in list(d):
                        if m[1] in prefixes(l):
                            del d[l]
                st.vers[fam(m[1])] = ('E', L)
                st.vers[('idx', fam(m[1]), '*')] = ('E', L)
                self.wlog.append(m)
        for k in end.decl:
            st.decl[k] = max(st.decl.get(k, 0), end.decl[k])
        regular = iv is not None and lo is not None and hi is not None and not hx
        bounded = iv is not None and lo is not None and hi is not None
        trip = cmp_('<=', lo, hi, True) if bounded else None
        nonempty = bounded and (post or self.implied(trip))
        nowrap = bounded and (nonempty or self.implied(cmp_('<=', lo, add(hi, ONE), True)))
        # value of iv at exit
        if bounded:
            ex_iv = add(hi, ONE) if dr > 0 else sub(lo, ONE)
            start = lo if dr > 0 else hi
        finals = {}
        for m in sorted((x for x in mods if x[0] in ('v', 'loc')), key=repr):
            v0, ve = self.mval(entry, m), self.mval(end, m) if end.pc != F else None
            fin = None
            if bounded and m in forms:
                f = forms[m]
                fin = substitute(f, {ivatom: ex_iv})
                if not nowrap:
                    if is_poly(fin) and is_poly(v0):
                        fin = ite(trip, fin, v0)
                    elif is_bool(fin) and is_bool(v0):
                        pass
            elif bounded and ve is not None:
                fin = self.fold(m, v0, ve, L, info, ivatom, forms, mods, entry, end, nonempty, trip)
            if fin is None or self.hasin(fin, L) or (isinstance(fin, tuple) and contains(fin, lambda n: n == ivatom)):
                fin = self.opaque_final(L, m, v0, ve)
            finals[m] = fin
            lp.carried[m] = (v0, ve, fin, forms.get(m))
        if end.pc == F and not hx and not lp.exits:
            pass
        # exits by break / return / head condition
        if hx and bounded:
            self.endst = end
            self.exit_states(lp, st, finals, mods, L, info, ivatom, hx, entry, entry_pc, forms)
        else:
            if hx or not bounded:
                # irregular: values are unknown after the loop
                for m in finals:
                    if not bounded:
                        finals[m] = self.opaque_final(L, m, self.mval(entry, m), self.mval(end, m))
            self.apply_finals(st, finals, lp)
            self.settle(st, lp)
            for e in hx:
                if e['kind'] == 'ret':
                    self.pass_return(e, ('bat', ('retin', L, e.get('line'))), e.get('val'), st)
        self.st = st if self.st is None or True else self.st
        if hx and bounded:
            self.st = self._after_exit

    _after_exit = None

    def opaque_final(self, L, m, v0, ve):
        at = ('fin', L, m[:2])
        o = v0 if v0 not in (None, ('undef',)) else ve
        if isinstance(o, tuple) and o:
            if is_bool(o):
                return ('bat', at)
            if o[0] in ('ptr', 'ldp', 'null', 'pite'):
                return ('ldp', at, 0)
            if o[0] in ('it', 'rit'):
                return (o[0], o[1], A(at))
            if o[0] == 'lam':
                return o
        return A(at)

    def apply_finals(self, st, finals, lp):
        lp.after = []
        lp.start = {m[1][1]: lp.carried[m][0] for m in finals if m[0] != 'v' and m[1][0] == 'size' and m in lp.carried}
        for m, v in finals.items():
            if m[0] == 'v':
                st.env[m[1]] = v
            else:
                st.mem[m[1]] = v
                self.wlog.append(m[1])
                for e in self.flat(lp.body):
                    if e.kind == 'write' and e.loc == m[1]:
                        e.promoted = True
                self.st = st
                e = self.emit('write', loc=m[1], val=v, node={'l': lp.line})
                e.closed = lp.id
                lp.after.append(e)

    def flat(self, evs):
        for e in evs:
            if isinstance(e, Loop):
                yield from self.flat(e.body)
            else:
                yield e

    def fold(self, m, v0, ve, L, info, ivatom, forms, mods, entry, end, nonempty, trip):
        """final value of a carried variable without closed form: last value, running maximum, selection"""
        iv, dr, lo, hi = info['iv'], info['dir'], info['lo'], info['hi']
        last = hi if dr > 0 else lo
        if not self.hasin(ve, L):
            fin = substitute(ve, {ivatom: last})
            if nonempty:
                return fin
            if v0 is None or v0 == ('undef',):
                return fin
            if (is_poly(fin) and is_poly(v0)) or (is_bool(fin) and is_bool(v0)):
                return self.mergev(trip, fin, v0)
            return None
        if not is_poly(ve) or not is_poly(v0):
            return None
        at = ('in', L, m[:2])
        fm = self.find_max(at, ve, L)
        if fm is not None:
            c, g = fm
            sgn, flt = self.max_dir(c, g, A(at), L)
            if sgn is not None:
                bv, g2, sgn = bind(ivatom, g, sgn if flt == T else ('only', sgn, flt))
                return A(('best', sgn, v0, bv, lo, hi, g2, dr))
        # selection following another variable's maximum
        for o in mods:
            if o == m or o[0] not in ('v', 'loc'):
                continue
            oe, o0 = self.mval(end, o), self.mval(entry, o)
            if not is_poly(oe) or not is_poly(o0):
                continue
            oat = ('in', L, o[:2])
            fo = self.find_max(oat, oe, L)
            if fo is None:
                continue
            c, g = fo
            sgn, flt = self.max_dir(c, g, A(oat), L)
            if sgn is None:
                continue
            sl = selection(ve, A(at), lambda v: not self.hasin(v, L))
            for cc, a, b in as_cond(ve) + ([sl + (A(at),)] if sl else []):
                if (cc == c or b_equiv(cc, c)) and b == A(at) and not self.hasin(a, L):
                    bv, g2, a2, sgn = bind(ivatom, g, a, sgn if flt == T else ('only', sgn, flt))
                    return A(('bestarg', sgn, v0, o0, bv, lo, hi, g2, a2, dr))
        return None

    def find_max(self, at, ve, L):
        x = A(at)
        for c, a, b in as_cond(ve):
            if b == x and not self.hasin(a, L):
                return c, a
        return selection(ve, x, lambda v: not self.hasin(v, L))

    def max_dir(self, c, g, x, L):
        """(operator, filter): the choice is replaced where g is better than x, among those that pass the filter"""
        s = self.max_op(c, g, x)
        if s is not None:
            return s, T
        d = sub(g, x)
        out = {}
        for sign in (1, 0, -1):
            m = {}
            for isint in (False, True):
                for op, ok in (('>', sign > 0), ('>=', sign >= 0), ('==', sign == 0), ('<', sign < 0), ('<=', sign <= 0)):
                    k = cmp_(op, d, ZERO, isint)
                    if k[0] == 'cmp':
                        m.setdefault(k, T if ok else F)
            out[sign] = substitute(c, m)
            if not is_bool(out[sign]) or self.hasin(out[sign], L):
                return None, None
        for sgn, a, b in (('>', out[1], out[-1]), ('<', out[-1], out[1])):
            if b == F and a != F:
                if out[0] == F:
                    return sgn, a
                if out[0] == a:
                    return sgn + '=', a
                if a == T:
                    return ('ties', sgn, out[0]), T
        return None, None

    def max_op(self, c, g, x):
        d = sub(g, x)
        for sgn, p in (('>', d), ('<', neg(d))):
            if cmp_('>', p, ZERO, False) == c:
                return sgn
            if cmp_('>=', p, ZERO, False) == c:
                return sgn + '='
        for sgn, p in (('>', d), ('<', neg(d))):
            if cmp_('>', p, ZERO, True) == c:
                return sgn
            if cmp_('>=', p, ZERO, True) == c:
                return sgn + '='
        return None

    def exit_states(self, lp, st, finals, mods, L, info, ivatom, hx, entry, entry_pc, forms):
        iv, dr, lo, hi = info['iv'], info['dir'], info['lo'], info['hi']
        conds = [e['cond'] for e in hx]
        anyc = b_or(*conds)
        clean = not any(self.hasin(c, L) for c in conds)
        kinds = set(e['kind'] for e in hx)
        if not clean or len(kinds) > 1 or len(hx) > 4:
            lp.problem = lp.problem or 'exit condition not summarised'
            for m in finals:
                finals[m] = self.opaque_final(L, m, self.mval(entry, m), None)
            self.apply_finals(st, finals, lp)
            for e in hx:
                if e['kind'] == 'ret':
                    self.pass_return(e, ('bat', ('retin', L, e.get('line'))), e.get('val'), st)
            self._after_exit = st
            return
        none = mk_forall(ivatom, lo, hi, b_not(anyc))
        some = b_not(none)
        bv, bc = bind(ivatom, anyc)
        firstat = A(('first', bv, lo, hi, bc, dr))
        lp.none = none
        normal = st.copy()
        self.st = normal
        normal.pc = b_and(entry_pc, none)
        self.apply_finals(normal, finals, lp)
        normal.pc = b_and(entry_pc, none)
        kind = hx[0]['kind']
        if kind == 'ret':
            for e in hx:
                v = e.get('val')
                if isinstance(v, tuple):
                    v = substitute(v, {ivatom: firstat})
                g = some if len(hx) == 1 else b_and(some, substitute(e['cond'], {ivatom: firstat}))
                self.pass_return(e, g, v, st, entry_pc, mods, L, ivatom, firstat)
            self._after_exit = normal
            self.st = normal
            return
        # break / head
        brk = st.copy()
        brk.pc = b_and(entry_pc, some)
        for m in finals:
            vals = []
            for e in hx:
                v = self.mval(e['st'], m)
                if v is not None and isinstance(v, tuple):
                    v = substitute(v, {ivatom: firstat})
                vals.append(v)
            v = vals[0]
            if len(hx) == 1 and v == A(('in', L, m[:2])) and lp.carried.get(m):
                # unchanged in the iteration that leaves the loop: what the earlier iterations made of it
                v0, ve = lp.carried[m][:2]
                part = dict(info)
                part['hi' if dr > 0 else 'lo'] = add(firstat, num(-dr))
                trip = cmp_('>', firstat, lo, True) if dr > 0 else cmp_('<', firstat, hi, True)
                w = self.fold(m, v0, ve, L, part, ivatom, forms, mods, entry, self.endst, False, trip)
                if w is not None and not self.hasin(w, L) and not (isinstance(w, tuple) and contains(w, lambda n: n == ivatom)):
                    v = w
            if any(x != vals[0] for x in vals) or v is None or (isinstance(v, tuple) and (self.hasin(v, L))):
                v = self.opaque_final(L, m, self.mval(entry, m), v)
            if m[0] == 'v':
                brk.env[m[1]] = v
            else:
                brk.mem[m[1]] = v
                self.st = brk
                self.wlog.append(m[1])
                e = self.emit('write', loc=m[1], val=v, node={'l': lp.line})
                e.closed = lp.id
        r = self.merge(none, normal, brk)
        r.pc = entry_pc
        self._after_exit = r
        self.st = r

    def pass_return(self, e, g, v, st, entry_pc=None, mods=None, L=None, ivatom=None, firstat=None):
        """a return inside a loop, seen from outside the loop"""
        s = st.copy()
        s.pc = b_and(st.pc if entry_pc is None else entry_pc, g)
        fr = self.retstack[-1]
        if len(self.loops) > fr['depth']:
            self.exstack[-1].append({'kind': 'ret', 'pc': s.pc, 'st': s, 'val': v, 'line': e.get('line'), 'pos': len(self.events), 'frame': len(self.retstack)})
        else:
            fr['rets'].append((s.pc, v, s))

    # ------------------------------------------------------------ standard library
    def push(self, c, x, n, front=False):
        loc = self.canon(c.loc) if c.loc not in self.st.copies else c.loc
        self.dirty(c.loc)
        loc = self.resolve(c.loc)
        ct = c.t
        et = self.elemtype(ct)
        sz = self.size(loc)
        dst = ('idx', loc, sz)
        if front:
            self.unk('push_front', n.get('l', 0))
        obj = None
        v = x
        unif = None
        if isinstance(x, LV) and x.loc[0] == 'slot':
            v = x = self.rv(x)
        if isinstance(x, LV) and self.kind(et) in ('int', 'real', 'bool', 'ptr', 'iter', 'num'):
            v = x = self.rv(x)
        if isinstance(x, tuple) and x and x[0] == 'ini':
            t = self.tmp(et)
            self.construct_ini(t.loc, et, x, n)
            v = x = t
        if isinstance(x, LV):
            unif = self.uniform(x.loc)
            self.copy_obj(dst, x.loc, et, n, x.tmp, ev=False)
            v = ('ptr', self.canon(x.loc))
            obj = True
        else:
            if self.kind(et) == 'bool' and is_poly(v):
                v = self.tobool(v)
            elif self.kind(et) in ('int', 'real') and is_bool(v):
                v = ite(v, ONE, ZERO)
            # elements read before were inside the container: appending does not touch them
            keep = {l: w for l, w in self.st.mem.items() if l != dst and any(q[0] == 'idx' and q[1] == loc for q in prefixes(l))}
            self.kill(dst)
            self.st.mem.update(keep)
            self.st.mem[dst] = v
            self.wlog.append(dst)
        self.st.mem[('size', loc)] = add(sz, ONE)
        for l in list(self.st.mem):
            if l[0] == 'size' and l != ('size', loc) and fam(l) == fam(('size', loc)) and not self.distinct(l[1], loc):
                del self.st.mem[l]
        self.wlog.append(('size', loc))
        e = self.emit('push', loc=loc, val=v, at=sz, node=n, et=et, obj=obj)
        e.unif = unif if obj else [(et, None, v)] if is_poly(v) else None
        # snapshot of the object's components for rules that look at them
        e.comps = self.components(dst, et)
        return e

    def uniform(self, loc):
        """[(type, size, None)..., (type, size, value)] when the container holds one value everywhere, at every level"""
        out = []
        loc = self.canon(loc)
        for _ in range(6):
            ci = self.st.cinit.get(loc)
            if ci is None or ci[1] is None or any(loc in prefixes(l) and l not in (loc, ('size', loc)) for l in self.st.mem):
                return None
            if self.size(loc) != ci[1]:
                return None
            if isinstance(ci[2], tuple) and ci[2] and ci[2][0] == 'copy':
                out.append((ci[0], ci[1], None))
                loc = self.canon(ci[2][1])
                continue
            if not is_poly(ci[2]):
                return None
            return out + [(ci[0], ci[1], ci[2])]
        return None

    def settle(self, st, lp):
        """containers filled by a loop that appends the same value in every iteration"""
        top = [e for e in lp.body if not isinstance(e, Loop)]
        for e in top:
            u = getattr(e, 'unif', None)
            if e.kind != 'push' or not u or e.loc is None or e.loc[0] == 'slot':
                continue
            if [x for x in self.flat(lp.body) if x.loc is not None and (e.loc in prefixes(x.loc) or x.loc in prefixes(e.loc)) and x is not e and not (x.kind == 'write' and x.loc == ('size', e.loc))]:
                continue
            fin = next((x for x in reversed(lp.after) if x.kind == 'write' and x.loc == ('size', e.loc)), None)
            if fin is None or contains(e.guard, lambda n: n[0] in ('in', 'iv')) or e.guard != T:
                continue
            if lp.start.get(e.loc) != ZERO:
                continue
            if any(is_poly(z) and (self.hasin(z, lp.id) or contains(z, lambda n: n == ('iv', lp.id) or n[0] == 'iv' and n[1] == lp.id)) for y in u for z in y[1:]):
                continue
            def mk(us):
                t, sz, v = us[0]
                if len(us) == 1:
                    loc = self.tmp(t).loc
                    st.cinit[loc] = (t, sz, v)
                else:
                    sub = mk(us[1:])
                    loc = self.tmp(t).loc
                    st.cinit[loc] = (t, sz, ('copy', sub))
                st.mem[('size', loc)] = sz
                return loc
            for l in list(st.mem):
                if e.loc in prefixes(l) and l not in (e.loc, ('size', e.loc)):
                    del st.mem[l]
            for d in (st.cinit, st.copies):
                for l in list(d):
                    if e.loc in prefixes(l):
                        del d[l]
            ct = getattr(e, 'ct', None)
            st.cinit[e.loc] = (ct, fin.val, u[0][2] if u[0][1] is None else ('copy', mk(u)))

    def components(self, loc, t, depth=0):
        out = {}
        k = self.kind(t)
        if depth > 2:
            return out
        if k == 'rec':
            for cls in [strip(t)] + self.P.bases(strip(t)):
                for f in self.P.records.get(cls, {}).get('fields', []):
                    n = cls + '::' + f['n']
                    fl = ('fld', loc, n)
                    if self.kind(f['t']) in ('int', 'real', 'bool', 'ptr', 'num'):
                        out[n] = self.load(fl, f['t'])
        elif k == 'tuple':
            for i, a in enumerate(targs(t)):
                fl = ('tup', loc, i) if not strip(t).startswith('std::pair') else ('fld', loc, 'first' if i == 0 else 'second')
                if self.kind(a) in ('int', 'real', 'bool', 'ptr', 'num'):
                    out[i] = self.load(fl, a)
        return out

    def std_method(self, n, obj):
        name = n['n']
        cls = strip(n['cls'])
        if isinstance(obj, tuple) and obj and obj[0] == 'lam':
            return self.unk('lambda', n.get('l', 0))
        # smart pointers
        if cls.startswith(('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr')):
            if name in ('operator->', 'get'):
                return self.rv(obj)
            if name == 'operator*':
                return self.deref(self.rv(obj), n['rt'], n)
            if name == 'operator bool':
                return b_not(self.isnull(self.rv(obj)))
            if name == 'operator=':
                v = self.val(n['args'][0])
                if is_poly(v) and v == ZERO:
                    v = ('null',)
                self.assign(obj, v, n)
                return obj
            if name == 'reset':
                v = self.val(n['args'][0]) if n['args'] else ('null',)
                self.assign(obj, v, n)
                return None
            if name == 'use_count':
                return self.unk('use_count', n.get('l', 0))
            if name == 'swap':
                o2 = self.ev(n['args'][0])
                a, b = self.rv(obj), self.rv(o2)
                self.assign(obj, b, n)
                self.assign(o2, a, n)
                return None
        if cls.startswith(('std::_Bit_reference',)):
            if name == 'operator=':
                v = self.tobool(self.val(n['args'][0]))
                self.assign(obj, v, n)
                return obj
            if name == 'operator bool':
                return self.tobool(self.rv(obj))
        if cls.startswith(ITER):
            return self.iter_method(n, obj, name)
        if cls.startswith('std::numeric_limits'):
            return self.limits(n)
        if cls.startswith(CONT):
            return self.cont_method(n, obj, name, cls)
        if cls.startswith(('std::basic_ostream', 'std::basic_ios', 'std::basic_string')):
            args = [self.ev(a) for a in n['args']]
            self.emit('io', node=n, q=n['q'])
            return obj
        if cls.startswith(('std::tuple', 'std::pair')) and name == 'operator=':
            x = self.ev(n['args'][0])
            if isinstance(x, LV):
                self.copy_obj(obj.loc, x.loc, obj.t, n, x.tmp)
                return obj
        if self.prims.get('std'):
            r = self.prims['std'](self, n, obj)
            if r is not NotImplemented:
                return r
        args = [self.ev(a) for a in n['args']]
        if isinstance(obj, LV) and not n.get('const') and obj.loc[0] != 'slot':
            self.clobber(obj.loc)
        self.emit('extcall', q=n['q'], node=n)
        return self.unk('call ' + n['q'], n.get('l', 0), n['rt'])

    def iter_method(self, n, obj, name):
        v = self.rv(obj)
        if not (isinstance(v, tuple) and v and v[0] in ('it', 'rit', 'mit')):
            return self.unk('iterator', n.get('l', 0), n['rt'])
        if name in ('operator*',):
            return self.it_deref(v, n['rt'], n)
        if name == 'operator->':
            return ('ptr', self.it_deref(v, 'other', n).loc)
        if name in ('operator++', 'operator--'):
            if v[0] == 'mit':
                return self.unk('iterator increment', n.get('l', 0), n['rt'])
            w = self.it_add(v, ONE if name == 'operator++' else num(-1))
            self.assign(obj, w, n)
            return v if n['args'] else obj
        if name in ('operator+', 'operator-') and n['args']:
            a = self.val(n['args'][0])
            if is_poly(a):
                return self.it_add(v, a if name == 'operator+' else neg(a))
            if isinstance(a, tuple) and a[0] == v[0]:
                return sub(v[2], a[2])
        if name in ('operator+=', 'operator-='):
            a = self.numv(n['args'][0])
            self.assign(obj, self.it_add(v, a if name == 'operator+=' else neg(a)), n)
            return obj
        if name == 'operator[]':
            return LV(('idx', v[1], add(v[2], self.numv(n['args'][0]))), n['rt'])
        if name == 'operator=':
            self.assign(obj, self.val(n['args'][0]), n)
            return obj
        if name in ('operator==', 'operator!='):
            return self.compare(name[8:], v, self.val(n['args'][0]), {'ct': 'int', 'l': n.get('l')})
        if name == 'base':
            return v
        return self.unk('iterator ' + name, n.get('l', 0), n['rt'])

    def it_deref(self, v, t, n):
        if v[0] == 'mit':
            self.emit('access', loc=('idx', v[1], v[2]), val=v[2], node=n, size=None, found=('bat', ('has', v[1], v[2], self.ver(('idx', v[1], ZERO)))))
            return LV(('mapel', v[1], v[2]), t)
        if v[0] in ('it', 'rit') and is_poly(v[2]):
            self.emit('access', loc=('idx', self.canon(v[1]), v[2]), val=v[2], node=n, size=self.size(v[1]))
        return LV(('idx', v[1], v[2]), t)

    def limits(self, n):
        if n['n'] in ('infinity', 'max') and self.kind(n['rt']) == 'real':
            return A(('inf', n['n']))
        if n['n'] == 'lowest' and self.kind(n['rt']) == 'real':
            return neg(A(('inf', 'max')))
        return A(('limit', n['n'], n['rt']))

    def cont_method(self, n, obj, name, cls):
        if not isinstance(obj, LV):
            obj = self.rv(obj)
            if not isinstance(obj, LV):
                return self.unk('container', n.get('l', 0), n['rt'])
        ct = cls
        obj = LV(obj.loc, ct, obj.tmp)
        et = self.elemtype(ct)
        ismap = ct.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<', 'std::set<'))
        A_ = n['args']
        if name in ('operator[]', 'at'):
            if ismap:
                k = self.val(A_[0])
                vt = targs(ct)[1]
                return LV(('at', obj.loc, k), vt)
            i = self.numv(A_[0])
            lv = LV(('idx', obj.loc, i), et if not et.startswith('bool') else 'bool')
            self.emit('access', loc=('idx', self.canon(obj.loc), i), val=i, node=n, size=self.size(obj.loc))
            return lv
        if name in ('front', 'back') and not ismap:
            i = ZERO if name == 'front' else sub(self.size(obj.loc), ONE)
            self.emit('access', loc=('idx', self.canon(obj.loc), i), val=i, node=n, size=self.size(obj.loc))
        if name == 'front':
            return self.elem(obj.loc, ZERO, et)
        if name == 'back':
            return self.elem(obj.loc, sub(self.size(obj.loc), ONE), et)
        if name == 'size' or name == 'length':
            return self.size(obj.loc)
        if name == 'empty':
            return cmp_('==', self.size(obj.loc), ZERO, True)
        if name in ('begin', 'cbegin'):
            return ('it', obj.loc, ZERO)
        if name in ('end', 'cend'):
            return ('it', obj.loc, self.size(obj.loc))
        if name in ('rbegin', 'crbegin'):
            return ('rit', obj.loc, sub(self.size(obj.loc), ONE))
        if name in ('rend', 'crend'):
            return ('rit', obj.loc, num(-1))
        if name in ('reserve', 'shrink_to_fit'):
            for a in A_:
                self.ev(a)
            return None
        if name == 'push_back':
            self.push(obj, self.ev(A_[0]), n)
            return None
        if name == 'emplace_back':
            if self.kind(et) in ('rec', 'tuple', 'cont') and not (len(A_) == 1):
                t = self.tmp(et)
                args = [self.ev(a) for a in A_]
                if self.kind(et) == 'rec':
                    f = self.find_ctor(et, args)
                    if f is None:
                        self.unk('emplace_back', n.get('l', 0))
                    else:
                        self.invoke(f, t, args, n)
                else:
                    self.construct_from(t.loc, et, dict(n, k='ctor', pt=[]), args)
                self.push(obj, t, n)
            else:
                if A_:
                    x = self.ev(A_[0])
                    if self.kind(et) == 'cont' and not (isinstance(x, LV)):
                        t = self.tmp(et)
                        self.construct_from(t.loc, et, dict(n, k='ctor', pt=[]), [x])
                        x = t
                    elif self.kind(et) == 'rec' and not (isinstance(x, LV) and strip(x.t) == strip(et)):
                        t = self.tmp(et)
                        f = self.find_ctor(et, [x])
                        if f:
                            self.invoke(f, t, [x], n)
                        x = t
                else:
                    t = self.tmp(et)
                    if self.kind(et) == 'cont':
                        self.new_container(t.loc, ZERO, None, n, et)
                        x = t
                    else:
                        x = self.zero_of(et) or t
                self.push(obj, x, n)
            return None
        if name == 'pop_back':
            self.dirty(obj.loc)
            loc = self.resolve(obj.loc)
            self.kill(('idx', loc, sub(self.size(loc), ONE)))
            self.store_quiet(('size', loc), sub(self.size(loc), ONE))
            self.emit('pop', loc=loc, node=n)
            return None
        if name == 'clear':
            self.new_container(obj.loc, ZERO, None, n, ct).kind = 'clear'
            return None
        if name in ('resize', 'assign') and A_ and not ismap:
            a = [self.ev(x) for x in A_]
            v0 = self.rv(a[0])
            if is_poly(v0):
                fresh_ = name == 'assign' or self.size(obj.loc) == ZERO
                if len(a) > 1:
                    x = a[1]
                    val = ('copy', self.canon(x.loc)) if isinstance(x, LV) and self.kind(x.t) in ('cont', 'rec', 'tuple') else self.rv(x)
                else:
                    val = self.zero_of(et)
                    if val is None and self.kind(et) == 'cont':
                        tv = self.tmp(et)
                        self.new_container(tv.loc, ZERO, None, n, et)
                        val = ('copy', tv.loc)
                if self.kind(et) == 'bool' and is_poly(val):
                    val = self.tobool(val)
                if fresh_:
                    self.new_container(obj.loc, v0, val, n, ct)
                else:
                    self.emit('resize', loc=self.canon(obj.loc), val=v0, node=n)
                    self.havoc_fam(('idx', fam(self.resolve(obj.loc)), '*'))
                    self.store_quiet(('size', self.resolve(obj.loc)), v0)
                return None
        if name == 'operator=':
            x = self.ev(A_[0])
            if isinstance(x, LV):
                self.copy_obj(obj.loc, x.loc, ct, n, x.tmp)
            elif isinstance(x, tuple) and x and x[0] == 'ini':
                self.construct_ini(obj.loc, ct, x, n)
            return obj
        if name == 'swap':
            o2 = self.ev(A_[0])
            self.unk('container swap', n.get('l', 0))
            self.clobber(obj.loc)
            self.clobber(o2.loc)
            return None
        if ismap and name == 'count':
            k = self.val(A_[0])
            c = self.canon(obj.loc)
            return ite(('bat', ('has', c, k, self.st.vers.get(('idx', fam(c), '*'), 0))), ONE, ZERO)
        if ismap and name in ('find', 'lower_bound', 'upper_bound'):
            k = self.val(A_[0])
            if name == 'find':
                return ('mit', self.canon(obj.loc), k)
            return ('mit', self.canon(obj.loc), A(('fn', name, k)))
        if name == 'erase':
            a = [self.val(x) for x in A_]
            self.dirty(obj.loc)
            loc = self.resolve(obj.loc)
            self.havoc_fam(('idx', fam(loc), '*'))
            self.havoc_below(loc)
            x = a[0]
            key = x[2] if isinstance(x, tuple) and x and x[0] == 'mit' else None
            pos = x[2] if isinstance(x, tuple) and x and x[0] == 'it' else None
            sz = self.size(loc)
            if ismap and key is None and pos is None:
                key = x
            e = self.emit('erase', loc=loc, key=key, at=pos, val=x, node=n, nargs=len(a))
            if pos is not None and len(a) == 1:
                self.store_quiet(('size', loc), sub(sz, ONE))
                return x
            self.store_quiet(('size', loc), A(('ld', ('size', loc), self.fresh())))
            return x
        if name in ('insert', 'emplace') and ismap:
            a = [self.ev(x) for x in A_]
            if name == 'emplace' and len(a) == 2:
                k, v = self.rv(a[0]), self.rv(a[1])
            elif len(a) == 1 and isinstance(a[0], LV):
                k = self.load(('fld', self.canon(a[0].loc), 'first'), 'double')
                v = self.load(('fld', self.canon(a[0].loc), 'second'), 'int *' if self.kind(targs(ct)[1]) == 'ptr' else 'double')
            else:
                k = v = None
            if k is not None and not isinstance(v, LV):
                e = self.store(('at', self.canon(obj.loc), k), v, n)
                e.insert_only = True
                return self.symbol('int', ('unk', 'insert', self.fresh()))
        if name == 'insert' and not ismap and len(A_) == 2:
            a = [self.val(x) for x in A_]
            p = a[0]
            if isinstance(p, tuple) and p and p[0] == 'it' and p[2] == self.size(obj.loc):
                self.push(obj, a[1], n)
                return p
        self.unk('container method ' + name, n.get('l', 0))
        if not n.get('const'):
            self.clobber(obj.loc)
        for x in A_:
            self.ev(x)
        return self.symbol(n['rt'], ('unk', name, self.fresh()))

    def havoc_below(self, loc):
        for d in (self.st.mem,):
            for l in list(d):
                if loc in prefixes(l) and l[0] != 'size':
                    del d[l]

    def find_ctor(self, t, args):
        r = self.P.records.get(strip(t))
        if not r:
            return None
        c = [m['f'] for m in r['methods'] if m.get('ctor') and len(m['ps']) == len(args) and not m.get('copy')]
        return c[0] if len(c) == 1 else None

    def std_free(self, n, args):
        q = n['q']
        base = q.split('<')[0]
        name = n['n']
        if self.prims.get('free'):
            r = self.prims['free'](self, n, args)
            if r is not NotImplemented:
                return r
        if name in ('log', 'log2', 'log10', 'sqrt', 'abs', 'fabs', 'pow', 'exp', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'logl', 'log2l', 'fabsl', 'round', 'log1p'):
            vs = [self.rv(a) for a in args]
            if any(not is_poly(v) for v in vs):
                vs = [self.tonum(v, n) for v in vs]
            name = name.rstrip('l') if name in ('logl', 'log2l', 'fabsl') else name
            if name in ('log', 'log2', 'log10', 'log1p', 'sqrt', 'pow'):
                self.emit('math', loc=None, val=vs[0], node=n, op=name)
            if name == 'log2':
                return div(fn('log', vs[0]), fn('log', num(2)))
            if name == 'log10':
                return div(fn('log', vs[0]), fn('log', num(10)))
            if name in ('abs', 'fabs'):
                return fn('abs', vs[0])
            if name == 'pow':
                c = const(vs[1])
                if c is not None and c.denominator == 1 and 0 <= c <= 4:
                    r = ONE
                    for _ in range(int(c)):
                        r = mul(r, vs[0])
                    return r
            if name in ('isnan', 'isinf', 'isfinite'):
                return ('bat', ('fn', name) + tuple(vs))
            return fn(name, *vs)
        if name in ('max', 'min') and len(args) == 2:
            a, b = [self.tonum(self.rv(x), n) for x in args]
            isint = self.isint(n['rt'])
            if name == 'max':
                return ite(cmp_('<', a, b, isint), b, a)
            return ite(cmp_('<', b, a, isint), b, a)
        if name == 'get' and args and isinstance(args[0], LV):
            ta = n.get('targs', '')
            i = int(ta.split(';')[0]) if ta.split(';')[0].isdigit() else None
            if i is not None:
                base_ = args[0].loc
                if strip(args[0].t).startswith('std::pair'):
                    return LV(('fld', base_, 'first' if i == 0 else 'second'), n['rt'])
                return LV(('tup', base_, i), n['rt'])
        if name in ('move', 'forward', 'ref', 'cref', 'as_const') and len(args) == 1:
            if isinstance(args[0], LV) and name == 'move':
                return LV(args[0].loc, args[0].t, args[0].tmp)
            return args[0]
        if name in ('make_shared', 'make_unique'):
            ta = n.get('targs', '').split(';')[0]
            t = strip(ta)
            site = '%s:%s' % ((self.curfile or '').split('/')[-1], n.get('l', 0))
            k = self.st.decl.get(('new', site), 0)
            self.st.decl[('new', site)] = k + 1
            loc = ('new', site, k, len(self.loops) and self.loops[-1]['id'] or 0)
            self.purge(loc)
            self.allocs[loc] = tuple(L['id'] for L in self.loops)
            self.ptypes[loc] = t
            self.emit('alloc', loc=loc, node=n, t=t, val=None)
            kk = self.kind(t)
            if kk == 'num':
                v = self.prim_call(dict(k='ctor', cls=t, t=t, args=[], f='', l=n.get('l'), copy=len(args) == 1 and isinstance(args[0], LV) and strip(args[0].t) == t), None, args, 'ctor')
                self.store(loc, v if not isinstance(v, LV) else self.rv(v), n)
            elif kk == 'rec':
                if len(args) == 1 and isinstance(args[0], LV) and strip(args[0].t) == t:
                    c = [m for m in self.P.records[t]['methods'] if m.get('copy')]
                    if c and c[0]['f'] in self.P.functions and not self.P.functions[c[0]['f']].get('implicit'):
                        self.construct_from(loc, t, dict(n, k='ctor', f=c[0]['f'], cls=t, t=t, copy=True, repo=True), args)
                    else:
                        self.copy_obj(loc, args[0].loc, t, n)
                else:
                    p = self.prim_call(dict(k='ctor', cls=t, t=t, args=[None] * len(args), f='', l=n.get('l')), LV(loc, t), args, 'ctorat')
                    if p is NotImplemented:
                        f = self.find_ctor(t, args)
                        if f is None:
                            self.unk('make_shared<%s>' % t, n.get('l', 0))
                        else:
                            self.invoke(f, LV(loc, t), args, n)
            elif kk == 'cont':
                self.construct_from(loc, t, dict(n, k='ctor', pt=[]), args)
            elif kk in ('int', 'real', 'bool'):
                self.store(loc, self.rv(args[0]) if args else self.zero_of(t), n)
            else:
                self.unk('make_shared<%s>' % t, n.get('l', 0))
            return ('ptr', loc)
        if name in ('make_pair', 'make_tuple'):
            t = n['rt']
            lv = self.tmp(t)
            self.construct_from(lv.loc, t, dict(n, k='ctor', pt=[]), args)
            return lv
        if name == 'get' and len(args) == 1 and isinstance(args[0], LV) and self.kind(args[0].t) == 'tuple':
            i = str(n.get('targs') or '').split(';')[0].strip().rstrip('UL')
            t = strip(args[0].t)
            if i.isdigit() and int(i) < len(targs(t)):
                i = int(i)
                fl = ('fld', args[0].loc, 'first' if i == 0 else 'second') if t.startswith('std::pair') else ('tup', args[0].loc, i)
                return LV(fl, targs(t)[i])
        if name in ('infinity', 'quiet_NaN', 'lowest', 'epsilon') or base.startswith('std::numeric_limits'):
            return self.limits(n)
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            a, b = [self.rv(x) for x in args]
            op = name[8:]
            if isinstance(a, LV) and isinstance(b, LV):
                x, y = sorted([self.canon(a.loc), self.canon(b.loc)], key=repr)
                if op in ('==', '!='):
                    e = ('bat', ('objeq', x, y, self.ver(('idx', x, ZERO)), self.ver(('idx', y, ZERO))))
                    return e if op == '==' else b_not(e)
                return self.unk('container order', n.get('l', 0), 'bool')
            t0 = n['args'][0].get('t') or n['args'][0].get('rt') or 'int'
            return self.compare(op, a, b, {'ct': 'int', 'l': n.get('l')})
        if name in ('operator+', 'operator-') and len(args) == 2:
            a, b = self.rv(args[0]), self.rv(args[1])
            return self.arith(name[8:], a, b, True, n)
        if name in ('operator<<', 'operator>>', 'endl', 'flush'):
            self.emit('io', q=q, node=n)
            return args[0] if args else None
        if name in ('next', 'prev') and args:
            v = self.rv(args[0])
            d = self.rv(args[1]) if len(args) > 1 else ONE
            if isinstance(v, tuple) and v and v[0] in ('it', 'rit') and is_poly(d):
                return self.it_add(v, d if name == 'next' else neg(d))
        if name in ('begin', 'end', 'cbegin', 'cend', 'size') and args and isinstance(args[0], LV):
            return self.cont_method(dict(n, args=[]), args[0], name, strip(args[0].t))
        if name == 'swap' and len(args) == 2 and all(isinstance(a, LV) for a in args) and self.kind(args[0].t) in ('int', 'real', 'bool', 'ptr', 'num', 'iter'):
            a, b = self.rv(args[0]), self.rv(args[1])
            self.assign(args[0], b, n)
            self.assign(args[1], a, n)
            return None
        if name in ('distance',) and len(args) == 2:
            a, b = self.rv(args[0]), self.rv(args[1])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'it':
                return sub(b[2], a[2])
        r = self.algorithm(n, name, args)
        if r is not NotImplemented:
            return r
        for a, pr in zip(args, n.get('pr', [])):
            if pr == 1 and isinstance(a, LV):
                if a.loc[0] == 'slot':
                    self.st.env[a.loc[1]] = self.symbol(a.t, ('unk', 'out', self.fresh()))
                else:
                    self.clobber(a.loc)
        self.emit('extcall', q=q, node=n)
        return self.unk('call ' + q, n.get('l', 0), n['rt'])

    def algorithm(self, n, name, args):
        """std algorithms over full iterator ranges, as loops"""
        if name in ('accumulate', 'any_of', 'all_of', 'none_of', 'for_each', 'fill', 'count_if', 'find_if', 'count') and len(args) >= 2:
            a, b = self.rv(args[0]), self.rv(args[1])
            if not (isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'it' and a[1] == b[1]):
                return NotImplemented
            c = a[1]
            self.loopid += 1
            ivat = ('iv', self.loopid, 'it')
            iv = A(ivat)
            lo, hi = a[2], sub(b[2], ONE)
            et = self.iter_elem(n['args'][0])
            el = LV(('idx', c, iv), et)
            if name == 'accumulate' and len(args) == 3:
                return add(self.tonum(self.rv(args[2])), mk_sum(ivat, lo, hi, self.tonum(self.rv(el))))
            if name in ('any_of', 'all_of', 'none_of') and len(args) == 3:
                f = self.rv(args[2])
                if isinstance(f, tuple) and f and f[0] == 'lam':
                    w0 = len(self.wlog)
                    body = self.tobool(self.rv(self.invoke(f[1], None, [el], n, lam=f)))
                    if len(self.wlog) != w0:
                        return NotImplemented
                    if name == 'all_of':
                        return mk_forall(ivat, lo, hi, body)
                    r = mk_forall(ivat, lo, hi, b_not(body))
                    return b_not(r) if name == 'any_of' else r
            if name == 'count' and len(args) == 3:
                x, y = self.rv(el), self.rv(args[2])
                if is_poly(x) and is_poly(y):
                    return mk_sum(ivat, lo, hi, ite(cmp_('==', x, y, self.isint(et)), ONE, ZERO))
            if name == 'fill' and len(args) == 3 and lo == ZERO and b[2] == self.size(c):
                x = self.rv(args[2])
                if not isinstance(x, LV):
                    sz = self.size(c)
                    self.new_container(c, sz, x, n, 'std::vector<%s>' % et)
                    return None
        return NotImplemented

    def iter_elem(self, node):
        t = node.get('t') or node.get('rt') or ''
        m = targs(strip(t))
        if m:
            x = m[0].strip()
            return x[:-1].strip() if x.endswith('*') else x
        return 'double'

    # ------------------------------------------------------------ entry point
    def run(self, key, this='this', args=None):
        """analyse function `key` for arbitrary object and arguments"""
        f = self.P.functions[key]
        byidx = {i: args[p['n']] for i, p in enumerate(f['ps']) if args and p['n'] in args}
        self.retval = self.call(key, args=byidx)
        return self.retval

    def call(self, key, this=('this',), cls=None, args=None, tag=None):
        """run function `key` on the current state; unspecified parameters are symbolic"""
        f = self.P.functions[key]
        if f.get('b') is None:
            raise Undecided('no body: ' + key)
        args = args or {}
        self.thiscls = cls or f.get('cls')
        if self.thiscls and this is not None:
            self.dyn[this] = self.thiscls
        self.thisloc = this if f.get('cls') and not f.get('static') else None
        self.curfile = f.get('file')
        for i, p in enumerate(f['ps']):
            if args.get(i) is not None:
                v = args[i]
                if isinstance(v, LV):
                    if p.get('ref'):
                        v = ('ref', v.loc, None)
                    else:
                        v = ('obj', v.loc) if self.kind(v.t) not in ('int', 'real', 'bool', 'ptr', 'num', 'iter') else self.rv(v)
                self.st.env[p['id']] = v
                continue
            ix = i if tag is None else (tag, i)
            k = self.kind(p['t'])
            name = p['n'] or 'arg%d' % i
            if tag is not None:
                name = '%s_%s' % (name, tag)
            if p.get('ref') and not (p.get('cref') and k in ('int', 'real', 'bool', 'ptr', 'num')):
                self.st.env[p['id']] = ('ref', ('arg', ix), None)
            elif k in ('int', 'real', 'num'):
                at = ('sym', ix, name)
                if strip(p['t']).startswith('unsigned'):
                    self.nonneg.add(at)
                self.st.env[p['id']] = A(at)
            elif k == 'bool':
                self.st.env[p['id']] = ('bat', ('sym', ix, name))
            elif k == 'ptr':
                self.st.env[p['id']] = ('ldp', ('arg', ix), 0)
            elif k == 'iter':
                self.st.env[p['id']] = ('it', ('arg', ix), A(('sym', ix, name)))
            else:
                self.st.env[p['id']] = ('obj', ('arg', ix))
        self.exstack = [[]]
        self.st.pc = T
        return self.run_body(f)


def dump(evs, ind=0, out=None):
    top = out is None
    out = [] if top else out
    for e in evs:
        p = '  ' * ind
        if isinstance(e, Loop):
            out.append('%sLOOP %s iv=%s [%s .. %s] dir=%d guard %s @%s %s' % (p, e.id, show(e.iv) if e.iv else None, show(e.lo) if e.lo else None, show(e.hi) if e.hi else None, e.dir, show(e.guard), e.line, 'PROBLEM ' + e.problem if e.problem else ''))
            dump(e.body, ind + 1, out)
            for x in e.exits:
                out.append('%s  EXIT %s if %s @%s' % (p, x['kind'], show(x['cond']), x.get('line')))
        else:
            if e.kind == 'access' or e.kind in ('copy', 'copyobj') and e.loc[0] == 'tmp':
                continue
            out.append(p + ('~' if e.promoted else '') + repr(e))
    if top:
        return '\n'.join(out)
