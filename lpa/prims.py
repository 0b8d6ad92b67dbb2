"""Library-specific primitives of the interpreter (each backed by its own obligation)."""
from .terms import *
from .interp import LV, strip

UTM = 'lpaggreg::UpperTriangularMatrix<'
TR = 'lpaggreg::Tradeoff'


def get(opts=()):
    opts = set(opts)
    hooks = []
    d = {'call': None}
    if 'utm' in opts:
        hooks.append(utm_call)
    if 'tradeoff' in opts:
        hooks.append(tradeoff_call)
        d['scalar_types'] = {TR}
    if 'entropy' in opts:
        hooks.append(entropy_call)

    def call(I, n, obj, args, how):
        for h in hooks:
            r = h(I, n, obj, args, how)
            if r is not NotImplemented:
                return r
        return NotImplemented
    d['call'] = call
    d['opts'] = opts
    return d


def utm_call(I, n, obj, args, how):
    cls = strip(n.get('cls') or '')
    if not cls.startswith(UTM):
        return NotImplemented
    et = cls[len(UTM):-1].strip()
    if how == 'ctorat':
        if n.get('copy') or n.get('move'):
            return NotImplemented
        loc = obj.loc
        sz = I.rv(args[0])
        if len(args) == 1:
            z = I.zero_of(et)
            k = I.kind(et)
            if k == 'ptr':
                t = et[et.index('<') + 1:-1].strip() if '<' in et else et
                val = ('freshptr', strip(t))
            else:
                val = z
        else:
            val = I.rv(args[1])
            if isinstance(val, LV):
                val = ('copy', I.canon(val.loc))
        I.dirty(loc)
        loc = I.resolve(loc)
        I.purge(loc)
        I.st.cinit[loc] = (cls, None, val)
        I.st.mem[('dim', loc)] = sz
        I.wlog.append(('all', loc))
        I.wlog.append(('dim', loc))
        I.emit('init', loc=loc, val=val, size=sz, node=n, ct=cls)
        return None
    if how != 'call' or not isinstance(obj, LV):
        return NotImplemented
    c = I.canon(obj.loc)
    name = n['n']
    if name == 'getSize':
        return I.load(('dim', c), 'unsigned int')
    if name == 'getElements':
        d = I.load(('dim', c), 'unsigned int')
        return scale(mul(d, add(d, ONE)), Fraction(1, 2))
    if name == 'operator()' and len(args) >= 2:
        i, j = I.tonum(I.rv(args[0])), I.tonum(I.rv(args[1]))
        loc = ('cell', c, i, j)
        I.emit('access', loc=loc, val=None, node=n, size=I.load(('dim', c), 'unsigned int'))
        if len(args) == 2:
            return I.load(loc, et)
        v = I.rv(args[2])
        if I.kind(et) in ('int', 'real') and is_bool(v):
            v = ite(v, ONE, ZERO)
        I.store(loc, v, n)
        return None
    if name == 'operator[]':
        loc = ('lin', c, I.tonum(I.rv(args[0])))
        I.emit('access', loc=loc, val=None, node=n, size=I.load(('dim', c), 'unsigned int'))
        return I.load(loc, et)
    return NotImplemented


def tval(I, q, p):
    return fn('T', q, p)


def tradeoff_call(I, n, obj, args, how):
    cls = strip(n.get('cls') or '')
    q = n.get('q', '')
    if how in ('ctor', 'ctorat') and cls == TR:
        if n.get('copy') or n.get('move'):
            v = I.rv(args[0])
        elif not args:
            v = ZERO
        elif len(args) == 2 and isinstance(I.rv(args[0]), tuple) and not is_poly(I.rv(args[0])):
            v = tval(I, I.rv(args[0]), I.rv(args[1]))
        else:
            v = I.unk('Tradeoff constructor', n.get('l', 0))
        if how == 'ctorat':
            I.put(obj.loc, TR, v, n)
            return None
        return v
    if how != 'call':
        return NotImplemented
    if cls == TR and isinstance(obj, LV):
        name = n['n']
        if name == 'set':
            I.assign(obj, tval(I, I.rv(args[0]), I.rv(args[1])), n)
            return None
        if name in ('operator+=', 'operator-='):
            a, b = I.rv(obj), I.rv(args[0])
            I.assign(obj, add(a, b) if name == 'operator+=' else sub(a, b), n)
            return None
        if name == 'operator=':
            I.assign(obj, I.rv(args[0]), n)
            return obj
        if name == 'getValue':
            return fn('val', I.rv(obj))
        return I.unk('Tradeoff::' + name, n.get('l', 0), n['rt'])
    if q in ('lpaggreg::operator<', 'lpaggreg::operator>', 'lpaggreg::operator<=', 'lpaggreg::operator>=', 'lpaggreg::operator==', 'lpaggreg::operator!=') and len(args) == 2:
        if all(isinstance(a, LV) and strip(a.t) == TR or is_poly(a) for a in args):
            return cmp_(q[len('lpaggreg::operator'):], I.rv(args[0]), I.rv(args[1]), False)
    if q in ('lpaggreg::operator+', 'lpaggreg::operator-') and len(args) == 2 and strip(n['rt']) == TR:
        a, b = I.rv(args[0]), I.rv(args[1])
        return add(a, b) if q.endswith('+') else sub(a, b)
    return NotImplemented


def entropy_call(I, n, obj, args, how):
    if how != 'call':
        return NotImplemented
    q = n.get('q')
    if q in ('entropyReduction', 'divergence', 'entropy'):
        return fn({'entropyReduction': 'ER', 'divergence': 'DIV', 'entropy': 'ENT'}[q], *[I.tonum(I.rv(a)) for a in args])
    return NotImplemented
