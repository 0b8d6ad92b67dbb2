"""Sizes, indices, node numbers and counts keep the width of an int (all properties that hold for every size)."""
import os, re
from .core import *
from .r_effects import each

NARROW = re.compile(r'^(unsigned |signed )?(char|short)( int)?$')
QUERY = {'getP', 'computeAUC', 'computePOpt', 'getQualityList', 'getParameters', 'getParametersVector'}
PROPS = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C18', 'C19', 'C25']


def bare(t):
    return re.sub(r'\bconst\b|\bvolatile\b|&', '', t or '').strip()


def narrow(t):
    return NARROW.match(bare(t)) is not None


def prop_of(f):
    """the property whose guarantee for every size the function carries"""
    s = os.path.splitext(os.path.basename(f.get('file') or ''))[0]
    n = f.get('n', '')
    c = (f.get('cls') or '').rsplit('::', 1)[-1]
    if 'MetaData' in c:
        return 'C03'
    if 'alues' in s:
        return 'C01'
    if s.startswith('uppertriangular'):
        return 'C02'
    if s == 'complexity':
        return 'C04'
    if n == 'normalize' or s == 'qualities':
        return 'C08'
    m = re.match(r'([ohd])(qualities|partitioner)$', s)
    if m:
        i = 'ohd'.index(m.group(1))
        if m.group(2) == 'qualities':
            return ['C05', 'C06', 'C07'][i]
        return ['C09', 'C10', 'C11'][i] if n == 'computeBestPartition' else 'C14'
    if re.match(r'[ohd]partition$', s):
        return 'C12'
    if s == 'partitioner':
        return 'C18' if n in QUERY else 'C14'
    if 'aggregat' in s:
        return 'C19'
    return 'C25'


def small(n):
    """a flag or a constant: nothing is lost"""
    if not isinstance(n, dict):
        return False
    k = n.get('k')
    t = bare(n.get('t') or n.get('rt'))
    if t == 'bool' or narrow(t) and k in ('int', 'var', 'mem', 'call') or k == 'int':
        return True
    if k == 'cast':
        return small(n.get('e'))
    if k == 'cond':
        return small(n.get('a')) and small(n.get('b'))
    if k == 'un' and n.get('op') in ('-', '+', '!'):
        return small(n.get('e'))
    if k == 'bin' and n.get('op') in ('==', '!=', '<', '>', '<=', '>=', '&&', '||', '&'):
        return n['op'] != '&' or small(n.get('a')) or small(n.get('b'))
    return False


def rule_width(C, want):
    P = C.P
    n = 0
    bad = set()
    for f in P.functions.values():
        if f.get('b') is None and not f.get('inits') or prop_of(f) != want:
            continue
        hits = []

        def g(x):
            nonlocal n
            k = x.get('k')
            if k == 'cast' and x.get('ck') in ('IntegralCast', 'FloatingToIntegral'):
                n += 1
                if narrow(x['t']) and not narrow(x.get('ft')) and not small(x.get('e')):
                    hits.append((x, 'a value of type %s is cut down to %s' % (x.get('ft'), x['t'])))
            elif k == 'un' and x.get('op') in ('++', '--') and narrow(x.get('t')):
                hits.append((x, 'a counter of type %s wraps around' % x.get('t')))
            elif k == 'asg' and x.get('op') not in ('=', '|=', '&=', '^=') and narrow(x.get('t')):
                hits.append((x, 'a sum of type %s wraps around' % x.get('t')))
        each(f.get('b'), g)
        for i in f.get('inits') or ():
            each(i, g)
        for x, what in hits:
            key = (f['key'], x.get('l', 0), what)
            if key not in bad:
                bad.add(key)
                C.bad('width.%s' % f['q'].replace('lpaggreg::', ''), what + ': sizes, indices and counts beyond that are wrong', '%s:%s' % (rel(f), x.get('l') or f.get('l', 0)))
    if not bad:
        C.ok('width', '%d integer conversions, none below the width of an int' % n, '')


def rel(f):
    p = f.get('file') or ''
    i = p.find('/src/')
    return p[i + 1:] if i >= 0 else p


def mk(p):
    def rule(C):
        rule_width(C, p)
    rule.__name__ = 'rule_width_' + p
    rule.__doc__ = 'sizes, indices and counts keep the width of an int'
    return rule


RULES = {p: [mk(p)] for p in PROPS}
