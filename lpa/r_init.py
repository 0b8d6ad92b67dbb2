"""C25: nothing is read before it is set, no null object is dereferenced, no invalidated iterator is used."""
import os, re, shutil, subprocess
from .core import *
from .r_effects import declared
from fractions import Fraction
from .r_mem import analysed, subterms, ev, evb, TREES, H, L, N, R, V, DI, DJ, DK, PL

SCALAR = re.compile(r'^(const )?(volatile )?(unsigned |signed )?(int|long|long long|short|char|bool|float|double|long double|size_t|unsigned)$')


def scalar(t):
    t = t.strip()
    return bool(SCALAR.match(t)) or t.endswith('*')


def smart(t):
    t = re.sub(r'^const |\s*&$', '', t.strip())
    return t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'shared_ptr<', 'unique_ptr<'))


def merge(a, b, why='if'):
    """state after two paths meet"""
    if a is None or b is None:
        return dict(b if a is None else a)
    out = {}
    for v in a.keys() | b.keys():
        x, y = a.get(v, 'no'), b.get(v, 'no')
        if x == y:
            out[v] = x
        elif 'loop' in (x, y) or 'first' in (x, y):
            out[v] = 'loop'
        else:
            out[v] = why
    return out


class Assigned:
    """definite assignment of scalar locals and, for one object, of its scalar members (calls on the object are followed)"""
    def __init__(s, C, members=(), report=None):
        s.C, s.members, s.report = C, set(members), report
        s.stack, s.loops, s.file, s.fn = [], [], None, None
        s.rets = []
        s.when = {}
        s.depth = 0
        s.entry = {}
        s.atoms = []
        s.ptrs = set()

    def field(s, n):
        if n.get('k') == 'mem' and n.get('b', {}).get('k') == 'this':
            v = ('m', n['rc'] + '::' + n['n'])
            return v if v in s.members else None
        return None

    def key(s, n, S):
        if n.get('k') == 'var' and ('v', n.get('id')) in S:
            return ('v', n['id'])
        m = s.field(n)
        return m if m in S else None

    def read(s, v, n, S):
        """a read of a variable that may not be set; 'first' = not set before the first iteration of the current loop"""
        st = S.get(v, 'yes')
        if st == 'yes':
            return
        if st == 'first':
            st = 'no' if s.entry.get(v) == s.depth else 'loop'
        if st == 'if' and s.related(v):
            st = 'loop'
        s.report(v, st, n, s)
        S[v] = 'yes'

    def related(s, v):
        """some condition around the read has to do with the branch that set v"""
        w = s.when.get(v)
        return w is None or any(a & w for a in s.atoms)

    def names(s, n, out=None):
        out = set() if out is None else out
        if isinstance(n, list):
            for x in n:
                s.names(x, out)
        elif isinstance(n, dict):
            if n.get('k') == 'var':
                out.add(('v', n.get('id')))
            elif n.get('k') == 'mem':
                out.add(('m', n.get('n')))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    s.names(x, out)
        return out

    def under(s, c, f):
        s.depth += 1
        s.atoms.append(s.names(c))
        r = f()
        s.atoms.pop()
        s.depth -= 1
        return r

    def deref(s, n, S):
        """the pointer variable n dereferences, if it is one that is followed"""
        o = None
        if n.get('k') == 'call' and (n.get('q') or '').split('::')[-1] in ('operator->', 'operator*') and not n.get('repo'):
            o = n.get('obj') or ((n.get('args') or [None])[0] if len(n.get('args') or []) == 1 else None)
        elif n.get('k') == 'un' and n.get('op') == '*':
            o = n['e']
        while isinstance(o, dict) and o.get('k') == 'cast':
            o = o['e']
        if isinstance(o, dict):
            v = s.key(o, S)
            if v in s.ptrs:
                return v, o
        return None, None

    def exprs(s, n, S):
        if isinstance(n, list):
            for x in n:
                s.exprs(x, S)
            return
        if not isinstance(n, dict):
            return
        k = n.get('k')
        v, o = s.deref(n, S)
        if v is not None:
            s.read(v, o, S)
            return
        v = s.key(n, S)
        if v in s.ptrs:
            S[v] = 'yes'
            return
        if v is not None:
            s.read(v, n, S)
            return
        if k == 'asg':
            s.exprs(n['b'], S)
            v = s.key(n['a'], S)
            if v is None:
                s.exprs(n['a'], S)
            else:
                if n['op'] != '=':
                    s.read(v, n['a'], S)
                S[v] = 'yes'
            return
        if k == 'un' and n['op'] == '&':
            v = s.key(n['e'], S)
            if v is not None:
                S[v] = 'yes'
                return
        if k == 'bin' and n['op'] in ('&&', '||'):
            s.exprs(n['a'], S)
            S2 = dict(S)
            s.under(n['a'], lambda: s.exprs(n['b'], S2))
            S.update(merge(S, S2))
            return
        if k == 'cond':
            s.exprs(n['c'], S)
            S1, S2 = dict(S), dict(S)
            s.under(n['c'], lambda: (s.exprs(n['a'], S1), s.exprs(n['b'], S2)))
            S.update(merge(S1, S2))
            return
        if k == 'lambda':
            for v in S:
                if v[0] == 'v' and S[v] != 'yes':
                    S[v] = 'loop'
            return
        if k == 'call' and (n.get('q') or '').split('::')[-1] in ('operator=', 'reset') and not n.get('repo'):
            o = n.get('obj') or n['args'][0]
            v = s.key(o, S) if isinstance(o, dict) else None
            if v in s.ptrs:
                for a in n.get('args') or []:
                    if a is not o:
                        s.exprs(a, S)
                S[v] = 'yes'
                return
        if k in ('call', 'ctor'):
            if n.get('obj'):
                s.exprs(n['obj'], S)
            need = s.needs(n.get('f')) if k == 'call' and n.get('repo') else ()
            for i, a in enumerate(n.get('args') or []):
                x = a
                while isinstance(x, dict) and (x.get('k') == 'cast' or x.get('k') == 'ctor' and len(x.get('args') or []) == 1 and not x.get('repo')):
                    x = x['e'] if x['k'] == 'cast' else x['args'][0]
                v = s.key(x, S) if isinstance(x, dict) else None
                if v in s.ptrs and i in need:
                    s.read(v, x, S)
            test = (n.get('q') or '').split('::')[-1] in ('operator==', 'operator!=', 'operator bool', 'swap')
            pr = n.get('pr') or []
            late = []
            for i, a in enumerate(n.get('args') or []):
                v = s.key(a, S)
                byref = (pr[i] if i < len(pr) else 0) == 1
                if k == 'ctor':
                    pt = n.get('pt') or []
                    byref = i < len(pt) and '&' in pt[i] and not pt[i].startswith('const')
                x = a
                while isinstance(x, dict) and (x.get('k') == 'cast' or x.get('k') == 'ctor' and len(x.get('args') or []) == 1 and not x.get('repo')):
                    x = x['e'] if x['k'] == 'cast' else x['args'][0]
                if v is not None and byref:
                    late.append(v)
                elif not test and isinstance(x, dict) and s.key(x, S) in s.ptrs:
                    pass
                else:
                    s.exprs(a, S)
            for v in late:
                S[v] = 'yes'
            o = n.get('obj') or {}
            while o.get('k') == 'cast':
                o = o['e']
            if k == 'call' and o.get('k') == 'this' and s.members:
                s.enter(n.get('f'), S)
            return
        for kk, x in n.items():
            if isinstance(x, (dict, list)) and kk not in ('pr', 'targs'):
                s.exprs(x, S)

    def enter(s, key, S):
        g = s.C.P.functions.get(key)
        if g is None or g.get('b') is None or key in s.stack or len(s.stack) > 8:
            return
        s.stack.append(key)
        old = s.rets, s.loops, s.file, s.fn, s.ptrs
        s.ptrs = {v for v in s.ptrs if v[0] == 'm'}
        s.rets, s.loops, s.file, s.fn = [], [], g.get('file'), g
        S1 = {v: x for v, x in S.items() if v[0] == 'm'}
        end = s.stmt(g['b'], S1)
        for r in s.rets:
            end = merge(end, r)
        for v, x in (end or {}).items():
            if v[0] == 'm':
                S[v] = x
        s.rets, s.loops, s.file, s.fn, s.ptrs = old
        s.stack.pop()

    def mods(s, key, seen=None):
        """members a function and the functions it calls may assign"""
        seen = set() if seen is None else seen
        g = s.C.P.functions.get(key)
        if g is None or g.get('b') is None or key in seen:
            return set()
        seen.add(key)
        out = set()

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                k = n.get('k')
                tg = [n['a']] if k == 'asg' else [n['e']] if k == 'un' and n['op'] in ('++', '--', '&') else list(n.get('args') or []) + [n.get('obj') or {}] if k == 'call' else []
                for t in tg:
                    while t.get('k') == 'cast':
                        t = t['e']
                    if s.field(t):
                        out.add(s.field(t))
                if k == 'call' and n.get('f') in s.C.P.functions:
                    out.update(s.mods(n['f'], seen))
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        walk(x)
        walk(g['b'])
        return out

    def needs(s, key):
        """positions of the smart pointer parameters a function dereferences whenever it runs"""
        c = s.C.P.__dict__.setdefault('_needs', {})
        if key not in c:
            c[key] = ()
            g = s.C.P.functions.get(key)
            if g is not None and g.get('b') is not None:
                ids = {p['id']: i for i, p in enumerate(g['ps']) if smart(p['t'])}
                got = set()
                t = Assigned(s.C, (), lambda v, st, n, me: got.add(v) if st == 'no' and me.depth == 0 else None)
                t.ptrs = {('v', i) for i in ids}
                try:
                    t.run(g, {('v', i): 'no' for i in ids})
                except RecursionError:
                    pass
                c[key] = {ids[v[1]] for v in got}
        return c[key]

    def assigned(s, n, out=None):
        """variables an assignment, increment or reference argument inside n may set"""
        out = set() if out is None else out
        if isinstance(n, list):
            for x in n:
                s.assigned(x, out)
        elif isinstance(n, dict):
            k = n.get('k')
            tg = [n['a']] if k == 'asg' else [n['e']] if k == 'un' and n['op'] in ('++', '--', '&') else [a for i, a in enumerate(n.get('args') or []) if (n.get('pr') or [])[i:i + 1] == [1]] if k == 'call' else []
            for t in tg:
                if t.get('k') == 'var':
                    out.add(('v', t.get('id')))
                elif s.field(t):
                    out.add(s.field(t))
            if k == 'call' and (n.get('q') or '').split('::')[-1] in ('operator=', 'reset', 'swap') and n.get('obj'):
                tg = [n['obj']]
                for t in tg:
                    if t.get('k') == 'var':
                        out.add(('v', t.get('id')))
                    elif s.field(t):
                        out.add(s.field(t))
            if k == 'call' and s.members:
                out |= s.mods(n.get('f'))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    s.assigned(x, out)
        return out

    def loop(s, S, c, body, inc, first=False):
        if c and not first:
            s.exprs(c, S)
        mod = s.assigned([body, inc, c])
        s.depth += 1
        s.atoms.append(s.names(c))
        B = {v: ('first' if x in ('no', 'first') and v in mod and not first else 'loop' if x != 'yes' and v in mod and not first else x) for v, x in S.items()}
        keep = dict(s.entry)
        for v in B:
            if B[v] == 'first' and S[v] == 'no':
                s.entry[v] = s.depth
        s.loops.append(([], []))
        end = s.stmt(body, B)
        brk, cont = s.loops.pop()
        for x in cont:
            end = merge(end, x)
        s.depth -= 1
        s.atoms.pop()
        s.entry = keep
        if end is not None:
            if inc:
                s.exprs(inc, end)
            if c and first:
                s.exprs(c, end)
        if first:
            out = end
        elif c is None or c.get('k') == 'bool' and c.get('v'):
            out = None
        else:
            out = {v: (x if x == 'yes' or v not in mod else 'loop') for v, x in S.items()}
        for x in brk:
            out = merge(out, x, 'loop')
        if out is not None:
            out = {v: ('loop' if x == 'first' and not s.inloop(v) else x) for v, x in out.items()}
        return out

    def inloop(s, v):
        return s.entry.get(v, 0) and s.entry[v] <= s.depth

    def stmt(s, n, S):
        """state after the statement; None when it does not complete"""
        if S is None or not isinstance(n, dict):
            return S
        k = n.get('k')
        if k == 'block':
            for x in n['b']:
                S = s.stmt(x, S)
                if S is None:
                    # code after a jump inside a switch starts at its label
                    return None
            return S
        if k == 'decl':
            for v in n['vs']:
                if smart(v['t']) and not v.get('static') and (not v.get('init') or v['init'].get('k') == 'ctor' and not v['init'].get('args')):
                    S[('v', v['id'])] = 'no'
                    s.ptrs.add(('v', v['id']))
                elif v.get('init'):
                    s.exprs(v['init'], S)
                elif scalar(v['t']) and not v.get('static'):
                    S[('v', v['id'])] = 'no'
            return S
        if k == 'if':
            s.exprs(n['c'], S)
            S1, S2 = dict(S), dict(S)
            a = s.under(n['c'], lambda: s.stmt(n['t'], S1))
            b = s.under(n['c'], lambda: s.stmt(n['e'], S2)) if n.get('e') else S2
            if a is None and b is None:
                return None
            r = merge(a, b)
            for v in r:
                if r[v] == 'if' and S.get(v) != 'if':
                    s.when[v] = s.names([n['c']]) | s.assigned([n['t'], n.get('e') or {}]) - {v}
                    s.when[v] |= {('m', x[1].split('::')[-1]) for x in s.when[v] if x[0] == 'm'}
            return r
        if k == 'for':
            if n.get('init'):
                S = s.stmt(n['init'], S) if n['init'].get('k') in ('decl', 'block', 'expr') else (s.exprs(n['init'], S), S)[1]
            return s.loop(S, n.get('c'), n['b'], n.get('inc'))
        if k == 'while':
            return s.loop(S, n['c'], n['b'], None)
        if k == 'do':
            return s.loop(S, n['c'], n['b'], None, True)
        if k == 'rfor':
            s.exprs(n['r'], S)
            return s.loop(S, {'k': 'nothing'}, n['b'], None)
        if k == 'switch':
            s.exprs(n['c'], S)
            items = n['b']['b'] if n['b'].get('k') == 'block' else [n['b']]
            s.depth += 1
            s.atoms.append(s.names(n['c']))
            dflt = any(x.get('k') == 'default' for x in items)
            s.loops.append(([], s.loops[-1][1] if s.loops else []))
            cur = None
            for x in items:
                while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                    cur = merge(cur, dict(S), 'loop')
                    x = x.get('b')
                cur = s.stmt(x, cur)
            brk, _ = s.loops.pop()
            s.depth -= 1
            s.atoms.pop()
            out = cur
            for x in brk:
                out = merge(out, x)
            if not dflt:
                out = merge(out, dict(S), 'loop')
            return out
        if k == 'ret':
            if n.get('e'):
                s.exprs(n['e'], S)
            s.rets.append(dict(S))
            return None
        if k in ('break', 'continue'):
            if s.loops:
                s.loops[-1][0 if k == 'break' else 1].append(dict(S))
            return None
        if k == 'expr':
            s.exprs(n['e'], S)
            e = n['e']
            return None if isinstance(e, dict) and e.get('k') == 'throw' else S
        if k == 'try':
            return {v: ('loop' if x != 'yes' else x) for v, x in s.stmt(n['b'], dict(S)).items()} if s.stmt(n['b'], dict(S)) else S
        s.exprs(n, S)
        return S

    def run(s, f, S):
        s.file, s.fn = f.get('file'), f
        for i in f.get('inits') or []:
            if i.get('base') or i.get('deleg'):
                g = s.C.P.functions.get((i.get('e') or {}).get('f'))
                s.exprs((i['e'] or {}).get('args') or [], S)
                if g is not None and i['e'].get('repo') and g.get('b') is not None and g['key'] not in s.stack:
                    s.stack.append(g['key'])
                    sub = {v: x for v, x in S.items() if v[0] == 'm'}
                    old = s.rets, s.fn
                    s.rets = []
                    end = s.run(g, sub)
                    S.update(end or {})
                    s.rets, s.fn = old
                    s.stack.pop()
                continue
            if i.get('e') is not None:
                e = i['e']
                if e.get('k') == 'ctor' and not e.get('args') and scalar(i.get('ft') or ''):
                    pass
                s.exprs(e, S)
            if i.get('field'):
                for v in list(S):
                    if v[0] == 'm' and v[1] == (f.get('cls') or '') + '::' + i['field']:
                        S[v] = 'yes'
        end = s.stmt(f['b'], S)
        for r in s.rets:
            end = merge(end, r)
        return end


def src(C):
    for k, f in sorted(C.P.functions.items()):
        if f.get('b') is not None and not f.get('implicit') and not f.get('defaulted') and (f.get('file') or '').startswith(os.path.join(frontend.REPO, 'src')):
            yield k, f


def bases(P, c):
    out = [c]
    for b in (P.records.get(c) or {}).get('bases', []):
        out += bases(P, b if isinstance(b, str) else b.get('t'))
    return out


def rule_locals(C):
    """every scalar local is assigned on every path before it is read (definite assignment over the statement tree)"""
    n = 0
    for k, f in src(C):
        rep = []
        s = Assigned(C, (), lambda v, st, node, me: rep.append((v, st, node)))
        try:
            s.run(f, {})
        except RecursionError:
            C.und('local.' + k, 'statement too deep', C.where(f))
            continue
        n += 1
        if not rep:
            C.ok('local.' + k, 'no local is read before it is assigned', C.where(f))
        for v, st, node in rep:
            w = '%s:%s' % (frontend.rel(f.get('file') or ''), node.get('l'))
            oid = 'local.%s.%s' % (k, node.get('n'))
            if st in ('no', 'if'):
                C.bad(oid, "%s reads '%s' %s" % (f['q'].replace(NS, '').replace('lpaggreg::', ''), node.get('n'), 'which was never assigned' if st == 'no' else 'which only one branch of an earlier condition assigned'), w)
            else:
                C.und(oid, "'%s' is assigned inside a loop or a correlated branch only" % node.get('n'), w)


def rule_members(C):
    """a scalar member some constructor leaves unset is read by no operation before one sets it"""
    P = C.P
    fs = dict(src(C))
    allf = {k: f for k, f in P.functions.items() if (f.get('file') or '').startswith(os.path.join(frontend.REPO, 'src'))}
    pub = declared(C)
    for c, r in sorted(P.records.items()):
        if not c.startswith(NS):
            continue
        mem = []
        for b in bases(P, c):
            for fl in (P.records.get(b) or {}).get('fields', []):
                if scalar(fl['t']) and not fl.get('init') and not fl.get('static'):
                    mem.append(('m', b + '::' + fl['n']))
        if not mem:
            continue
        ctors = [f for k, f in allf.items() if f.get('cls') == c and f.get('ctor') and f.get('b') is not None and not f.get('copy') and not f.get('move')]
        unset = {}
        for f in ctors:
            rep = []
            s = Assigned(C, mem, lambda v, st, node, me: rep.append((v, st, node, me.fn)))
            end = s.run(f, {m: 'no' for m in mem})
            for v, st, node, g in rep:
                if v[0] != 'm':
                    continue
                w = '%s:%s' % (frontend.rel((g or f).get('file') or ''), node.get('l'))
                oid = 'member.%s.%s' % (f['key'], v[1].split('::')[-1])
                if st in ('no', 'if'):
                    C.bad(oid, 'the constructor of %s reads its member %s before setting it' % (c.replace(NS, ''), v[1].split('::')[-1]), w)
                else:
                    C.und(oid, 'member %s is set inside a loop before it is read' % v[1], w)
            for m in mem:
                st = (end or {}).get(m, 'yes')
                if st != 'yes':
                    unset.setdefault(m, []).append((f, st))
        # what each operation reads before setting it
        firstread = {}
        for k, f in fs.items():
            if f.get('cls') not in bases(P, c) + P.derived(c) or f.get('ctor') or f.get('static') or f.get('dtor'):
                continue
            if k not in pub:
                continue
            rep = []
            s = Assigned(C, mem, lambda v, st, node, me: rep.append((v, st, node, me.fn)))
            s.run(f, {m: 'no' for m in mem})
            for v, st, node, g in rep:
                if v[0] == 'm' and st in ('no', 'if', 'loop'):
                    firstread.setdefault(v, []).append((f, node, g))
        for m in mem:
            nm = m[1].replace(NS, '')
            oid = 'member.%s.%s' % (c, m[1].split('::')[-1])
            if m not in unset:
                C.ok(oid, 'every constructor of %s sets %s' % (c.replace(NS, ''), nm))
            elif m not in firstread:
                C.ok(oid, '%s may stay unset but no operation of %s reads it' % (nm, c.replace(NS, '')))
            else:
                f, st = unset[m][0]
                g, node, gg = firstread[m][0]
                if st == 'loop':
                    C.und(oid, '%s is set inside a loop of the constructor only' % nm, C.where(f))
                else:
                    C.bad(oid, '%s is left unset by a constructor of %s (line %s) and read by %s (line %s)' % (nm, c.replace(NS, ''), f.get('l'), g['q'].replace(NS, ''), node.get('l')), C.where(f))


def isptrtype(t):
    t = strip(t)
    return t.endswith('*') or t.startswith(('std::shared_ptr<', 'std::unique_ptr<'))


def rule_null(C):
    """no null object is dereferenced: members a constructor leaves null are only used behind a test; locals and elements hold an object when used"""
    P = C.P
    pub = declared(C)
    ops = [(f, op) for f, rec, op in analysed(C) if not isinstance(op, str)]
    seen = set()
    for f, op in ops:
        bad = [(e, ls) for e, ls in op.flat if e.kind == 'nullderef']
        for e, ls in bad:
            site = '%s:%s' % (frontend.rel(getattr(e, 'file', None) or f.get('file') or ''), e.line)
            oid = 'null.%s' % site
            if (oid, 'bad') in seen or op.I.entails(list(conj(e.guard)), F):
                continue
            seen.add((oid, 'bad'))
            c = getattr(e, 'cond', None)
            if c is not None and (hasunk(c) or any(n[0] in ('in', 'fin', 'retin', 'Lx', 'undef') for n in nodes(c))):
                C.und(oid, 'a pointer that may be null is dereferenced: condition not modelled', site)
            else:
                C.bad(oid, '%s dereferences a null pointer%s' % (f['q'].replace(NS, ''), '' if c is None else ' when ' + show(c)[:160]), site)
        if not bad:
            C.ok('null.' + f['key'], 'no null pointer is dereferenced', C.where(f))
    # members left null by a constructor
    for c, r in sorted(P.records.items()):
        if not c.startswith(NS):
            continue
        fields = [fl for fl in r.get('fields', []) if isptrtype(fl['t'])]
        if not fields:
            continue
        nul = {}
        for g in P.functions.values():
            if g.get('cls') != c or not g.get('ctor') or g.get('b') is None or g.get('implicit') or g.get('copy') or g.get('move') or g['key'] not in pub:
                continue
            for fl in fields:
                I = C.interp(('utm',), opaque=opaquectx(C, g))
                try:
                    I.call(g['key'], this=('obj', 1), cls=c)
                    loc = ('fld', ('obj', 1), c + '::' + fl['n'])
                    v = I.load(loc, fl['t'])
                    if isinstance(v, LV):
                        v = I.rv(v)
                except Undecided:
                    v = None
                v = v[1] if isinstance(v, tuple) and v and v[0] == 'copy' else v
                init = next((i for i in g.get('inits') or [] if i.get('field') == fl['n']), None)
                if v == ('null',) or v == ('ldp', loc, 0) and (init is None or not init.get('written')):
                    nul.setdefault(fl['n'], []).append(g)
        for n, gs in sorted(nul.items()):
            F_ = ('fld', ('this',), c + '::' + n)
            setters = [f for f, op in ops if f.get('cls') in [c] + P.derived(c) and not f.get('ctor') and not f['ps'] and any(e.kind in ('write', 'copy', 'copyobj', 'init') and e.loc == F_ for e, _ in op.flat)]
            oid = 'nullmember.%s.%s' % (c, n)
            if setters:
                C.ok(oid, '%s is created by %s before results are asked for' % (n, setters[0]['q'].replace(NS, '')))
                continue
            done = False
            for f, op in ops:
                if f.get('cls') not in [c] + P.derived(c) or f.get('ctor'):
                    continue
                for e, ls in op.flat:
                    ts = [e.loc, e.val] + list(getattr(e, 'args', None) or [])
                    if not any(x == ('deref', ('ldp', F_, 0)) for t in ts if isinstance(t, tuple) for x in deepterms(t)):
                        continue
                    g = list(conj(e.guard))
                    for L in ls:
                        g += conj(L.guard)
                    isn = ('bat', ('isnull', ('ldp', F_, 0)))
                    if any(b_not(x) == isn or x == ('not', isn) for x in g) or op.I.entails(g, b_not(isn)):
                        continue
                    site = '%s:%s' % (frontend.rel(getattr(e, 'file', None) or f.get('file') or ''), e.line)
                    C.bad(oid, '%s uses the object behind %s without a test although a constructor (line %s) leaves it null' % (f['q'].replace(NS, ''), n, gs[0].get('l')), site)
                    done = True
                    break
                if done:
                    break
            if not done:
                C.ok(oid, 'the operations test %s, which a constructor leaves null, before using it' % n)


def envs():
    for tr in TREES:
        for nn in (1, 2, 3):
            e = {'tree': tr, single(H): Fraction(len(tr[1])), single(L): Fraction(tr[0]), single(R): Fraction(tr[1].index(-1)), single(N): Fraction(nn), single(V): Fraction(2), single(DI): Fraction(2), single(DJ): Fraction(2), single(DK): Fraction(2)}
            e[single(PL)] = Fraction(nn - 1)
            yield e


class Cannot(Exception):
    pass


def holds(op, guard, e):
    """a path condition at a small input, pointers being set"""
    for b in conj(guard):
        n = b[1] if b[0] == 'not' else b
        if n[0] == 'bat' and n[1][0] == 'isnull':
            if b[0] == 'bat':
                return False
            continue
        b = op.term(b)
        v = evb(b, e)
        if v is None:
            raise Cannot()
        if not v:
            return False
    return True


def indices(op, ls, guard, ix, env):
    """values an index takes over the loops around it at a small input"""
    out = set()
    def go(k, e):
        if k == len(ls):
            if not holds(op, guard, e):
                return
            v = ev(op.term(ix), e)
            if v is None:
                raise Cannot()
            out.add(v)
            return
        Lp = ls[k]
        if Lp.lo is None or Lp.hi is None or Lp.ivatom is None or Lp.exits:
            raise Cannot()
        lo, hi = ev(op.term(Lp.lo), e), ev(op.term(Lp.hi), e)
        if lo is None or hi is None:
            raise Cannot()
        if not holds(op, Lp.guard, e):
            return
        iv = Lp.ivatom if not is_poly(Lp.ivatom) else single(Lp.ivatom)
        for x in range(int(lo), int(hi) + 1):
            go(k + 1, {**e, iv: Fraction(x)})
    go(0, env)
    return out


def rule_elements(C):
    """a container made with empty pointer elements has every element that is used filled first"""
    for f, rec, op in analysed(C):
        if isinstance(op, str):
            continue
        for e0, l0 in op.flat:
            if e0.kind != 'init' or e0.val != ('null',) or getattr(e0, 'size', None) is None or e0.loc is None:
                continue
            X = op.I.canon(e0.loc)
            w = C.evwhere(e0)
            oid = 'elements.%s.%s' % (f['key'], e0.line)
            fills, uses, after = [], [], False
            for e, ls in op.flat:
                after = after or e is e0
                if not after:
                    continue
                if e.kind == 'write' and e.loc and e.loc[0] in ('idx', 'at') and len(e.loc) == 3 and op.I.canon(e.loc[1]) == X and e.val != ('null',):
                    fills.append((e, ls, e.loc[2]))
                    continue
                for t in [e.loc, e.val] + list(getattr(e, 'args', None) or []):
                    if not isinstance(t, tuple):
                        continue
                    for x in deepterms(t):
                        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'deref' and isinstance(x[1], tuple) and x[1][0] == 'ldp' and isinstance(x[1][1], tuple) and x[1][1][0] in ('idx', 'at') and op.I.canon(x[1][1][1]) == X:
                            uses.append((e, ls, x[1][1][2]))
            outer = l0
            bad = None
            try:
                for env in envs():
                    if outer:
                        raise Cannot()
                    got = set()
                    for e, ls, ix in fills:
                        got |= indices(op, ls, e.guard, ix, env)
                    for e, ls, ix in uses:
                        try:
                            u = indices(op, [l for l in ls], e.guard, ix, env)
                        except Cannot:
                            continue
                        if u - got:
                            bad = (e, env, min(u - got))
                            break
                    if bad is None and X[0] in ('fld', 'new'):
                        n = ev(op.term(e0.size), env)
                        if n is None:
                            raise Cannot()
                        m = {Fraction(i) for i in range(int(n))} - got
                        if m:
                            bad = (e0, env, min(m))
                    if bad:
                        break
            except Cannot:
                C.und(oid, 'the elements filled are not modelled', w)
                continue
            if bad:
                e, env, i = bad
                C.bad(oid, '%s leaves element %s of the %scontainer made on line %s empty and uses it on line %s, for example with %d of %d nodes as leaves and length %s' % (f['q'].replace(NS, ''), i, '' if X[0] == 'var' else 'resulting ', e0.line, e.line, env['tree'][0], len(env['tree'][1]), env[single(N)]), w)
            else:
                C.ok(oid, '%d stores fill every element' % len(fills), w)


def opaquectx(C, g):
    from .r_mem import opaques
    return opaques(C, g, False)


def deepterms(t, seen=None):
    """sub-terms, looking through polynomial atoms"""
    out = list(subterms(t))
    for n in nodes(t):
        out.append(n)
        out += list(subterms(n))
    return out


CPPCHECK = {'invalidContainer', 'invalidContainerLoop', 'invalidContainerReference', 'eraseDereference', 'mismatchingContainers', 'mismatchingContainerIterator', 'iterators1', 'iterators2', 'iterators3',
            'danglingLifetime', 'returnDanglingLifetime', 'danglingTemporaryLifetime', 'danglingReference', 'returnReference', 'returnTempReference', 'danglingTempReference', 'uninitvar', 'legacyUninitvar', 'uninitdata', 'uninitStructMember',
            'nullPointer', 'nullPointerOutOfMemory', 'deallocuse', 'doubleFree', 'arrayIndexOutOfBounds', 'containerOutOfBounds', 'negativeContainerIndex', 'stlOutOfBounds', 'autoVariables', 'invalidIterator1', 'invalidPointer'}


def rule_iterators(C):
    """no iterator, reference or pointer is used after the container it belongs to was changed (lifetime dataflow of cppcheck over every source file)"""
    exe = shutil.which('cppcheck')
    if not exe:
        C.und('iterators', 'cppcheck not installed')
        return
    root = os.path.join(frontend.REPO, 'src', 'lpaggreg')
    cmd = [exe, '--std=c++11', '--language=c++', '-q', '-j', '4', '--template={file}|{line}|{id}|{severity}|{inconclusive:inc}|{message}', '-I', os.path.join(root, 'headers'), os.path.join(root, 'sources')]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        C.und('iterators', 'cppcheck did not finish')
        return
    files = sorted(x for x in os.listdir(os.path.join(root, 'sources')) if x.endswith('.cpp'))
    hit = set()
    for l in r.stderr.splitlines():
        p = l.split('|')
        if len(p) < 6 or p[3] != 'error' or p[4] or p[2] not in CPPCHECK:
            continue
        w = '%s:%s' % (frontend.rel(p[0]), p[1])
        hit.add(os.path.basename(p[0]))
        C.bad('iterators.%s.%s' % (p[2], w), p[5], w)
    for x in files:
        if x not in hit:
            C.ok('iterators.' + x, 'no use of an invalidated iterator, reference or pointer')


RULES = {'C25': [rule_locals, rule_members, rule_null, rule_elements, rule_iterators]}
