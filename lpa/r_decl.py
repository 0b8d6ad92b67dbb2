"""C24: every declared operation is usable in every configuration."""
import os, re, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from .core import *
from .r_small import PARTS, cmpform, opfun, bjudge, neg

SRC = 'src/lpaggreg'


def configurations(C):
    """the default configuration and one per macro that selects between code alternatives"""
    if not hasattr(C.P, '_configs'):
        ms = set()
        root = os.path.join(frontend.REPO, SRC)
        for d, _, fs in os.walk(root):
            for fn in fs:
                if not fn.endswith(('.h', '.hpp', '.cpp', '.cc', '.cxx')):
                    continue
                txt = open(os.path.join(d, fn), errors='replace').read()
                guards = set(re.findall(r'^\s*#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+\1\b', txt, re.M))
                for l in re.findall(r'^\s*#\s*(?:ifdef|ifndef|if|elif)\b(.*)$', txt, re.M):
                    for w in re.findall(r'[A-Za-z_]\w*', re.sub(r'//.*|/\*.*', '', l)):
                        if w not in guards and not w.startswith('_') and w not in ('defined', 'if', 'ifdef') and not re.match(r'NDEBUG$|WIN32$|R_|Rcpp', w):
                            ms.add(w)
        C.P._configs = [()] + [('-D' + m,) for m in sorted(ms)]
    return C.P._configs


def documented(cfg):
    """the headers offer the macro as an option (a definition, possibly commented out)"""
    txt = ''.join(open(h, errors='replace').read() for h in glob.glob(os.path.join(frontend.REPO, SRC, 'headers', '*')))
    return all(re.search(r'#\s*define\s+%s\b' % x[2:], txt) or x[2:] == 'PARTITION_COMPARE_QUALITY' for x in cfg)


def cname(cfg):
    return 'default' if not cfg else '+'.join(x[2:] for x in cfg)


def program(C, cfg):
    if not cfg:
        return C.P
    c = C.P.__dict__.setdefault('_cfgprog', {})
    if cfg not in c:
        try:
            c[cfg] = frontend.load(cfg)
        except frontend.FrontendError as e:
            c[cfg] = e
    return c[cfg]


def ir_defines(C, cfg):
    """name -> (linkage words, unit) of every function the library's units emit"""
    out, errs = {}, []
    d = tempfile.mkdtemp(prefix='lpair.')
    try:
        def job(x):
            i, (fn, args) = x
            o = os.path.join(d, '%d.ll' % i)
            r = subprocess.run(['clang++', '-S', '-emit-llvm', '-O0', '-fPIC', '-w', fn, '-o', o] + [a for a in args if not a.startswith('-O')] + list(cfg), capture_output=True, text=True)
            return fn, o, r
        with ThreadPoolExecutor(8) as ex:
            for fn, o, r in ex.map(job, enumerate(C.P.cc)):
                if r.returncode:
                    e = [l for l in r.stderr.splitlines() if 'error' in l]
                    errs.append((fn, e[0] if e else r.stderr[-300:]))
                    continue
                for l in open(o):
                    m = re.match(r'^(?:define|@"?[\w.$]+"? = .*\balias\b)(.*)$', l)
                    if not m:
                        continue
                    if l.startswith('define'):
                        m = re.match(r'^define (.*?)@"?([\w.$]+)"?\(', l)
                        if m:
                            out.setdefault(m.group(2), []).append((m.group(1), fn))
                    else:
                        m = re.match(r'^@"?([\w.$]+)"? = (.*?)\balias\b', l)
                        out.setdefault(m.group(1), []).append((m.group(2), fn))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out, errs


def variants(k):
    """constructors and destructors are emitted under several mangled names"""
    out = [k]
    for a, b in (('C1', 'C2'), ('C2', 'C1'), ('D1', 'D2'), ('D2', 'D1'), ('D0', 'D1'), ('D0', 'D2')):
        for m in re.finditer(a + 'E', k):
            out.append(k[:m.start()] + b + k[m.start() + 2:])
    return out


def exported(defs, k):
    for v in variants(k):
        for l, fn in defs.get(v, ()):
            ws = l.split()
            if 'internal' in ws or 'private' in ws or 'available_externally' in ws or 'hidden' in ws:
                continue
            return True
    return False


def rule_defined(C):
    """each operation declared in an installed header is emitted by the library's units under its mangled name, in every configuration"""
    for cfg in configurations(C):
        cn = cname(cfg)
        P = program(C, cfg)
        if isinstance(P, Exception):
            (C.bad if documented(cfg) else C.und)('compiles.' + cn, 'the library does not compile with %s: %s' % (cn, str(P).split('error:')[-1].strip()[:300]), re.search(r'(src/\S+?\.\w+:\d+)', str(P)).group(1) if re.search(r'(src/\S+?\.\w+:\d+)', str(P)) else None)
            continue
        defs, errs = ir_defines(C, cfg)
        for fn, e in errs:
            (C.bad if documented(cfg) else C.und)('compiles.' + cn, 'does not compile: ' + e[:300], frontend.rel(fn))
        if not errs:
            C.ok('compiles.' + cn, '%d units compile' % len(P.cc))
        n = 0
        inline = {d['f'] for d in P.decls if d['body'] and '/headers/' in d['file']}
        used = set()
        for f in P.functions.values():
            used |= P.callees(f['key'])
        seen = set()
        spec = specialised(P)
        for d in P.decls:
            if '/headers/' not in (d.get('file') or '') or d.get('impl') or d.get('del') or d.get('pure') or d.get('lambda') or d['f'] in seen or d['f'] in inline:
                continue
            if d.get('dflt'):
                continue
            if d.get('inst') == 1 and d.get('cls') not in spec:       # implicit instantiation of a member
                continue
            if d.get('internal'):
                continue
            seen.add(d['f'])
            one(C, defs, d['f'], d['q'], cn, '%s:%s' % (frontend.rel(d['file']), d['l']))
        for c in spec:
            r = P.records[c]
            for m in r.get('methods', []):
                if m.get('user') and not m.get('pure') and m['f'] not in seen and m['f'] not in inline:
                    seen.add(m['f'])
                    one(C, defs, m['f'], c + '::' + m['n'], cn, '%s:%s' % (frontend.rel(r['file']), r['l']))
        C.functions |= {q for q in ()}


def specialised(P):
    """class template specialisations a user may use: those whose members a header specialises or whose type a header's interface names"""
    out = set()
    keys = {d['f'] for d in P.decls if '/headers/' in (d.get('file') or '') and d.get('inst') == 2}
    named = set()
    for d in P.decls:
        if '/headers/' in (d.get('file') or '') and not d.get('impl'):
            named.add(d.get('t') or '')
    for r in P.records.values():
        for f in r.get('fields', []):
            named.add(f['t'])
    for c, r in P.records.items():
        if '<' not in c or '/src/' not in (r.get('file') or '') and '/headers/' not in (r.get('file') or ''):
            continue
        if any(m['f'] in keys for m in r.get('methods', [])) or any(c in t for t in named):
            out.add(c)
    return out


def one(C, defs, k, q, cn, w):
    if exported(defs, k):
        C.ok('defined.%s.%s' % (cn, k), q, w)
    elif any(v in defs for v in variants(k)):
        C.bad('defined.%s.%s' % (cn, k), '%s is declared for users but defined with local visibility only (%s)' % (q, cn), w)
    else:
        near = [x for x in defs if re.sub(r'\W', '', q.split('::')[-1]) and ('%d%s' % (len(q.split('::')[-1]), q.split('::')[-1])) in x][:2]
        C.bad('defined.%s.%s' % (cn, k), '%s is declared here but no unit of the library defines it (%s)%s' % (q, cn, '; similar definitions: ' + ', '.join(near) if near else ''), w)


def rule_headers(C):
    """each installed header compiles on its own, also when included twice"""
    root = os.path.join(frontend.REPO, SRC, 'headers')
    hs = sorted(glob.glob(os.path.join(root, '*.h')))
    args = next((a for f, a in C.P.cc), [])
    d = tempfile.mkdtemp(prefix='lphdr.')
    try:
        def job(x):
            h, cfg = x
            s = os.path.join(d, '%s.%s.cpp' % (os.path.basename(h), cname(cfg)))
            open(s, 'w').write('#include "%s"\n#include "%s"\n' % (os.path.basename(h), os.path.basename(h)))
            r = subprocess.run(['clang++', '-fsyntax-only', '-w', s] + args + list(cfg), capture_output=True, text=True)
            return h, cfg, r
        with ThreadPoolExecutor(8) as ex:
            for h, cfg, r in ex.map(job, [(h, c) for h in hs for c in configurations(C)]):
                oid = 'header.%s.%s' % (cname(cfg), os.path.basename(h))
                if r.returncode:
                    e = [l for l in r.stderr.splitlines() if 'error' in l]
                    C.bad(oid, 'the header does not compile on its own: %s' % (e[0] if e else r.stderr[-200:])[:300].replace(d, ''), frontend.rel(h))
                else:
                    C.ok(oid, 'self-contained', frontend.rel(h))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rule_concrete(C):
    """classes meant to be created leave no operation abstract"""
    P = C.P
    for c, r in sorted(P.records.items()):
        if '/headers/' not in (r.get('file') or '') or P.derived(c):
            continue
        ctors = [m for m in r.get('methods', []) if m.get('ctor') and m.get('user') and m.get('acc') == 0]
        if not ctors:
            continue
        w = '%s:%s' % (frontend.rel(r['file']), r['l'])
        pure = {}
        for b in reversed(P.bases(c)):
            step(P, b, pure)
        step(P, c, pure)
        if pure:
            C.bad('concrete.' + c, '%s has public constructors but leaves %s abstract, so it cannot be created' % (c, ', '.join(sorted(pure.values()))), w)
        else:
            C.ok('concrete.' + c, 'no abstract operation left', w)


def step(P, b, pure):
    for m in P.records.get(b, {}).get('methods', []):
        for o in m.get('over', []):
            pure.pop(o, None)
        if m.get('pure'):
            pure[m['f']] = '%s::%s' % (b, m['n'])


def rule_quality_equality(C):
    """compiled to compare partitions by quality, partition equality is equality of the partitions' quality values"""
    for cfg in configurations(C):
        if cname(cfg) != 'PARTITION_COMPARE_QUALITY':
            continue
        P = program(C, cfg)
        if isinstance(P, Exception):
            continue              # reported by rule_defined
        D = Ctx(P)
        D.cur = C.cur
        qc = D.cls('Quality')
        for pn in PARTS:
            c = D.cls(pn)
            r, I, f = cmpform(D, c, '==')
            w = D.where(f)
            qs = []
            for i in (0, 1):
                p = I.call(D.meth(c, 'getQuality', 0)['key'], this=('arg', i), cls=c)
                o = I.deref(p, qc)
                qs.append(LV(I.canon(o.loc), qc) if isinstance(o, LV) else None)
            if None in qs:
                D.und('equality.' + pn, 'quality not modelled', w)
                continue
            g = opfun(D, qc, '==')
            want = I.call(g['key'], args={0: qs[0], 1: qs[1]})
            bjudge(D, I, 'equality.' + pn, r, want, 'equality by quality', w)
            neg(D, c, r) if r is not None and is_bool(r) else None
        C.obs += D.obs
        C.functions |= D.functions


RULES = {'C24': [rule_defined, rule_headers, rule_concrete, rule_quality_equality]}
