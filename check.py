#!/usr/bin/env python3
"""check.py <property> [thorough]: decides one property from the source of /repo's current working tree (nothing is executed)."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lpa import frontend, registry, core
from lpa.core import Ctx, Anchor, Undecided

HERE = os.path.dirname(os.path.abspath(__file__))
TIER = 'thorough' if 'thorough' in sys.argv[2:] else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def known():
    out = []
    f = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((d.get('property'), d.get('obligation'), l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ''))
    return out


def run(prop, P, rules):
    C = Ctx(P)
    C.tier = TIER
    for r in rules:
        C.cur = r.__name__
        try:
            r(C)
        except Anchor as e:
            C.und('anchor', 'public name not found: %s' % e)
        except Undecided as e:
            C.und('model', str(e))
        except RecursionError as e:
            C.und('model', 'term too deep')
        except Exception as e:
            C.und('model', 'rule stopped: %s: %s' % (type(e).__name__, e))
            C.obs[-1]['detail'] = traceback.format_exc()[-1500:]
    return C


def more_configurations(C, prop, rules, configs):
    """the same rules on the program of every other documented configuration"""
    from lpa import r_decl
    if prop in ('C21', 'C24'):
        return                       # their rules go through the configurations themselves
    for cfg in r_decl.configurations(C)[1:]:
        if not r_decl.documented(cfg) or time.time() > C.end - 200:
            continue
        P = r_decl.program(C, cfg)
        if isinstance(P, Exception):
            continue
        D = run(prop, P, rules)
        configs.append(r_decl.cname(cfg))
        for o in D.obs:
            o['id'] += '@' + r_decl.cname(cfg)
        C.obs += D.obs
        C.functions |= D.functions


def main():
    prop = sys.argv[1]
    t0 = time.time()
    allrules = registry.load()
    if prop not in allrules:
        print('no rule for', prop)
        return 2
    rules = allrules[prop]
    try:
        P = frontend.load()
    except frontend.FrontendError as e:
        print('ERROR frontend: %s' % e)
        return 2
    if TIER == 'thorough':
        core.ONE_LIMIT, core.ALL_LIMIT = 400, 800
    C = run(prop, P, rules)
    configs = ['default']
    if TIER == 'thorough':
        more_configurations(C, prop, rules, configs)
    bad = [o for o in C.obs if o['status'] == 'violation']
    und = [o for o in C.obs if o['status'] == 'undecided']
    ok = [o for o in C.obs if o['status'] == 'ok']
    kn = known()
    hits, news = [], []
    for o in bad:
        k = [x for x in kn if x[0] == prop and x[1] == o['id']]
        (hits if k else news).append(o)
    for o in hits:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, o['id'], o['msg']))
    for o in und:
        print('UNDECIDED %s/%s %s: %s' % (o['rule'], o['id'], o['where'] or '', o['msg'][:300]))
    level = 'other'
    ev = {
        'property': prop, 'tier': TIER, 'seed': SEED, 'level': level,
        'coverage': {
            'explanation': 'static analysis of the source of /repo (clang AST of every unit under src/, abstract interpretation into canonical symbolic effect traces, then the rules listed); nothing is executed',
            'rules': sorted(set(o['rule'] for o in C.obs)),
            'rule_doc': {r.__name__: (r.__doc__ or '').strip() for r in rules},
            'configurations': configs, 'units': len(P.units), 'functions_extracted': len(P.functions),
            'functions_analysed': sorted(C.functions), 'functions_analysed_count': len(C.functions),
            'obligations': len(C.obs), 'discharged': len(ok), 'undecided': len(und),
            'undecided_list': [{k: o[k] for k in ('rule', 'id', 'where', 'msg')} for o in und][:50],
            'samples': [{k: o[k] for k in ('rule', 'id', 'where', 'msg')} for o in (ok[:6] + ok[-6:])],
            'known_findings_hit': len(hits),
        },
        'assumptions': ['real arithmetic is used for equality of numeric terms (rounding is the subject of C26 only)',
                        'C++ standard library containers behave as specified'],
        'violations': len(news), 'wall_s': round(time.time() - t0, 2),
    }
    evd = os.environ.get('LPA_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%.1fs)' % (prop, len(C.obs), len(ok), len(und), len(bad), time.time() - t0))
    if news:
        rp = os.path.join(evd, prop + '.violation.json')
        json.dump(news, open(rp, 'w'), indent=1)
        for o in news[:20]:
            print('  %s/%s at %s: %s' % (o['rule'], o['id'], o['where'], o['msg'][:500]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
