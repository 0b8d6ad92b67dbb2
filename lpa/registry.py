"""Which rules decide which property."""
import importlib, os

MODULES = ['r_values', 'r_small', 'r_utm', 'r_meta', 'r_quality', 'r_norm', 'r_part', 'r_dp', 'r_sweep', 'r_query', 'r_agg', 'r_effects', 'r_decl', 'r_prec', 'r_mem', 'r_init', 'r_rcpp', 'r_width', 'r_own', 'r_copy']


def load():
    out = {}
    here = os.path.dirname(os.path.abspath(__file__))
    for m in MODULES:
        if not os.path.exists(os.path.join(here, m + '.py')):
            continue
        M = importlib.import_module('lpa.' + m)
        for p, rs in M.RULES.items():
            out.setdefault(p, [])
            for r in rs:
                if r not in out[p]:
                    out[p].append(r)
    return out
