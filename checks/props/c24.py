"""C24: feature flags and debug assertions do not change behaviour."""
import re
from core import *
from props.canon import Canon

LEVEL = 'translation_validation'
RULE = ('the optimisation-free MIR of every function is rendered independently of numbering and compared between the default '
        'configuration and each other one (no features, serialize only, all features, debug assertions off); only functions '
        'of Debug / Serialize implementations may exist in one configuration alone, and every configuration must compile')
TRUSTED = ['rustc (MIR construction)', 'dependencies behave the same under their own features']
CONFIGS = ['none', 'serialize', 'all', 'noassert']
EXEMPT = re.compile(r' as std::fmt::Debug>|serde')


def bodies(P):
    C = Canon(P)
    out = {}
    for x in P.insts:
        if x['local'] and x['body'] and not EXEMPT.search(x['n']):
            out.setdefault(x['n'], []).append((C.body(x['body']), x))
    for g in P.generic:
        if EXEMPT.search(g['n']):
            continue
        out.setdefault('generic ' + g['n'], []).append((C.body(g['body']), g))
    return out


def ctx_canon(P):
    return Canon(P)


def check(ctx):
    base = bodies(ctx.p)
    ctx.fnset |= set(base)
    ncmp = 0
    for cfg in CONFIGS:
        try:
            P = ctx.prog(cfg)
        except Unbuildable as e:
            ctx.check(False, 'build:' + cfg, 'configuration `%s` does not compile: %s' % (cfg, str(e)[-300:]))
            continue
        oth = bodies(P)
        for n in sorted(set(base) ^ set(oth)):
            side = cfg if n in oth else 'default'
            ctx.check(False, 'only:%s:%s' % (cfg, n), 'function `%s` exists only in configuration `%s` (compared with `%s`)' % (
                n, side, cfg if side == 'default' else 'default'))
        for n in sorted(set(base) & set(oth)):
            a = sorted(b for b, _ in base[n])
            b = sorted(b for b, _ in oth[n])
            ncmp += 1
            d = ''
            if a != b and cfg == 'noassert' and len(a) == len(b) and any('[uncheck' in t for t in a + b):
                ca = sorted(str(ctx_canon(ctx.p).calls(x['body'])) for _, x in base[n])
                cb = sorted(str(ctx_canon(P).calls(x['body'])) for _, x in oth[n])
                if ca == cb:
                    a = b
            if a != b:
                la, lb = a[0].split('\n'), b[0].split('\n')
                d = next((('`%s` vs `%s`' % (x[-250:], y[-250:])) for x, y in zip(la, lb) if x != y), 'different length')
            ctx.check(a == b, 'differs:%s:%s' % (cfg, n.replace('webrtc_sdp::', '')),
                      'function `%s` differs between the default configuration and `%s`: %s' % (n, cfg, d),
                      base[n][0][1]['body'].get('span'))
    ctx.cov['programs'] = ncmp
    ctx.cov['disagreements_checked'] = ncmp
    ctx.floor(ncmp, 400, 'function_pairs_compared')
