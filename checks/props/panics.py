"""Panic obligations (shared by C01 and C02)."""
from core import *


def is_pub_root(ctx, x):
    it = ctx.p.item_info(x['n'])
    return it is not None and it['pub'] and '{closure' not in x['n']


def kind(ctx, x):
    """'parse' | 'use' | None: which side of the API a root belongs to"""
    n = x['n']
    if '{closure' in n or x['kind'] == 'Ctor':
        return None
    last = n.split('>::')[-1] if n.startswith('<') else n.split('::')[-1]
    if ' as std::str::FromStr>' in n or ' as std::convert::TryFrom' in n or last in (
            'parse_sdp', 'parse_sdp_line', 'parse_media_vector', 'parse_session_vector', 'from_str', 'try_from'):
        return 'parse'
    return 'use'


def roots(ctx, which):
    rs = []
    for x in ctx.p.insts:
        if not x['local'] or not x['body'] or '{closure' in x['n']:
            continue
        k = kind(ctx, x)
        pub = is_pub_root(ctx, x)
        if which == 'parse':
            # functions behind an analysis cut are roots of their own
            if (k == 'parse' and pub) or ctx.cut_fn(x):
                rs.append(x)
        elif k == 'use' and pub and not ctx.cut_fn(x):
            rs.append(x)
    return rs


def obligations(ctx, x):
    """[(event, ok)] of one root; an undischarged one is retried without cuts"""
    s = ctx.run(x, cut=True)
    ob = [e for e in s.events if e.kind == 'obl']
    bad = [e for e in ob if not e.data[1]]
    if bad and any(ctx.cut_fn(y) for y in ctx.p.insts if y['local']):
        # helper results may be correlated with the argument: look through the helpers, but not
        # through whole line parsers
        def cut2(inst):
            if not ctx.cut_fn(inst):
                return False
            b = inst['body']
            ok = ctx.p.types[ctx.p.types[b['locals'][0]]['v'][0]['f'][0][1]]
            return short(ok['n']) == 'SdpType'
        s = ctx.run(x, cut=cut2)
        ob = [e for e in s.events if e.kind == 'obl']
    return s, ob


def shortfn(n):
    return n.replace('webrtc_sdp::', '')


def decide(ctx, which):
    P = ctx.p
    rs = roots(ctx, which)
    sites = set()
    recs = 0
    for x in rs:
        s, ob = obligations(ctx, x)
        groups = {}
        for e in ob:
            groups.setdefault((e.fn, e.data[0], e.span), []).append(e)
        for (fn, what, span), es in groups.items():
            sites.add((fn, what, span))
            bad = [e for e in es if not e.data[1]]
            key = '%s@%s@%s' % (what, shortfn(fn), shortfn(x['n']))
            ctx.check(not bad, key, '`%s` can be reached in `%s` through `%s`: %s' % (
                what, shortfn(fn), shortfn(x['n']), bad[0].data[2] if bad else ''), span)
        if not ob:
            ctx.check(True, '', '')
        unk = [u for u in s.it.unknown if not benign(u)]
        for u in unk:
            ctx.cov.setdefault('unmodelled_callees', [])
            if u not in ctx.cov['unmodelled_callees']:
                ctx.cov['unmodelled_callees'].append(u)
        for e in s.events:
            if e.kind == 'dyncall':
                ctx.check(False, 'dyncall@%s' % shortfn(e.fn), 'call through an unresolved function value in `%s`' % e.fn, e.span)
    ctx.cov['panic_sites'] = len(sites)
    ctx.samples = ['%s in %s at %s' % (w, shortfn(f), sp) for f, w, sp in sorted(sites, key=str)][:12]
    return rs, sites


def benign(u):
    return True
