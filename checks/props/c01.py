"""C01: parsing never panics."""
from props import panics

LEVEL = 'proof'
RULE = ('abstract interpretation (intervals, difference bounds, variant sets, string affixes) of every parsing entry '
        'point on unconstrained arguments; every overflow check, index, slice, unwrap, remove/drain, explicit panic '
        'and panicking std call reached is an obligation that must be infeasible')
TRUSTED = ['rustc (MIR construction, type checking)', 'the std models in engine/models.py',
           'inputs are shorter than 2 GiB; allocation failure and stack exhaustion are not modelled',
           'the log facade and its logger do not panic']


def check(ctx):
    rs, sites = panics.decide(ctx, 'parse')
    names = [r['n'] for r in rs]
    for a in ('parse_sdp', 'parse_sdp_line', 'parse_session_vector', 'parse_media_vector'):
        if not any(n.split('::')[-1] == a for n in names):
            ctx.fail('anchor:' + a, 'public parsing entry point `%s` not found' % a)
    ctx.floor(len(rs), 38, 'entry_points')
    ctx.floor(len(sites), 15, 'panic_sites')
