"""C19: every named part of a line reaches the field of that name and no other."""
import itertools
from lines import *

LEVEL = 'other'
RULE = ('each line form of the specifications is a template whose identifiers and numbers are symbolic (one template stands for '
        'every line of that form); the abstract result of parse_sdp_line on it must be the attribute or line kind of that '
        'name, every part must be in its own field unchanged, every field not mentioned must have its default')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the grammar table checks/table.py', 'identifiers stand for words of '
           'letters and digits that are no keyword']


# more parts than the value has room for: all must be kept, or the line refused
MORE = [('remote-candidates', 'RemoteCandidate', '{component:n32} {address:4} {port:0-65535} {component2:n32} {address2:4} {port2:0-65535}'),
        ('group', 'Group', '{semantics=BUNDLE:Bundle} ' + ' '.join('{tags[%d]}' % i for i in range(5))),
        ('ssrc-group', 'SsrcGroup', '{0=SIM:Sim} ' + ' '.join('{1[%d].id:n32}' % i for i in range(5))),
        ('imageattr', 'ImageAttr', '{pt.0:n8} send ' + ' '.join('[x={send.0[%d].x.0[0]:n32},y={send.0[%d].y.0[0]:n32}]' % (i, i) for i in range(5)))]


def kept(L, case):
    """every part of an accepted line is somewhere in its value"""
    it, outs = L.parse(case)
    for st, r in outs:
        if it.vname(r) != 'Ok':
            continue
        kind, var, x = L.payload(it, st, r)
        if x is None:
            return 'undet', '', (it, outs)
        here = {y for _, v in L.leaves(it, st, x) for y in subterms(v) if y.op in ('opq', 'hole')}
        gone = sorted(k for k, h in case.holes.items() if not ({y for y in subterms(h) if y.op in ('opq', 'hole')} & here))
        if gone:
            return ('bad' if precise(st, case) else 'undet'), 'is accepted without its parts %s' % ', '.join(gone), (it, outs)
    return 'ok', '', (it, outs)


def check(ctx):
    L = Lines(ctx)
    more = []
    for n, var, t in MORE:
        c = Case(ctx.p, 'a=' + n + ':', 'Attribute', var, t, None)
        c.what = 'kept'
        more.append(c)
    batch(ctx, L, more, 'kept', kept, again=False)
    batch(ctx, L, itertools.chain(all_cases(ctx.p), free_cases(ctx.p), long_cases(ctx.p), alike_cases(ctx.p), near_cases(ctx.p)), 'field', lambda L, c: L.accept(c))
    finish_lines(ctx, L, 120)
