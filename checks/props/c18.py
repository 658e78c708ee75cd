"""C18: what the printer leaves out is what the parser assumes when it is absent."""
from lines import *
import table

LEVEL = 'other'
RULE = ('for every optional or defaulted part of every line: (a) the abstract value parsed from a line without it has the '
        'default; (b) the value parsed from a line with a symbolic value of it is printed, and on every path on which the '
        'printed text does not contain it, the path condition must force it to equal that default; parts that are printed '
        'must be read back')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the grammar table checks/table.py']

# optional parts whose absence is a value of its own (no default number): printing must never leave them out
EXTRA = [
    ('m=', 'Media', None, 'audio {port:0-65535}/{port_count:n32} RTP/AVP 0', {'port_count': 0}),
    ('a=rtpmap:', 'Attribute', 'Rtpmap', '96 {codec_name}/{frequency:n32}/{channels:n32}', {}),
    ('a=rtpmap:', 'Attribute', 'Rtpmap', '96 {codec_name}/{frequency:n32}', {}),
    ('c=', 'Connection', None, 'IN IP4 {address:4}/{ttl:n8}/{amount:n32}', {}),
    ('c=', 'Connection', None, 'IN IP4 {address:4}/{ttl:n8}', {}),
    ('a=ssrc:', 'Attribute', 'Ssrc', '{id:n32} {attribute}:{value}', {}),
    ('a=msid:', 'Attribute', 'Msid', '{id} {appdata}', {}),
    ('a=rtcp:', 'Attribute', 'Rtcp', '{port:n16} IN IP4 {unicast_addr:4}', {}),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 send [x=1,y=1,q={send.0[0].q:f32}]', {'pt.0': 96, 'send.0[0].x.0[0]': 1, 'send.0[0].y.0[0]': 1}),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp 1 {address:4} 9 typ host raddr {raddr:4} rport {rport:0-65535} '
     'generation {generation:n32} ufrag {ufrag} network-cost {networkcost:n32}', {}),
]


def judge(L, case):
    it, outs = L.parse(case)
    und = None
    n = 0
    for st, r in outs:
        if it.vname(r) != 'Ok':
            und = und or 'refused'
            continue
        kind, var, x = L.payload(it, st, r)
        if kind != case.kind or var != case.variant:
            und = 'kind'
            continue
        for s, y in printing(L, it, st, kind, x, case.prefix):
            n += 1
            L.fns |= {L.P.insts[i]['n'] for i, _ in it.blocks_seen if L.P.insts[i]['local']}
            shown = set(subterms(y))
            for path, e in case.exp.items():
                if isinstance(e, str) or e is ANY or y.op == 'str' and not y.a[0] and var == 'Fmtp' and path == 'payload_type':
                    continue
                es = {z for z in subterms(e) if z.op in ('opq', 'hole')}
                if e.op in ('int', 'str', 'flt') or not es or es & shown:
                    continue
                d = case.dflt.get(path)
                a = it.iv(s, e) if it.is_int_ty(it.ty_of(e)) else None
                if d is None or a is None:
                    if precise(s, case):
                        return 'bad', 'is printed without its part `%s`, which has no default' % path + cond(L.P, it, case, s), (it, outs)
                    und = path
                elif not isinstance(d, int) or a != (d, d):
                    lo, hi = it.iv(s, it.sub(e, I(d))) if isinstance(d, int) else (1, 1)
                    if (lo, hi) == (0, 0):
                        continue
                    if precise(s, case):
                        return 'bad', 'is printed without its part `%s` although it need not equal the default %s%s' % (
                            path, d, cond(L.P, it, case, s)), (it, outs)
                    und = path
    return ('undet', und or 'nothing printed', (it, outs)) if und or not n else ('ok', '', (it, outs))


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    absent, omit = [], []
    for c in all_cases(P):
        if c.dflt and len(c.exp) <= 6:
            absent.append(c)
    for c in absent + list(pair_cases(P)):
        c2 = Case(P, c.prefix, c.kind, c.variant, c.text, c.dflt)
        omit.append(c2)
    for line, kind, var, text, d in EXTRA:
        omit.append(Case(P, line, kind, var, text, d))
    for c in absent:
        c.what = 'absent'
    for c in omit:
        c.what = 'omitted'
    batch(ctx, L, absent, 'absent', lambda L, c: L.accept(c))
    batch(ctx, L, omit, 'omitted', judge)
    finish_lines(ctx, L, 80)
