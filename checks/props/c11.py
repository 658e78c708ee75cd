"""C11: rules across lines are enforced, and only they."""
import itertools
from docs import *
from props.c08 import entries

LEVEL = 'other'
RULE = ('parse_sdp is analysed on description templates that combine the lines a rule talks about (timing and connection over '
        'several sections, extmap at both levels, rtcp-mux-only and rtcp-mux, rid payload types and media formats, simulcast '
        'ids and rids of either direction, each rule also broken in a later section only, and after long runs of lines); it must be refused on every path '
        'when a rule is broken and accepted on every path when all hold')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the rules as written in checks/docs.py']
MUX, ONLY = attr('rtcp-mux', 'RtcpMux', 0, 1), attr('rtcp-mux-only', 'RtcpMuxOnly', 0, 1)


SECTIONS = [media(k, p, f, x) for k, p, f in (('audio', 'RTP/AVP', ['0']), ('video', 'UDP/TLS/RTP/SAVPF', ['127', '96']),
                                              ('audio', 'TCP/DTLS/RTP/SAVP', ['8']), ('application', 'DTLS/SCTP', ['5000']),
                                              ('application', 'UDP/DTLS/SCTP', ['webrtc-datachannel']), ('video', 'RTP/AVPF', ['34', '34']))
            for x in ('0', '9', '65535', '0/1', '9/2', '{p:0-65535}')]


def docs(ns, es):
    h = ['v', 'o', 's', 't']
    # timing
    for d in (['c', 'm', 'am'], ['c', 'a'], ['c', 'm', 'm'], ['b', 'a']):
        yield ['v', 'o', 's'] + d
        for i in range(len(d)):
            yield ['v', 'o', 's'] + d[:i] + ['t'] + d[i:]
    # connections: every presence pattern over up to four sections, at both places of a section
    for n in range(5):
        for p in itertools.product((0, 1), repeat=n + 1):
            for late in (0, 1):
                d = list(h) + (['c'] if p[0] else [])
                for x in p[1:]:
                    d += ['m'] + (['am', 'c4'] if late and x else ['c', 'am'] if x else ['am'])
                yield d
    # extmap
    for s in (0, 1, 2):
        for p in itertools.product((0, 1), repeat=3):
            yield h + ['c'] + ['ax'] * s + [y for x in p for y in ['m', 'ap'] + ['ax'] * x]
    # rtcp-mux-only
    for k in (1, 2, 3):
        for p in itertools.product(((), (MUX,), (ONLY,), (ONLY, MUX), (MUX, ONLY)), repeat=k):
            yield h + ['c'] + [y for x in p for y in ['m', 'am', *x, 'ar']]
    # rid payload types
    ids = ['1', '10', 'hi', 'Hi', 'h']
    ints = media('video', 'RTP/SAVPF', ['96', '97', '9'])
    other = media('video', 'RTP/SAVPF', ['100'])
    strs = media('application', 'UDP/DTLS/SCTP', ['96', 'wdc'])
    longer = media('application', 'UDP/DTLS/SCTP', ['960', 'a97', '9x', '-', '100.0'])
    for m in (ints, strs, longer):
        for f in ([], ['96'], ['97'], ['9'], ['6'], ['100'], ['96', '97'], ['97', '98'], ['98', '96'], ['96', '96'], ['96', '97', '9'],
                  ['96', '97', '99'], ['65535'], ['0'], ['352'], ['608']):
            for d in ('send', 'recv'):
                yield h + ['c', m, rid('1', d, f)]
            yield h + ['c', other, 'am', m, rid('1', 'send', f), 'ap']
            yield h + ['c', m, rid('1', 'send', f), other]
            yield h + ['c', m, rid('1', 'recv', ['96']), rid('2', 'send', f)]
            yield h + ['c', m, rid('1', 'send'), other, rid('2', 'recv', f)]
    # simulcast ids
    sims = ['send 1', 'recv 1', 'send 1 recv 10', 'recv 10 send 1', 'send 1,10', 'send 1;10', 'send ~1', 'send 10;~1,hi', 'recv hi;1',
            'recv 1,~10;hi', 'send 1;10;hi', 'send Hi', 'send h', 'send 1 recv 1', 'send 1;hi recv 10,1']
    rids = [[], ['s1'], ['r1'], ['s1', 'r10'], ['s1', 's10'], ['s1', 's10', 'shi'], ['r1', 'r10', 'rhi'], ['shi'], ['s1', 'r1'],
            ['r10', 's1', 's10'], ['s1', 'shi', 'r10', 'r1'], ['s10'], ['s1', 's10', 'r1', 'r10', 'shi', 'rhi']]
    for s in sims:
        for rs in rids:
            rl = [rid(x[1:], {'s': 'send', 'r': 'recv'}[x[0]]) for x in rs]
            yield h + ['c', ints] + rl + [simulcast(s)]
            yield h + ['c', ints, simulcast(s)] + rl
            if len(rs) < 4 and len(s) < 12:
                yield h + ['c', ints, 'am'] + rl + [other, simulcast(s)]
                yield h + ['c', other, rid('1', 'send'), simulcast('send 1'), ints] + rl + [simulcast(s)]
                yield h + ['c', ints] + rl + [rid('0', 'send'), simulcast('send 0'), simulcast(s)]


    # rid restrictions beside the payload types
    for d in ('send', 'recv'):
        for f in (['96'], ['98'], ['97', '98'], ['96', '97']):
            for t in ('max-width={w:n32}', 'max-height={w:n32}', 'max-fps={w:n32}', 'max-fs={w:n32}', 'max-br={w:n32}', 'max-pps={w:n32}',
                      'depends={x}', 'depends={x},{y}', 'depends=2', 'foo={x}', 'max-width=1;depends={x}', 'max-fps=0'):
                for x in ([rid('1', d, f, t)], [rid('2', 'recv'), rid('1', d, f, t)], [rid('1', d, f, t), rid('1', 'send', ['96'])]):
                    yield h + ['c', ints] + x
                    yield h + ['c', other, 'am', ints, 'ap'] + x + [other]
    # a rule holds or not whatever else stands in the section or before it
    sat = [[MUX, ONLY], [rid('1', 'send', ['96'])], [rid('1', 'send'), simulcast('send 1')], ['ap']]
    vio = [[ONLY], [rid('1', 'send', ['98'])], [rid('1', 'recv'), simulcast('send 1')]]
    for e in es:
        for r in sat + vio:
            if e[3] in ('Rid', 'Simulcast', 'RtcpMux', 'RtcpMuxOnly'):
                continue
            if e[7] == 1:
                yield h + ['c', ints, e] + r
                yield h + ['c', ints] + r + [e]
                yield h + ['c', ints, *r, other, e]
            if e[6]:
                yield h + ['c', e, ints] + r
        if e[7] == 1 and e[3] not in ('Rid', 'Simulcast', 'RtcpMuxOnly'):
            yield h + ['m', 'c', e, 'm', e]
            yield h + ['m', e, 'm', 'c', e]
            yield h + ['m', e, 'c', 'm', e, 'c']
            if e[3] != 'Extmap':
                yield h + ['c', 'ax', 'm', e, 'ax']
                yield h + ['c', 'm', 'ax', e]
            yield ['v', 'o', 's', 'c', 'm', e, 'ap']
        if e[6]:
            yield ['v', 'o', 's', 'c', e, 'm', 'ap']
            yield h + [e, 'm', 'ap']
            if e[3] != 'Extmap':
                yield h + ['c', 'ax', e, 'm', 'ax']
    for m in SECTIONS:
        f = m[8][0]
        num = f.isdigit()
        yield h + [m, 'am']
        yield h + [m, 'c', 'am']
        yield h + ['m', 'c', m]
        yield h + ['ax', 'c', m, 'ax']
        yield h + ['c', m, 'ax', 'ap']
        yield h + ['c', m, ONLY]
        yield h + ['c', m, ONLY, MUX]
        if num:
            yield h + ['c', m, rid('1', 'send', [f])]
        yield h + ['c', m, rid('1', 'send', [f, '1'] if num else ['1'])]
        yield h + ['c', m, rid('1', 'recv'), simulcast('recv 1')]
        yield h + ['c', m, rid('1', 'send'), simulcast('recv 1')]
        yield h + ['c', ints, 'ap', m, rid('1', 'send', ['97'])]
        yield ['v', 'o', 's', 'c', m, 'ap']
    # rules broken after long runs of lines
    for n in ns:
        fs = media('application', 'UDP/DTLS/SCTP', [str(x + 90) for x in range(n)])
        m = [ints, rid('1', 'send', ['96'])]
        yield h + ['m', 'c'] * n + ['m']
        yield h + ['m', 'c'] * n
        yield h + ['m', 'c', 'ap'] * n + ['m', 'am'] + ['m', 'c', 'ap']
        yield h + ['ax', 'c'] + ['m', 'ap'] * n + ['ax']
        yield h + ['a'] * n + ['ax', 'c'] + ['m'] + ['ap'] * n + ['ax']
        yield h + ['c'] + ['m', MUX, ONLY] * n + ['m', ONLY]
        yield h + ['c'] + ['m', MUX, ONLY] * n + ['m', ONLY, MUX]
        yield h + ['c', 'm', ONLY] + ['ap'] * n
        yield h + ['c', 'm', ONLY] + ['ap'] * n + [MUX]
        yield h + ['c'] + m * n + [ints, rid('1', 'send', ['98'])]
        yield h + ['c', ints] + [rid('1', 'send', ['96'])] * n + [rid('1', 'send', ['98'])]
        yield h + ['c', ints] + [rid('1', 'send', ['96'])] * n + [rid('1', 'send', ['97'])]
        if n <= 70:
            yield h + ['c', fs, rid('1', 'send', [str(n + 89), '90'])]
            yield h + ['c', fs, rid('1', 'send', ['90', str(n + 90)])]
        yield h + ['c', ints] + [rid(str(x), 'send') for x in range(n)] + [simulcast('send %d' % n)]
        yield h + ['c', ints] + [rid(str(x), 'send') for x in range(n)] + [simulcast('send %d' % (n - 1))]
        yield h + ['c'] + [ints, rid('1', 'send'), simulcast('send 1')] * n + [ints, rid('1', 'send'), simulcast('recv 1')]


def check(ctx):
    D = Docs(ctx)
    run_docs(ctx, D, (Doc(D.P, d) for d in docs(sizes(D), list(entries(D.P)))), {'outcome'})
    finish_lines(ctx, D, 500)
