"""C09: the structure of a description is enforced."""
import itertools
from docs import *

LEVEL = 'other'
RULE = ('parse_sdp is analysed on every sequence of line types up to a length (all sequences of up to four lines, all of up to '
        'three after version, origin and name, all of up to three inside a media section, of two between sections, and short sequences after long runs of lines), every '
        'line a symbolic template; it must accept exactly the sequences the reference grammar accepts, on every path')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the reference model of the document grammar in checks/docs.py']


FORMS = [(a, a + '=', k, None, t, None) for a, k, ts in (
    ('s', 'Session', ['{==-}', ' ', '{w} {w2}', 'a=b', 'm=audio 9 RTP/AVP 0']),
    ('o', 'Origin', ['{u} 0 0 <IN> <IP4> {a:4}', '- {a:n64} 0 <IN> <IP6> {b:6}', '- 0 {a:n64} IN IP4 0.0.0.0', 'x 1 1 IN IP4 host']),
    ('v', 'Version', ['0', ' 0']),
    ('t', 'Timing', ['0 0', '{a:n64} 0', '0 {a:n64}', '1 1']),
    ('c', 'Connection', ['IN IP4 0.0.0.0', 'IN IP6 ::', 'IN IP4 {h:d}', 'IN IP4 224.0.0.1/127/3', 'IN IP4 127.0.0.1']),
    ('m', 'Media', ['audio 0 RTP/AVP 0', 'video 0 UDP/TLS/RTP/SAVPF 96 97', 'application {p:0-65535} UDP/DTLS/SCTP {x}',
                    'application 0 DTLS/SCTP 5000', 'audio 9/2 RTP/SAVPF 0 8', 'video 65535 TCP/DTLS/RTP/SAVPF 127']))
    for t in ts]


def docs(ns):
    for n in range(0, 5):
        for d in itertools.product(['v', 'o', 's', 't', 'c', 'm', 'a'], repeat=n):
            yield list(d)
    al = ['v', 'o', 's', 't', 'c', 'b', 'a', 'as', 'am', 'm']
    for n in (0, 1, 2, 3):
        for d in itertools.product(al, repeat=n):
            if n == 3 and 't' not in d and d[0] not in 'vo':
                continue
            yield ['v', 'o', 's'] + list(d)
    al = ['v', 'o', 's', 't', 'c', 'b', 'a', 'as', 'am', 'ad', 'm', 'ax', ' ']
    for n in (1, 2, 3):
        for d in itertools.product(al, repeat=n):
            if n < 3 or len(set(d) & {'b', 'a', 'am', ' '}) < 3:
                yield ['v', 'o', 's', 't', 'c', 'm'] + list(d)
    for n in (1, 2, 3):
        for d in itertools.product(['c', 'b', 'am', 'm', 'as', 't'], repeat=n):
            yield ['v', 'o', 's', 't', 'm'] + list(d)
            yield ['v', 'o', 's', 't', 'ax', 'm', 'c', 'am', 'ax', 'm'] + list(d)


    # other forms of the lines the order rules talk about
    for x in FORMS:
        c = x[0]
        for d in ([], ['c', 'm', 'am'], ['a', 'c']):
            if c in 'vos':
                i = 'vos'.index(c)
                h = ['v', 'o', 's']
                h[i] = x
                for k in 'vos':
                    yield h + [k, 't'] + d
                    yield h + ['t', k] + d
                    yield h + ['t'] + d + [k]
                    yield h + ['t'] + d + [x]
                    yield h[:i] + [k] + h[i:] + ['t'] + d
                yield h + ['t'] + d
                yield h[:i] + h[i + 1:] + ['t'] + d
                yield h[:i] + h[i + 1:] + ['t'] + d + [x]
            elif c == 't':
                yield ['v', 'o', 's', x] + d
                yield ['v', 'o', 's', 'c', 'm', 'am', x] + d
                yield ['v', 'o', x, 's', 't'] + d
            elif c == 'c':
                yield ['v', 'o', 's', 't', x, 'c']
                yield ['v', 'o', 's', 't', 'c', x]
                yield ['v', 'o', 's', 't', x, x]
                yield ['v', 'o', 's', 't', 'm', x, 'am', x]
                yield ['v', 'o', 's', 't', 'm', 'c', 'am', x]
                yield ['v', 'o', 's', 't', 'm', x, 'm', 'am', x]
                yield ['v', 'o', x, 's', 't', 'c']
            else:
                yield ['v', 'o', 's', 't', 'c', x, 'am', 't']
                yield ['v', 'o', 's', 't', 'c', x, 'c', 'c']
                yield ['v', 'o', 's', 't', 'c', x, 'c', x, 'c']
                yield ['v', 'o', 's', 't', 'c', 'm', x, 's']
                yield ['v', 'o', 's', 't', 'c', x, 'm', 'as']
                yield ['v', 'o', 's', 'c', x, 't']
                yield ['v', 'o', 's', x, 't', 'c']
    for n in ns:
        h, ms = ['v', 'o', 's', 't', 'c'], ['m', 'am'] * n
        for x in ('o', 't', 'as', 'v', 's'):
            yield h + ms + [x]
        yield h + ms + ['c', 'c']
        yield h + ['a'] * n + ['am']
        yield h + ['a'] * n + ['c']
        yield h + ['a'] * n + ['s']
        yield h + ['m'] + ['am'] * n + ['as']
        yield h + ['m', 'c'] + ['am'] * n + ['c']
        yield h + ['b'] * n + ['m'] + ['b'] * n + ['t']
        yield h + ms
        yield h + ['a'] * n + ['m'] + ['am'] * n


def check(ctx):
    D = Docs(ctx)
    pad = (' ', ' ' * 60, None, None, '', None)
    run_docs(ctx, D, (Doc(D.P, d + ([pad] if len(d) < 7 else [])) for d in docs(sizes(D))), {'outcome'})
    finish_lines(ctx, D, 2000)
