"""C06: strict and lenient parsing policy."""
import itertools
from docs import *

LEVEL = 'other'
RULE = ('parse_sdp is analysed on description templates (every line a symbolic line template) in both modes: base descriptions '
        'with every unsupported, malformed and blank line put at every position, and with several of them in every order; in '
        'strict mode a description with an unsupported line is refused on every path, otherwise it is accepted with exactly '
        'those lines as warnings in order and all other lines in place; a malformed line or a wrong structure is refused in '
        'both modes')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the reference model of the document grammar in checks/docs.py']
BASES = ['v o s t', 'v o s t c m am ar', 'v o s c b t a m af b m c4 ap']
U, E, B = ['u', 'uv', 'um', 'ug'], ['e', 'em', 'et', 'ep'], [' ', '  ']
WRONG = ['v o s t m', 'v o s c m', 'v o s t c am', 'o v s t c m', 'v o s t c m as', 'v o s t c m c c', 'v o s t o', 'v o s t ax c m ax']


def put(base, at):
    """base with lines inserted: at = [(position, key)]"""
    out = []
    for i in range(len(base) + 1):
        out += [k for p, k in at if p == i]
        out += base[i:i + 1]
    return out


# malformed lines with an odd start or odd blanks
ODD = [bad(x) for x in ['e={}', 'i={}', 'u={}', 'k={}', 'p={}', 'r={}', 'z={}', '{}', '#{}', '# {}', '#{}=x', ';{}', '; {}', '//{}', '/{}', '!{}', '-- {}', '"{}"', '%{}', '{}=', '={}', '=', '==',
                        'a', 'v', 't=', '0={}', '1', '*={}', '+{}', '.', '{}={val}', 'aa={}', 'a:{}', 'a-{}', ' #{}', '\t;{}', '<{}>',
                        '[{}]', '({})', '@{}', '&{}', '~{}', '\\{}', '?', 'x=', 'X={}', '-={}', '\x00', '\u00e9={}', '\u200b', '\u2028', '\ufeff',
                        't=0  {}x', 'a=mid:', 'a=', 'a= ', 'm= ', 'b=', 'b=:', 'c=', 's=', 'o=', 'v=', 'm=', '#', '##', '//', ';']]
# unsupported lines with odd text
ODDU = [sup(x) for x in ['a={}', 'a={}:{val}', 'a={}:{val} {val2}', 'm={} 9 RTP/AVP 0', 'm=audio 9 {} 0', 'a=group:{} {tag}', 'a=ssrc-group:{} 1',
                         'a=rtcp-fb:96 {}', 'a=fingerprint:{} 00:11', 'm=application 9 UDP/{}/SCTP 5000', 'a={}:', 'a=#{}', 'a=foo-{}: {val}', 'a={}=foo', 'a=foo-{}:{val}:{val2}', 'a=foo-{}:#', 'a=-{}', 'a=X-{}',
                         'a=foo-{} {val}', 'a=foo-{}:"{val}"', 'a=zz-{}:;{val}', 'a=foo-{}:{val}  {val2}', 'a=foo.{}', 'a=x', 'a=:{}']]


def docs(ns):
    for x in ODD + ODDU:
        yield ['v', 'o', 's', 't', x]
        yield [x, 'v', 'o', 's', 't', 'c', 'm']
        yield ['v', 'o', 's', x, 't', 'c', 'm', 'am']
        yield ['v', 'o', 's', 't', 'c', 'm', x, 'am', 'm', 'ap']
        yield ['v', 'o', 's', 't', 'c', 'm', 'am', x]
        yield ['v', 'o', 's', 't', 'u', 'c', 'm', 'u', x]
    f, g, h = sup('a=foo'), sup('a=foo:1'), sup('a=foo:2')
    for d in ([f, f], [f, f, f], [f, g], [g, g], [g, h, g], [g, h, h, f], [f, 'u', f], [h, h, 'um', h, 'uv']):
        yield ['v', 'o', 's', 't'] + d
        yield ['v', 'o', 's', 't', 'c', d[0], 'm', *d[1:], 'am']
        yield ['v', 'o', 's', 't', 'c', 'm', 'am', *d, 'm', *d, 'e']
        yield ['v', 'o', 's', 't', 'c', 'a', *d, 'm', *d, 'am', 'm', *d]
    for n in ns:
        yield ['v', 'o', 's', 't'] + ['u'] * n
        yield ['v', 'o', 's', 't', 'c', 'm'] + ['um'] * n + ['am', 'm']
        yield ['v', 'o', 's', 't', 'c'] + ['m', 'am', 'uv', 'ug'] * (n // 2 + 1)
        yield ['v', 'o', 's', 't'] + ['u'] * n + ['c', 'e']
        yield ['v', 'o', 's', 't', 'c'] + ['a'] * n + ['m'] + ['am'] * n + ['u', 'ep']
        yield ['v', 'o', 's', 't', 'c'] + ['a'] * n + ['m'] + ['am'] * n + ['u', 'ap']
        yield ['v', 'o', 's', 't', 'c'] + [' '] * n + ['m', 'u', 'am']
    for b in BASES:
        b = b.split()
        n = len(b)
        yield b
        for p in range(n + 1):
            for k in U + E + B:
                yield put(b, [(p, k)])
        for (i, x), (j, y) in itertools.product(enumerate(U[:3] + E[:3]), repeat=2):
            for p, q in ((0, n), (1, 3), (4, 4), (n, n), (n // 2 + 1, n)):
                yield put(b, [(p, x), (q, y)])
        for x, y, z in itertools.product('ue ', repeat=3):
            yield put(b, [(2, x), (4, y), (n, z)])
            yield put(b, [(n, x), (n, y), (n, z)])
        yield put(b, [(p, U[p % 4]) for p in range(n + 1)])
        yield put(b, [(p, (U + B)[p % 6]) for p in range(n + 1)])
        yield put(b, [(n, 'u')] * 6)
        yield put(b, [(4, k) for k in U * 2])
        yield put(b, [(4, 'u'), (4, 'u'), (n, 'e'), (n, 'u')])
        yield put(b, [(0, 'e'), (n, 'e'), (n, 'u'), (n, 'ep')])
    for w in WRONG:
        w = w.split()
        yield w
        for p in (0, 3, len(w)):
            for k in ('u', 'e', 'um', ' '):
                yield put(w, [(p, k)])
        yield put(w, [(3, 'u'), (len(w), 'uv')])


def check(ctx):
    D = Docs(ctx)
    batch(ctx, D, mutants(D.P, ('word', 'key')), 'refused', lambda L, c: L.refuse(c))
    run_docs(ctx, D, (Doc(D.P, d, m, s, l) for d in docs(sizes(D)) for m in (0, 1)
                      for s, l in ((('\r\n', True),) if len(d) > 6 else (('\r\n', True), ('\n', True), ('\r\n', False)))),
             {'outcome', 'warnings', 'head', 'timing', 'session', 'media', 'content'})
    finish_lines(ctx, D, 300)
