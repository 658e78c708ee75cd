"""C08: no accepted line is lost, duplicated or reordered."""
import random
from docs import *
import table

LEVEL = 'other'
RULE = ('parse_sdp is analysed on accepted description templates: every attribute form at every level it is allowed at, repeated '
        'lines, equal lines, every order of two line types, and pseudo-random descriptions with up to eight sections, long runs of one line type (more than every constant of the description-level code); the stored '
        'session must hold the value of every line once, in order, in its own section, on every path')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the reference model of the document grammar in checks/docs.py']
SESS = ['c', 'c4', 'b', 'bt', 'bu', 'a', 'as', 'ai', 'ar', 'ax', 'aw', 'ad', ' ']
MED = ['b', 'bt', 'bu', 'a', 'am', 'ap', 'ar', 'aw', 'af', 'ad', ' ']
CONTENT = {'outcome', 'head', 'timing', 'timings', 'session', 'media', 'content'}


def fixed(v):
    return ('a', 'a=ice-ufrag:', 'Attribute', 'IceUfrag', '{==%s}' % v, None, 1, 1)


def docs(P, ns):
    for e in entries(P):
        if e[6]:
            yield ['v', 'o', 's', 't', 'c', e]
            yield ['v', 'o', 's', e, 't', 'a', e, 'ar', 'c', 'm', 'am']
        if e[7] == 1:
            if e[3] in ('RtcpMuxOnly', 'Rid', 'Simulcast'):
                continue
            yield ['v', 'o', 's', 't', 'c', 'm', e]
            yield ['v', 'o', 's', 't', 'c', 'm', 'am', e, 'ap', e, 'm', e, 'ar']
    yield from together(P)
    yield from variety(P)
    for k in range(1, 7):
        yield 'v o s t c'.split() + ['m'] * k
        yield 'v o s t c'.split() + ['m', 'am'] * k
        yield 'v o s t'.split() + ['m', 'c', 'am'] * k
        yield 'v o s t'.split() + ['m', 'am', 'c'] * k
        yield 'v o s t c'.split() + ['b'] * k + ['m'] + ['bt'] * k
        yield 'v o s t c'.split() + ['a'] * k + ['m'] + ['ap'] * k + ['mv'] + ['a'] * k
        yield 'v o s'.split() + ['a', 'b'] * k + ['t', 'c', 'm'] + ['b', 'am'] * k
        yield 'v o s t c'.split() + [fixed('same')] * k + ['m'] + [fixed('same')] * k
    for x in SESS:
        for y in SESS:
            if {x, y} <= {'c', 'c4'}:
                continue
            yield ['v', 'o', 's', 't', x, y]
            yield ['v', 'o', 's', x, y, 't']
    for x in MED + ['m', 'md', 'c']:
        for y in MED + ['m', 'md', 'c4']:
            if (x, y) != ('c', 'c4'):
                yield ['v', 'o', 's', 't', 'c', 'm', x, y]
                yield ['v', 'o', 's', 't', 'c', 'mv', 'b', x, 'am', y, 'm']
    r = random.Random(8)
    for _ in range(150):
        d = ['t'] + [r.choice(SESS[2:]) for _ in range(r.randrange(7))]
        r.shuffle(d)
        sc = r.random() < .6
        if sc:
            d.insert(r.randrange(len(d) + 1), r.choice(['c', 'c4']))
        d = [x for x in d if x != 'ax' or r.random() < .5]
        for _ in range(r.randrange(8)):
            m = [r.choice(MED) for _ in range(r.randrange(8))]
            if not sc or r.random() < .3:
                m.insert(r.randrange(len(m) + 1), r.choice(['c', 'c4']))
            d += [r.choice(['m', 'mv', 'md'])] + m
        yield ['v', 'o', 's'] + d
    for n in ns:
        yield 'v o s t c'.split() + ['m'] * n
        yield 'v o s t c'.split() + ['a'] * n + ['m', 'am']
        yield 'v o s t'.split() + ['b'] * n + ['c', 'a', 'm', 'ap']
        yield 'v o s t c m am m'.split() + ['ap'] * n + ['m', 'am']
        yield 'v o s t c m am m'.split() + ['b'] * n + ['ap', 'm', 'am']
        yield 'v o s t'.split() + ['m', 'c4', 'b', 'am'] * n
    # lines that hold nothing, and lines that are reported, between the others
    for b in ('v o s t c b a as m c4 b am ap ar mv b am a ar', 'v o s b t a ai m am c m c4 ap am b', 'v o s t a c4 as b bu'):
        b = b.split()
        for k in (' ', '  ', 'u'):
            for i in range(len(b) + 1):
                yield b[:i] + [k] + b[i:]
                yield b[:i] + [k, ' ', k] + b[i:] + [k]
            yield [x for y in b for x in (k, y)]
    yield 'v o s t t c m'.split()
    yield 'v o s t a t t'.split()


def check(ctx):
    D = Docs(ctx)
    run_docs(ctx, D, (Doc(D.P, d, sep=s, last=l) for i, d in enumerate(docs(D.P, sizes(D)))
                     for s, l in ((('\r\n', True), ('\n', True), ('\r\n', False), ('\n', False))[i % 4],)), CONTENT,
             key=lambda d, a: 'timings' if a == 'timings' else '%s:%s' % (a, d.name()))
    finish_lines(ctx, D, 300)
