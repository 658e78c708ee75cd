"""C15: keywords agree between the specifications, the parser and the printer."""
from lines import *
from props.c17 import roundtrip
import table

LEVEL = 'other'
RULE = ('for every keyword of every enumerated value, in each line that can carry it: parsing the line template gives the variant '
        'the specification assigns, the Display code of the enumeration prints exactly that keyword for it, the printed line '
        'contains it and reads back to the same value; a symbolic unknown word in the place of the keyword is refused on every '
        'path (or kept as unknown where the grammar allows extensions)')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the keyword tables in checks/table.py']

UNKNOWN = [('a=setup:', '{w}'), ('a=group:', '{w} {a}'), ('a=ssrc-group:', '{w} 1 2'), ('a=dtls-message:', '{w} {x}'),
           ('a=candidate:', '{f} 1 {w} 1 {a:4} 9 typ host'), ('a=candidate:', '{f} 1 udp 1 {a:4} 9 typ {w}'),
           ('a=candidate:', '{f} 1 udp 1 {a:4} 9 {w} host'), ('a=candidate:', '{f} 1 tcp 1 {a:4} 9 typ host tcptype {w}'),
           ('a=extmap:', '1/{w} {u}'), ('a=rid:', '{id} {w}'), ('a=rid:', '{id} {w} pt=9'), ('a=simulcast:', '{w} {id}'),
           ('a=imageattr:', '96 {w} *'), ('a=imageattr:', '96 {w} [x=1,y=1]'), ('a=rtcp-fb:', '96 {w}'), ('a=rtcp-fb:', '96 {w} {x}'),
           ('a=rtcp-fb:', '96 ack {w}'), ('a=rtcp-fb:', '96 nack {w}'), ('a=rtcp-fb:', '96 ccm {w}'), ('a=sctpmap:', '9 {w} 9'),
           ('a=rtcp:', '9 {w} IP4 {a:4}'), ('a=rtcp:', '9 IN {w} {a:4}'), ('c=', '{w} IP4 {a:4}'), ('c=', 'IN {w} {a:4}'),
           ('o=', '{u} 1 2 {w} IP4 {a:4}'), ('o=', '{u} 1 2 IN {w} {a:4}'), ('m=', '{w} 9 RTP/AVP 0'), ('m=', 'audio 9 {w} 0'),
           ('m=', 'audio 9 RTP/{w} 0'), ('m=', 'audio 9 UDP/TLS/RTP/{w} 0'), ('m=', 'audio 9 {w}/AVP 0'),
           ('a=fingerprint:', '{w} AB:CD'), ('a={w}:', '{x}'), ('m=', 'text 9 RTP/AVP 0'), ('m=', 'message 9 RTP/AVP 0'),
           ('m=', 'image 9 RTP/AVP 0'), ('m=', 'audio 9 udp 0')]


def spell(P, y):
    return ''.join(p.a[0] if p.op == 'str' else '\0' for p in (y.a if y.op == 'cat' else (y,)))


def kw_of(case):
    for m in TOK.finditer(case.text):
        if m.group(3) is not None and m.group(2) in ('', '!') and m.group(4) and not m.group(4).isdigit() and \
                m.group(4) not in ('true', 'false'):
            yield m.group(1), m.group(3), m.group(4), m.group(2) == '!'


def judge(L, case):
    v, t, o = roundtrip(L, case)
    if v == 'bad':
        return v, t, o
    v2, t2, o2 = L.accept(case)
    if v2 == 'bad':
        return v2, t2, o2
    und = v == 'undet' or v2 == 'undet'
    if o2 is None:
        return 'undet', t2, o2
    it, outs = o2
    for st, r in outs:
        if it.vname(r) != 'Ok':
            continue
        kind, var, x = L.payload(it, st, r)
        root = (x.a[2] if len(x.a) == 3 else x) if kind == 'Attribute' else x
        for path, kw, vn, exact in kw_of(case):
            val = L.get(it, st, root, path)
            val = L.enter(it, st, val) if val is not None else None
            if val is None or val.op != 'adt':
                und = True
                continue
            if it.models.dimpl.get(val.a[0]) is not None and not (case.prefix == 'b=') and kw:
                for s, y in it.models.disp_multi(None, 0, st.copy(), val, val.a[0]):
                    z = spell(L.P, y)
                    z = z.split(' ')[0].split(':')[0] if '\0' in z else z
                    if not (z == kw or not exact and z.lower() == kw.lower()):
                        return 'bad', 'has the keyword `%s`, but %s::%s is printed as `%s`' % (
                            kw, short(L.P.types[val.a[0]]['n']), vn, spell(L.P, y)), o2
            for s, y in printing(L, it, st, kind, x, case.prefix):
                z = spell(L.P, y)
                if kw and z and not re.search(r'(?<![A-Za-z0-9-])' + re.escape(kw) + r'(?![A-Za-z0-9-])', z, 0 if exact else re.I):
                    return 'bad', 'has the keyword `%s`, but is printed as `%s`' % (kw, say(L.P, y)), o2
    return ('undet' if und else 'ok'), t or t2, o2


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    cases, seen, kws = [], set(), set()
    for c in all_cases(P):
        k = tuple((p, kw) for p, kw, _, _ in kw_of(c))
        if not k and c.text:
            continue
        new = {(c.prefix, p, kw) for p, kw in k} - seen
        if not new and c.text:
            continue
        seen |= new
        kws |= {(c.prefix, p, kw) for p, kw in k}
        c.what = 'keyword'
        cases.append(c)
    batch(ctx, L, cases, 'keyword', judge)
    unk = []
    for line, text in UNKNOWN:
        c = Case(P, line, 'Attribute', None, text, None)
        if '{' in line:
            c = Case(P, 'a=', 'Attribute', None, line[2:] + text, None)
        c.what = 'unknown'
        unk.append(c)
    batch(ctx, L, unk, 'unknown', lambda L, c: L.refuse(c))
    ctx.floor(len(kws), 70, 'keywords')
    finish_lines(ctx, L, 60)
