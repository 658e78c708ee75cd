"""C07: errors are classified and located faithfully."""
from docs import *
import itertools
import table

LEVEL = 'other'
RULE = ('parse_sdp_line is analysed on line templates that must be refused, with a symbolic line number: every path must return '
        'an error with the whole line as text, that number, the kind the cause calls for (number, float, address, host name, '
        'address type, unsupported, other) and the Unsupported form exactly for unsupported causes; parse_sdp is analysed on '
        'description templates with the failing lines at every position, blank lines between and different line ends: the '
        'returned error and every warning must belong to one of the failing lines, with its own text and number; the '
        'conversions into the error type keep the cause')
TRUSTED = ['rustc MIR', 'std models in engine/']
I_, F_, G_, U_, AD, DO, MM = ('Integer', 'Float', 'Generic', 'Unsupported', 'IpAddress', 'Domain',
                              'AddressTypeMismatch')
# (line, cause); None: any malformed kind
BAD = [
    ('a={}', U_), ('a={}:{v}', U_), ('a=foo', U_), ('a=foo:bar', U_), ('a=mid2:{}', U_), ('a=group2:BUNDLE {}', U_),
    ('m=text{} 9 RTP/AVP 0', U_), ('m={} 9 RTP/AVP 0', U_), ('m=text 9 RTP/AVP 0', U_), ('m=message 9 RTP/AVP 0', U_),
    ('m=audio 9 {} 0', U_), ('m=audio 9 RTP/FOO 0', U_), ('m=audio 9 udp 0', U_),
    ('a=group:{} 1', U_), ('a=group:FOO {}', U_), ('a=ssrc-group:{} 1', U_), ('a=ssrc-group:FOO 1 2', U_),
    ('a=rtcp-fb:{:n8} {t}', U_), ('a=rtcp-fb:* foo', U_), ('a=rtcp-fb:96 ack {}', U_), ('a=rtcp-fb:96 ccm {}', U_),
    ('a=rtcp-fb:96 nack {}', U_), ('a=rtcp-fb:96 goog-remb {}', U_), ('a=rtcp-fb:96 transport-cc {}', U_),
    ('a=fingerprint:{} 00:11', U_), ('a=fingerprint:md5 {:x8}', U_),
    # numbers
    ('t=0 x{}', I_), ('t=x{} 0', I_), ('t={} {b}', I_), ('t=-1 0', I_), ('t=0 18446744073709551616', I_),
    ('v=x{}', I_), ('v={}', I_), ('v=18446744073709551616', I_), ('v=-1', I_),
    ('o=- x{} 0 IN IP4 1.2.3.4', I_), ('o=- 0 x{} IN IP4 1.2.3.4', I_),
    ('c=IN IP4 1.2.3.4/x{}', I_), ('c=IN IP4 1.2.3.4/256', I_), ('c=IN IP4 1.2.3.4/1/x{}', I_),
    ('b=AS:x{}', I_), ('b=AS:4294967296', I_), ('b=CT:-1', I_), ('b=TIAS:{}', I_),
    ('m=audio x{} RTP/AVP 0', I_), ('m=audio 4294967296 RTP/AVP 0', I_), ('m=audio 9/x{} RTP/AVP 0', I_),
    ('m=audio 9 RTP/AVP x{}', I_), ('a=maxptime:x{}', I_), ('a=ptime:x{}', I_), ('a=ice-pacing:x{}', I_),
    ('a=max-message-size:x{}', I_), ('a=sctp-port:x{}', I_), ('a=ssrc:x{}', I_), ('a=ssrc:4294967296 cname:{}', I_),
    ('a=rtpmap:x{} opus/48000', I_), ('a=rtpmap:256 opus/48000', I_), ('a=rtpmap:96 opus/x{}', I_), ('a=rtpmap:96 opus/48000/x{}', I_),
    ('a=rtcp:x{}', I_), ('a=rtcp:65536', I_), ('a=extmap:x{} urn', I_), ('a=extmap:65536 {}', I_), ('a=sctpmap:x{} webrtc-datachannel 1', I_),
    ('a=sctpmap:5000 webrtc-datachannel x{}', I_), ('a=remote-candidates:x{} 1.2.3.4 9', I_), ('a=remote-candidates:1 1.2.3.4 x{}', I_),
    ('a=candidate:1 x{} UDP 1 1.2.3.4 9 typ host', I_), ('a=candidate:1 1 UDP x{} 1.2.3.4 9 typ host', I_),
    ('a=candidate:1 1 UDP 1 1.2.3.4 x{} typ host', I_), ('a=candidate:1 1 UDP 1 1.2.3.4 9 typ host rport x{}', I_),
    ('a=candidate:1 1 UDP 1 1.2.3.4 9 typ host generation x{}', I_), ('a=candidate:1 1 UDP 1 1.2.3.4 9 typ host network-cost x{}', I_),
    ('a=fmtp:x{} max-fs=1', I_), ('a=fmtp:96 max-fs=x{}', I_), ('a=fmtp:96 max-fr=4294967296', I_), ('a=fmtp:96 apt=x{}', I_),
    ('a=fmtp:96 apt=96;rtx-time=x{}', I_), ('a=rtcp-fb:x{} nack', I_), ('a=ssrc-group:FID x{}', I_), ('a=rid:{id} send pt=x{}', I_),
    ('a=rid:{id} send max-width=x{}', I_),
    # floats
    ('a=framerate:x{}', F_), ('a=framerate:1.x', F_),
    # addresses
    ('o=- 1 2 IN IP5 1.2.3.4', None), ('c=IN IP5 {:4}', None), ('c=IN {t} 1.2.3.4', None), ('a=rtcp:9 IN IP8 {:4}', None),
    ('o=- 1 2 IN IP4 {:6}', MM), ('c=IN IP6 {:4}', MM), ('c=IN IP4 ::1', MM), ('a=rtcp:9 IN IP4 {:6}', MM),
    # the rest
    ('{}', G_), ('=x', G_), ('=', G_), ('ab=c', G_), ('{x}=y', G_), ('a=', G_), ('t=', G_), ('v=1', G_), ('v={:1-4294967295}', G_),
    ('x={}', G_), ('q={v}', G_), ('e={}', G_), ('i={}', G_), ('k={}', G_), ('p={}', G_), ('r={}', G_), ('u={}', G_), ('z={}', G_),
    ('t=0', G_), ('t={:n64}', G_), ('o=-', G_), ('o={u} 1', G_), ('o={u} 1 2', G_), ('o={u} 1 2 IN', G_), ('o={u} 1 2 IN IP4', G_),
    ('o={u} 1 2 {t} IP4 1.2.3.4', G_), ('c=IN', G_), ('c=IN IP4', G_), ('c={t} IP4 1.2.3.4', G_), ('b={x}', G_),
    ('m=audio', G_), ('m=audio 9', G_), ('m=audio 9 RTP/AVP', G_), ('m=audio {:65536-4294967295} RTP/AVP 0', G_),
    ('m=audio 9 RTP/AVP {:128-4294967295}', G_), ('a=mid', G_), ('a=mid:', G_), ('a=ice-lite:{}', G_), ('a=sendrecv:x', G_),
    ('a=setup:{}', G_), ('a=rid:{id}', G_), ('a=rid:{id} {d}', G_), ('a=simulcast:{} {v}', G_), ('a=candidate:{}', G_),
    ('a=candidate:1 1 {t} 1 1.2.3.4 9 typ host', G_), ('a=candidate:1 1 UDP 1 1.2.3.4 9 typ {k}', G_),
    ('a=candidate:1 1 UDP 1 1.2.3.4 9 {k} host', G_), ('a=candidate:1 1 UDP 1 1.2.3.4 {:65536-4294967295} typ host', G_),
    ('a=rtpmap:96', G_), ('a=rtpmap:96 {c}', G_), ('a=rtpmap:{:128-255} opus/1', G_), ('a=sctp-port:{:65536-4294967295}', G_),
    ('a=ice-pacing:{:10000000000-99999999999}', G_), ('a=extmap:1', G_), ('a=extmap:1/{d} {url}', G_), ('a=sctpmap:1', G_),
    ('a=fingerprint:sha-1', G_), ('a=fingerprint:sha-1 {:x8}', G_), ('a=imageattr:96', None), ('a=imageattr:x{} send *', I_),
    ('a=msid:', G_), ('a=dtls-message:{x} y', G_), ('a=dtls-message:client', G_), ('a=remote-candidates:1', G_),
    ('a=rtcp-fb:96', G_), ('a=rtcp-fb:96 trr-int', G_), ('a=fmtp:96 profile-level-id=xyz', I_), ('a=fmtp:96 packetization-mode=3', G_),
    ('a=fmtp:96 usedtx={:2-9}', G_),
]
CONV = {'num::error::ParseIntError': I_, 'num::float_parse::ParseFloatError': F_, 'url::ParseError': DO, 'AddrParseError': AD}


BLANK = [bad(x) for x in ('t=0 x{} ', 'a=mid \t', ' a=mid', '\ta=mid:', 'x={}  ', '  {}', '{} ', 'm=audio 65536  RTP/AVP {} ', 'a=ptime: x{} ',
                          't=0  x', 'b=AS: x{}', 'a=ptime:{}\u00a0', 'a=ptime:{}\x0b', 'T=0 ', 'c= IN IP4 ')] + \
        [sup(x) for x in ('a=foo-{} ', 'a=foo-{}\t', 'a=foo-{}:{v} \t ', 'a=FOO-{}:{v} {v2} ', 'm=text-{} 9 RTP/AVP 0 ', 'a=group:XX-{} ',
                          'a= foo-{}', 'm=audio 9  UDP/FOO-{}  0 ', 'a=foo-{}\u00a0', 'a=Foo-{}')]


def same_line(L, case, it, st, r, cause):
    """verdict of one outcome of a refused line"""
    if it.vname(r) != 'Err':
        return (False if it.vname(r) else None), 'is not refused'
    e = it.simp(st, r.a[2])
    want = 'Unsupported' if cause == U_ else 'Line'
    if it.vname(e) not in ('Line', 'Unsupported', 'Sequence'):
        return None, ''
    inner = L.field(e, 'error')
    iv = it.vname(it.simp(st, inner)) if inner is not None else None
    if cause == '*':
        # the kind of the error and of its cause agree
        if iv is None:
            return None, ''
        want, cause = ('Unsupported' if iv == U_ else 'Line'), None
    if it.vname(e) != want:
        return False, 'is reported as %s(%s) instead of %s' % (it.vname(e), iv, want)
    if iv is not None and (iv == U_) != (want == U_):
        return False, 'reports the cause %s as %s' % (iv, want)
    if cause is not None and iv is not None and iv != cause:
        return False, 'reports the cause %s instead of %s' % (iv, cause)
    n = it.simp(st, L.field(e, 'line_number'))
    if n is not mk('opq', 'ln', ty=L.usize):
        return (False if n.op in ('int', 'opq', 'add', 'sub') else None), 'reports the line number `%s` instead of its own' % say(L.P, n)
    t = it.simp(st, L.field(e, 'line'))
    while t.op == 'box':
        t = it.simp(st, t.a[0])
    d = streq(case.line, t)
    if d is not True:
        return d, 'reports the text `%s`' % say(L.P, t)[:120]
    return (True if iv is not None else None), ''


def check(ctx):
    P = ctx.p
    D = Docs(ctx)
    cases = []
    for text, cause in BAD:
        for t in (text, text.replace('=', '= ', 1) + ' '):
            if t[:1] in '{=' and t != text or '= ' in t and cause == G_ and len(t) < 6:
                continue
            c = Case(P, '', None, None, t, None)
            c.cause = cause
            c.what = str(cause)
            cases.append(c)

    for c in mutants(P, ('word', 'key')):
        c.cause, c.what = '*', 'part'
        cases.append(c)

    def judge(L, case):
        try:
            it, outs = L.parse(case)
            js = [(st,) + same_line(L, case, it, st, r, case.cause) for st, r in outs]
        except Exception as e:
            return 'undet', repr(e), None
        bad = [j for j in js if j[1] is False and precise(j[0], case)]
        if bad or js and all(j[1] is False for j in js):
            return 'bad', (bad or js)[0][2], (it, outs)
        if js and all(j[1] is True for j in js):
            return 'ok', '', (it, outs)
        return 'undet', '; '.join(j[2] for j in js if j[1] is not True), (it, outs)
    batch(ctx, D, cases, 'error', judge)
    conversions(ctx, D)
    # whole descriptions
    docs = []
    for base in ('v o s t', 'v o s t c m am m'):
        base = base.split()
        for p in range(len(base) + 1):
            for k in ('u', 'uv', 'um', 'ug', 'e', 'em', 'et', 'ep'):
                for fill in ([], [' '], ['  ', ' ']):
                    docs.append(base[:p] + fill + [k] + base[p:])
            for x, y in itertools.product(('u', 'e', 'ep', 'uv'), repeat=2):
                docs.append(base[:2] + [x] + base[2:p] + [' ', y] + base[p:] if p >= 2 else [y] + base[:2] + [' ', x] + base[2:])
    for w in ('v o s t c m as', 'v o s t c m c c', 'v o s t a o', 'v o s t c m t', 'v o s t c am', 'v o s t a c a c'):
        w = w.split()
        docs += [w, w[:4] + [' '] + w[4:], [' ', ' '] + w, w + ['a' if 'm' not in w else 'ap']]
    # blanks of the failing line are part of its text
    for x in BLANK:
        for d in (['v', 'o', 's', 't', x], ['v', 'o', 's', 't', 'c', 'm', x, 'am'], ['v', 'o', 's', x, 't'],
                  ['v', 'o', 's', ' ', 't', 'c', 'm', 'u', x, 'u'], ['v', 'o', 's', '  ', 't', x, ' ', x[:4] + (x[4] + '\t',) + x[5:]]):
            docs.append(d)
    # line numbers and kinds after many lines
    for n in sizes(D):
        h = ['v', 'o', 's', 't', 'c', 'm']
        docs += [h + ['am'] * n + ['u'], h + [' '] * n + ['u', 'am', 'uv'], h + ['m'] * n + ['em'], h + [' ', 'am'] * n + ['o'],
                 h + ['u'] * n + ['et']]
    run_docs(ctx, D, [Doc(P, d, m, sep) for d in docs for m in (0, 1) for sep in ('\r\n', '\n')[:2 - (len(d) > 8)]],
             {'error', 'warnings'})
    finish_lines(ctx, D, 300)


def conversions(ctx, L):
    """From impls of the error type keep the cause"""
    P = ctx.p
    ety = ctx.adt_ty('SdpParserInternalError')
    n = 0
    for f in P.insts:
        if not (f['local'] and f['body'] and f['n'].endswith('::from') and f['body']['locals'][0] == ety and f['body']['argc'] == 1):
            continue
        aty = f['body']['locals'][1]
        want = next((v for k, v in CONV.items() if P.tname(aty).endswith(k.split('::')[-1]) and
                     (k.split('::')[0] in P.tname(aty) or '::' not in k)), None)
        if want is None:
            continue
        x = mk('opq', 'cause', ty=aty)
        it = TInterp(P, 32)
        try:
            outs = it.root(f, [x], State())[0]
        except Exception:
            continue
        for st, r in outs:
            v = it.vname(r)
            if v is None:
                continue
            n += 1
            ctx.check(v == want and len(r.a) == 3 and it.simp(st, r.a[2]) is x, 'from:' + want,
                      'a %s becomes %s' % (P.tname(aty), say(P, r)), f['span'])
    ctx.cov['conversions'] = n
