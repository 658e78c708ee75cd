"""C25: builder and query functions do what they say."""
from api import *

LEVEL = 'other'
RULE = ('every public constructor, getter, setter, add and remove function of sessions, media sections and attributes is analysed '
        'on symbolic receivers (sections with no, one and several attributes, repeated kinds, both format list kinds) and '
        'symbolic arguments, for every attribute kind; on every path its result and every part of the receiver must be what '
        'its contract gives, and all other parts unchanged')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/', 'the contracts written in checks/props/c25.py']
CODEC = ('Rtpmap', 'Fmtp', 'Rtcpfb', 'Sctpmap', 'SctpPort')


def ent(n, v, t, m=1):
    return ('a', 'a=' + n + ':', 'Attribute', v, t, None, 0, m)


RTPMAP = ent('rtpmap', 'Rtpmap', '{payload_type:0-127} {codec_name}/{frequency:n32}')
FMTP = ent('fmtp', 'Fmtp', '{payload_type:n8} max-fs={parameters.max_fs:1-4294967295}')
FB = ent('rtcp-fb', 'Rtcpfb', '{payload_type.0:n8} {feedback_type=!nack:Nack}')
SCTPMAP = ent('sctpmap', 'Sctpmap', '{port:n16} webrtc-datachannel {channels:n32}')
SCTPPORT = ent('sctp-port', 'SctpPort', '{:0-65535}')
MMS = ent('max-message-size', 'MaxMessageSize', '{:n64}')
MEDIA = [['m'], ['m', 'am'], ['m', 'c4', 'b', 'bt', 'am', 'ap', 'ar', 'am'], ['md', 'c', 'ap', 'am', 'ap', 'b'],
         ['mv', 'b', RTPMAP, FMTP, 'am', RTPMAP, FB, 'ar', FMTP], ['md', SCTPPORT, 'am', MMS, SCTPMAP, 'c4', SCTPPORT]]
DTLS = ('m', 'm=', 'Media', None, '{media=application:Application} {port:0-65535} {proto=DTLS/SCTP:DtlsSctp} {formats.0[0]:96-127}', None)
TCP = ('m', 'm=', 'Media', None, '{media=application:Application} {port:0-65535} {proto=TCP/DTLS/SCTP:TcpDtlsSctp} {formats.0[0]}', None)
SESS = [['v', 'o', 's', 't'], ['v', 'o', 's', 't', 'c', 'a', 'm', 'am'],
        ['v', 'o', 's', 't', 'c4', 'b', 'bu', 'a', 'as', 'ar', 'a', 'ai', 'm', 'c', 'b', 'mv', 'am']]


def texts(name):
    """a text argument: a word, with blanks around, two words, with separators, empty"""
    h = hole(name)
    return [('', h), (':blanks', cat(S(' '), h, S(' '))), (':words', cat(h, S(' '), hole(name + '2'))),
            (':marks', cat(S('-"~;,:=/[{'), h, S(']}/=,:;~"- \t'))), (':empty', S('')), (':blank', S(' '))]


def shaped(it, st, x):
    """the value with each of its text parts so"""
    if x.op == 'hole':
        return [y for _, y in texts(x.a[0])[1:]]
    if x.op in ('box', 'adt', 'arr', 'tup'):
        k = 2 if x.op == 'adt' else 0
        sub = [shaped(it, st, y) if isinstance(y, T) else [] for y in x.a[k:]]
        n = max([len(y) for y in sub] or [0])
        return [mk(x.op, *x.a[:k], *[y[min(i, len(y) - 1)] if y else o for y, o in zip(sub, x.a[k:])], ty=x.ty) for i in range(n)]
    return []


def uop(P, name, ty):
    return mk('opq', name, ty=P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == ty))


def check(ctx):
    A = Api(ctx)
    P = ctx.p
    T0 = TInterp(P, 16)
    vals = {}
    for v, case in attrs(P):
        r = A.guard('value ' + v, lambda: A.value(case))
        if r is not None:
            vals[v] = r
    fix = [(i, A.guard('media', lambda: A.media(k))) for i, k in enumerate(MEDIA + [[DTLS, 'am', SCTPMAP, MMS], [TCP, SCTPPORT]])]
    fix = [(i, x) for i, x in fix if x]
    sfix = [(i, x) for i, x in ((i, A.guard('session', lambda: A.session(k))) for i, k in enumerate(SESS)) if x]
    ctx.cov['fixtures'] = len(fix) + len(sfix)

    def meth(ty, name, recv, argsf, contract, mut=True, kind=None):
        """contract(it, st, parts, args) -> (ok, want parts or None, ret)"""
        f = A.method(ty, name)
        if f is None:
            return
        parts = A.sparts if ty == 'SdpSession' else A.mparts
        for i, (st, x, _) in recv:
            for tag, st1, args in argsf(st):
                key = '%s::%s#%d%s' % (ty, name, i, tag)

                def run():
                    s = st.copy()
                    s.facts.update(st1.facts if st1 is not None else {})
                    it = TInterp(P, 64)
                    p = parts(it, s, x)
                    ok, want, ret = contract(it, s, dict(p), args)
                    A.expect(key, f, A.call(f, s, args, x, mut=mut), ok, want, parts if want else None, ret)
                A.guard(key, run)

    def kinds(it, st, arr):
        return [(it.vname(y), y) for y in arr.a]

    def none(st):
        return [('', None, [])]

    def every(st):
        return [(':' + v, s, [x]) for v, (s, x) in vals.items()] + \
            [(':%s~%d' % (v, i), s, [y]) for v, (s, x) in vals.items() for i, y in enumerate(shaped(T0, s, T0.simp(s, x)))]
    tyT = ctx.adt_ty('SdpAttributeType')

    def types(st):
        return [(':' + v, None, [A.enum('SdpAttributeType', v)]) for v in vals]

    def opt(like, v):
        return A.option(like, v)
    # ---- media: getters
    for name, fld in (('get_type', 'media'), ('get_port', 'port'), ('get_port_count', 'port_count'), ('get_proto', 'proto'),
                      ('get_formats', 'formats')):
        meth('SdpMedia', name, fix, none, lambda it, st, p, a, fld=fld: (None, None, A.field(p['line'], fld)), mut=False)
    for name, part in (('get_bandwidth', 'bandwidth'), ('get_attributes', 'attribute'), ('get_connection', 'connection')):
        meth('SdpMedia', name, fix, none, lambda it, st, p, a, part=part: (None, None, p[part]), mut=False)

    def ofkind(it, st, p, a):
        return None, None, mk('arr', *[y for n, y in kinds(it, st, p['attribute']) if n == it.vname(a[0])])
    getter(A, fix, 'SdpMedia', 'get_attribute', types, vals)
    getter(A, sfix, 'SdpSession', 'get_attribute', types, vals)
    meth('SdpMedia', 'get_attributes_of_type', fix, types, ofkind, mut=False)

    # ---- media: editing
    def upd(**kw):
        def c(it, st, p, a):
            for k, g in kw.items():
                p[k] = g(it, st, p, a)
            return None, p, None
        return c
    port = uop(P, 'newport', 'u32')
    meth('SdpMedia', 'set_port', fix, lambda st: [('', None, [port])],
         upd(line=lambda it, st, p, a: A.line(p['line'], port=a[0])))
    bw = A.guard('bw', lambda: A.value(Case(P, 'b=', 'Bandwidth', None, '{=TIAS:Tias}:{0:n32}', None, tag='X.')))
    con = A.guard('con', lambda: A.value(Case(P, 'c=', 'Connection', None, 'IN IP4 {address:4}/{ttl:n8}', None, tag='X.')))
    tim = A.guard('tim', lambda: A.value(Case(P, 't=', 'Timing', None, '{start:n64} {stop:n64}', None, tag='X.')))
    org = A.guard('org', lambda: A.value(Case(P, 'o=', 'Origin', None, '{username} {session_id:n64} {session_version:n64} IN IP4 {unicast_addr:4}', None, tag='X.')))
    mln = A.guard('mln', lambda: A.value(Case(P, 'm=', 'Media', None, '{media=video:Video} {port:0-65535}/{port_count:n32} {proto=RTP/AVP:RtpAvp} {formats.0[0]:96-127}', None, tag='X.')))
    for ty, recv in (('SdpMedia', fix), ('SdpSession', sfix)):
        if bw:
            meth(ty, 'add_bandwidth', recv, lambda st: [('', bw[0], [bw[1]])],
                 upd(bandwidth=lambda it, st, p, a: mk('arr', *p['bandwidth'].a, a[0])))
        if con:
            meth(ty, 'set_connection', recv, lambda st: [('', con[0], [con[1]])],
                 upd(connection=lambda it, st, p, a: opt(p['connection'], a[0])))

    def allowed(v):
        return table.LEVELS[v][1] == 1

    def addm(it, st, p, a):
        v = it.vname(a[0])
        if allowed(v):
            p['attribute'] = mk('arr', *p['attribute'].a, a[0])
        return allowed(v), p, None

    def setm(it, st, p, a):
        v = it.vname(a[0])
        if allowed(v):
            p['attribute'] = mk('arr', *[y for n, y in kinds(it, st, p['attribute']) if n != v], a[0])
        return allowed(v), p, None

    def rem(it, st, p, a):
        p['attribute'] = mk('arr', *[y for n, y in kinds(it, st, p['attribute']) if n != it.vname(a[0])])
        return None, p, None
    meth('SdpMedia', 'add_attribute', fix, every, addm)
    meth('SdpMedia', 'set_attribute', fix, every, setm)
    meth('SdpMedia', 'remove_attribute', fix, types, rem)

    def fmts(it, st, p, xs):
        f = it.simp(st, A.field(p['line'], 'formats'))
        return A.line(p['line'], formats=mk('adt', f.a[0], f.a[1], mk('arr', *xs)))

    def remc(it, st, p, a):
        p['line'] = fmts(it, st, p, [])
        p['attribute'] = mk('arr', *[y for n, y in kinds(it, st, p['attribute']) if n not in CODEC])
        return None, p, None
    meth('SdpMedia', 'remove_codecs', fix, none, remc)

    def addc(it, st, p, a):
        f = it.simp(st, A.field(p['line'], 'formats'))
        pt = A.field(a[0], 'payload_type')
        old = A.elems(it, st, f.a[2])
        if it.vname(f) == 'Integers':
            new = old + [pt]
        else:
            new = old + [mk('disp', pt, P.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'u8'))]
        p['line'] = fmts(it, st, p, new)
        return True, p, None
    if 'Rtpmap' in vals:
        s, x = vals['Rtpmap']
        rtp = T0.simp(s, x.a[2])
        meth('SdpMedia', 'add_codec', fix, lambda st: [('', s, [rtp])] + [('~%d' % i, s, [y]) for i, y in enumerate(shaped(T0, s, rtp))],
             lambda it, st, p, a: (lambda r: (r[0], dict(r[1], attribute=mk('arr', *p['attribute'].a, mk('adt', x.a[0], x.a[1], a[0]))), None))(addc(it, st, p, a)))

    datachannel(A, fix, P, vals)
    # ---- sessions
    for name, part in (('get_version', 'version'), ('get_origin', 'origin'), ('get_session', 'session'), ('get_connection', 'connection')):
        meth('SdpSession', name, sfix, none, lambda it, st, p, a, part=part: (None, None, p[part]), mut=False)
    meth('SdpSession', 'get_session_text', sfix, none,
         lambda it, st, p, a: (None, None, p['session'].a[2] if len(p['session'].a) == 3 else S(' ')), mut=False)
    if tim:
        meth('SdpSession', 'set_timing', sfix, lambda st: [('', tim[0], [tim[1]])],
             upd(timing=lambda it, st, p, a: opt(p['timing'], a[0])))

    def adds(it, st, p, a):
        v = it.vname(a[0])
        if table.LEVELS[v][0]:
            p['attribute'] = mk('arr', *p['attribute'].a, a[0])
        return bool(table.LEVELS[v][0]), p, None
    meth('SdpSession', 'add_attribute', sfix, every, adds)
    sections = mk('arr', *[x for _, (_, x, _) in fix[:3]])
    meth('SdpSession', 'extend_media', sfix, lambda st: [('', fix[2][1][0], [sections]), (':none', None, [mk('arr')])],
         upd(media=lambda it, st, p, a: mk('arr', *p['media'].a, *a[0].a)))
    addmedia(A, sfix, P, vals, con)
    constructors(A, P, org, mln)
    ctx.cov['api_obligations'] = A.n
    ctx.cov['api_undetermined'] = A.und
    ctx.fnset |= A.fns
    ctx.floor(A.n, 1000, 'contract obligations')


def getter(A, recv, ty, name, types, vals):
    """get_attribute: the first attribute of the kind"""
    f = A.method(ty, name)
    P = A.P
    if f is None:
        return
    for i, (st, x, _) in recv:
        for tag, _, args in types(st):
            def run():
                for it, s, r, _ in A.call(f, st, args, x, mut=False):
                    arr = (A.sparts if ty == 'SdpSession' else A.mparts)(it, s, x)['attribute']
                    want = next((y for y in arr.a if it.vname(y) == it.vname(args[0])), None)
                    r = A.strip(it, s, r)
                    if it.vname(r) not in ('None', 'Some'):
                        A.und += 1
                        continue
                    key = '%s::%s#%d%s' % (ty, name, i, tag)
                    if it.vname(r) == 'None' or want is None:
                        A.tally((it.vname(r) == 'None') == (want is None), key, f, 'returns %s' % it.vname(r))
                    else:
                        A.tally(A.same(it, s, r.a[2], want), key, f, 'returns `%s`' % say(P, A.strip(it, s, r.a[2]))[:120])
            A.guard('%s::%s%s' % (ty, name, tag), run)


def datachannel(A, fix, P, vals):
    f = A.method('SdpMedia', 'add_datachannel')
    if f is None:
        return
    port, streams, size = uop(P, 'dcport', 'u16'), uop(P, 'dcstreams', 'u16'), uop(P, 'dcsize', 'u32')
    for i, (st, x, _) in fix:
        for sz, name in [(z, hole('dcname')) for z in (size, I(0), I(1), I(65536))] + [(size, y) for _, y in texts('dcname')[1:]]:
            def run():
                for it, s, r, after in A.call(f, st, [name, port, streams, sz], x):
                    p = A.mparts(it, s, x)
                    lo, hi = it.iv(s, sz)
                    if lo <= 0 < hi:
                        A.und += 1
                        continue
                    kinds = ['MaxMessageSize'] if lo > 0 else []
                    new = it.vname(it.simp(s, A.field(p['line'], 'proto'))) in ('UdpDtlsSctp', 'TcpDtlsSctp')
                    kinds.append('SctpPort' if new else 'Sctpmap')
                    key = 'SdpMedia::add_datachannel#%d:%s' % (i, 'new' if new else 'old')
                    ok = it.vname(A.strip(it, s, r))
                    if ok in ('Ok', 'Err'):
                        A.tally(ok == 'Ok', key + ':result', f, 'fails')
                    if ok != 'Ok':
                        continue
                    g = A.mparts(it, s, after)
                    rest = [y for y in p['attribute'].a if it.vname(y) not in kinds]
                    got = list(g['attribute'].a)
                    A.tally(A.same(it, s, mk('arr', *got[:len(rest)]), mk('arr', *rest)), key + ':others', f,
                            'changes other attributes')
                    added = {it.vname(y): y for y in got[len(rest):]}
                    A.tally(sorted(added) == sorted(kinds) and len(got) == len(rest) + len(kinds), key + ':added', f,
                            'adds the attributes %s' % sorted(added))
                    if 'SctpPort' in added and new:
                        A.tally(A.same(it, s, added['SctpPort'].a[2], port), key + ':port', f, 'stores another port')
                    if 'Sctpmap' in added and not new:
                        m = A.strip(it, s, added['Sctpmap'].a[2])
                        A.tally(A.same(it, s, A.field(m, 'port'), port), key + ':port', f, 'stores another port')
                        A.tally(A.same(it, s, A.field(m, 'channels'), streams), key + ':streams', f, 'stores another stream count')
                    if 'MaxMessageSize' in added:
                        A.tally(A.same(it, s, added['MaxMessageSize'].a[2], sz), key + ':size', f, 'stores another size')
                    for n in ('connection', 'bandwidth'):
                        A.tally(A.same(it, s, g[n], p[n]), '%s:%s' % (key, n), f, 'changes the %s' % n)
                    fm = A.strip(it, s, A.field(g['line'], 'formats'))
                    A.tally(it.vname(fm) == ('Strings' if new else 'Integers'), key + ':formats', f, 'sets %s formats' % it.vname(fm))
                    A.tally(A.same(it, s, mk('arr', *A.elems(it, s, fm.a[2])), mk('arr', name if new else port)), key + ':format', f,
                            'sets another format')
                    A.tally(it.vname(A.strip(it, s, A.field(g['line'], 'media'))) == 'Application', key + ':type', f,
                            'leaves another media type')
                    for n in ('port', 'port_count', 'proto'):
                        A.tally(A.same(it, s, A.field(g['line'], n), A.field(p['line'], n)), '%s:%s' % (key, n), f, 'changes the %s' % n)
            A.guard('add_datachannel', run)


def addmedia(A, sfix, P, vals, con):
    f = A.method('SdpSession', 'add_media')
    if f is None or con is None:
        return
    port = uop(P, 'newport', 'u32')
    for i, (st, x, _) in sfix:
        for v in vals:
            for mv, pv in (('Audio', 'RtpSavpf'), ('Application', 'UdpDtlsSctp')):
                if v not in ('Sendrecv', 'Recvonly', 'Inactive', 'Mid', 'IceLite') and mv != 'Audio':
                    continue

                def run():
                    s = st.copy()
                    s.facts.update(vals[v][0].facts)
                    s.facts.update(con[0].facts)
                    addr = A.field(con[1], 'address')
                    args = [A.enum('SdpMediaValue', mv), vals[v][1], port, A.enum('SdpProtocolValue', pv), addr]
                    ok = table.LEVELS[v][1] == 1
                    for it, s, r, after in A.call(f, s, args, x):
                        key = 'SdpSession::add_media#%d:%s' % (i, v)
                        k = it.vname(A.strip(it, s, r))
                        if k not in ('Ok', 'Err'):
                            A.und += 1
                            continue
                        A.tally((k == 'Ok') == ok, key + ':result', f, 'returns %s for the direction %s' % (k, v))
                        p, g = A.sparts(it, s, x), A.sparts(it, s, after)
                        for n in p:
                            if n != 'media':
                                A.tally(A.same(it, s, g[n], p[n]), '%s:%s' % (key, n), f, 'changes the %s' % n)
                        old = p['media'].a
                        A.tally(A.same(it, s, mk('arr', *g['media'].a[:len(old)]), p['media']), key + ':media', f, 'changes other sections')
                        A.tally(len(g['media'].a) == len(old) + int(k == 'Ok'), key + ':count', f, 'leaves %d sections' % len(g['media'].a))
                        if k != 'Ok' or len(g['media'].a) != len(old) + 1:
                            continue
                        m = A.mparts(it, s, g['media'].a[-1])
                        for n, want in (('media', args[0]), ('port', port), ('proto', args[3])):
                            A.tally(A.same(it, s, A.field(m['line'], n), want), '%s:%s' % (key, n), f, 'stores another %s' % n)
                        fm = A.strip(it, s, A.field(m['line'], 'formats'))
                        A.tally(len(A.elems(it, s, fm.a[2])) == 0, key + ':formats', f, 'stores formats')
                        A.tally(A.same(it, s, m['attribute'], mk('arr', vals[v][1])), key + ':attribute', f, 'stores other attributes')
                        A.tally(len(m['bandwidth'].a) == 0, key + ':bandwidth', f, 'stores bandwidths')
                        c = A.some(it, s, m['connection'])
                        A.tally(c is not None and A.same(it, s, A.field(c, 'address'), addr), key + ':address', f, 'stores another address')
                        if c is not None:
                            A.tally(A.some(it, s, A.field(c, 'ttl')) is None and A.some(it, s, A.field(c, 'amount')) is None,
                                    key + ':ttl', f, 'stores a ttl or count')
                A.guard('add_media', run)


def constructors(A, P, org, mln):
    def opq(n, ty):
        return mk('opq', n, ty=ty)
    st0 = State()

    def ctor(ty, name, args, want, st=None, key=''):
        f = A.method(ty, name)
        if f is None:
            return

        def run():
            for it, s, r, _ in A.call(f, st or st0, args):
                r = A.strip(it, s, r)
                for n, w in want.items():
                    g = A.strip(it, s, A.field(r, n)) if A.field(r, n) is not None else None
                    k = '%s::%s:%s%s' % (ty, name, n, key)
                    if g is None:
                        A.und += 1
                    elif w is None:
                        b = it.vname(g) == 'None' if g.op == 'adt' else len(g.a) == 0 if g.op == 'arr' else None
                        A.tally(b, k, f, 'sets `%s` to `%s`' % (n, say(P, g)))
                    else:
                        o = A.some(it, s, g) if g.op == 'adt' and short(P.types[g.a[0]]['n']) == 'Option' else g
                        A.tally(False if o is None else A.same(it, s, o, w), k, f, 'sets `%s` to `%s`' % (n, say(P, g)[:100]))
        A.guard(ty + name, run)
    u8, u16, u32 = uop(P, 'pt', 'u8'), uop(P, 'u16', 'u16'), uop(P, 'u32', 'u32')
    for k, codec in texts('codec'):
        ctor('SdpAttributeRtpmap', 'new', [u8, codec, u32],
             dict(payload_type=u8, codec_name=codec, frequency=u32, channels=None), key=k)
    ctor('SdpAttributeSsrc', 'new', [u32], dict(id=u32, attribute=None, value=None))
    ctor('SdpAttributeRtcp', 'new', [u16], dict(port=u16, unicast_addr=None))
    ctor('SdpAttributeSimulcastId', 'new', [box(hole('sid'))], dict(id=hole('sid'), paused=FALSE))
    ctor('SdpAttributeSimulcastId', 'new', [box(cat(S('~'), hole('sid')))], dict(id=hole('sid'), paused=TRUE), key='~')
    for k, t in texts('sid')[1:]:
        ctor('SdpAttributeSimulcastId', 'new', [box(t)], dict(id=t, paused=FALSE), key=k)
        ctor('SdpAttributeSimulcastId', 'new', [box(cat(S('~'), t))], dict(id=t, paused=TRUE), key='~' + k)
    u64 = uop(P, 'prio', 'u64')
    for tr in ('Udp', 'Tcp'):
        for ct in ('Host', 'Srflx', 'Prflx', 'Relay'):
            try:
                t, c = A.enum('SdpAttributeCandidateTransport', tr), A.enum('SdpAttributeCandidateType', ct)
            except Exception:
                continue
            aty = A.ctx.adt_ty('Address')
            a = mk('opq', 'addr', ty=aty)
            comp = uop(P, 'comp', 'u32')
            for k, found in texts('found'):
                ctor('SdpAttributeCandidate', 'new', [found, comp, t, u64, a, u32, c],
                     dict(foundation=found, component=comp, transport=t, priority=u64, address=a, port=u32, c_type=c, raddr=None,
                          rport=None, tcp_type=None, generation=None, ufrag=None, networkcost=None, unknown_extensions=None), key=tr + ct + k)
    if mln:
        f = A.method('SdpMedia', 'new')
        if f is not None:
            def run():
                for it, s, r, _ in A.call(f, mln[0], [mln[1]]):
                    g = A.mparts(it, s, A.strip(it, s, r))
                    A.tally(A.same(it, s, g['line'], mln[1]), 'SdpMedia::new:line', f, 'stores another media line')
                    A.tally(it.vname(g['connection']) == 'None', 'SdpMedia::new:connection', f, 'sets a connection')
                    A.tally(not g['bandwidth'].a and not g['attribute'].a, 'SdpMedia::new:lists', f, 'adds lines')
            A.guard('SdpMedia::new', run)
    if org:
        ver = uop(P, 'version', 'u64')
        empty = dict(version=ver, origin=org[1], connection=None, bandwidth=None, timing=None, attribute=None, media=None, warnings=None)
        for k, txt, w in (('', hole('name'), hole('name')), (':spaces', cat(S('  '), hole('name'), S(' ')), hole('name')),
                          (':words', cat(hole('name'), S(' '), hole('more')), cat(hole('name'), S(' '), hole('more'))),
                          (':empty', S(''), None), (':blank', S('  '), None)):
            ctor('SdpSession', 'new', [ver, org[1], txt], dict(empty, session=w), st=org[0], key=k)
