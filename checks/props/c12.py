"""C12: numbers are stored as written and accepted exactly inside their specified range."""
from lines import *

LEVEL = 'other'
RULE = ('for every numeric field the specifications bound, a symbolic number ranging over the whole interval must be accepted '
        'and stored unchanged on every path, and a symbolic number ranging over each interval outside of it (up to 2^64-1), as '
        'well as text that is no number of the type, must be refused on every path')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the ranges in checks/props/c12.py, transcribed from the RFCs']
U8, U16, U32, U64 = [2 ** w - 1 for w in (8, 16, 32, 64)]
BIG = '18446744073709551616'

# (line prefix, kind, variant, text, path, least, greatest); # stands for the number
NUM = [
    ('v=', 'Version', None, '#', '', 0, 0),
    ('o=', 'Origin', None, '{username} # 2 IN IP4 {unicast_addr:4}', 'session_id', 0, U64),
    ('o=', 'Origin', None, '{username} 1 # IN IP4 {unicast_addr:4}', 'session_version', 0, U64),
    ('t=', 'Timing', None, '# 0', 'start', 0, U64),
    ('t=', 'Timing', None, '0 #', 'stop', 0, U64),
    ('c=', 'Connection', None, 'IN IP4 {address:4}/#', 'ttl', 0, U8),
    ('c=', 'Connection', None, 'IN IP4 {address:4}/127/#', 'amount', 0, U32),
    ('c=', 'Connection', None, 'IN IP6 {address:6}/#', 'amount', 0, U32),
    ('b=', 'Bandwidth', None, 'AS:#', '0', 0, U32),
    ('b=', 'Bandwidth', None, 'CT:#', '0', 0, U32),
    ('b=', 'Bandwidth', None, 'TIAS:#', '0', 0, U32),
    ('b=', 'Bandwidth', None, '{0}:#', '1', 0, U32),
    ('m=', 'Media', None, 'audio # RTP/AVP 0', 'port', 0, 65535),
    ('m=', 'Media', None, 'video # UDP/TLS/RTP/SAVPF 96', 'port', 0, 65535),
    ('m=', 'Media', None, 'application # UDP/DTLS/SCTP {formats.0[0]}', 'port', 0, 65535),
    ('m=', 'Media', None, 'audio 9/# RTP/SAVPF 0', 'port_count', 0, U32),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} # udp 1 {address:4} 9 typ host', 'component', 0, U32),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp # {address:4} 9 typ host', 'priority', 0, U64),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp 1 {address:4} # typ host', 'port', 0, 65535),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp 1 {address:4} 9 typ srflx raddr {raddr:4} rport #', 'rport', 0, 65535),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp 1 {address:4} 9 typ host generation #', 'generation', 0, U32),
    ('a=candidate:', 'Attribute', 'Candidate', '{foundation} 1 udp 1 {address:4} 9 typ host network-cost #', 'networkcost', 0, U32),
    ('a=extmap:', 'Attribute', 'Extmap', '# {url}', 'id', 0, U16),
    ('a=extmap:', 'Attribute', 'Extmap', '#/sendonly {url}', 'id', 0, U16),
    ('a=fmtp:', 'Attribute', 'Fmtp', '# max-fs=9', 'payload_type', 0, U8),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 packetization-mode=#', 'parameters.packetization_mode', 0, 2),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 level-asymmetry-allowed=#', 'parameters.level_asymmetry_allowed', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 usedtx=#', 'parameters.usedtx', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 stereo=#', 'parameters.stereo', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 useinbandfec=#', 'parameters.useinbandfec', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 cbr=#', 'parameters.cbr', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 profile=#', 'parameters.profile', 0, 2),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 level-idx=#', 'parameters.level_idx', 0, 31),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 tier=#', 'parameters.tier', 0, 1),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 apt=#', 'parameters.rtx.apt', 0, U8),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 apt=97;rtx-time=#', 'parameters.rtx.rtx_time', 0, U32),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 #/9', 'parameters.encodings[0]', 0, 128),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 9/#', 'parameters.encodings[1]', 0, 128),
    ('a=fmtp:', 'Attribute', 'Fmtp', '96 9/9/#', 'parameters.encodings[2]', 0, 128),
    ('a=ice-pacing:', 'Attribute', 'IcePacing', '#', '', 0, 9999999999),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '# send *', 'pt.0', 0, U8),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 send [x=#,y=9]', 'send.0[0].x.0[0]', 0, U32),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 recv [x=9,y=[9:#]]', 'recv.0[0].y.1', 10, U32),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 recv [x=[#:100],y=9]', 'recv.0[0].x.0', 0, 99),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 recv [x=[#:4:100],y=9]', 'recv.0[0].x.0', 0, 99),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 recv [x=[9:#:100],y=9]', 'recv.0[0].x.2', 0, U32),
    ('a=imageattr:', 'Attribute', 'ImageAttr', '96 recv [x=[9,#],y=9]', 'recv.0[0].x.0[1]', 0, U32),
    ('a=max-message-size:', 'Attribute', 'MaxMessageSize', '#', '', 0, U64),
    ('a=maxptime:', 'Attribute', 'MaxPtime', '#', '', 0, U64),
    ('a=ptime:', 'Attribute', 'Ptime', '#', '', 0, U64),
    ('a=rid:', 'Attribute', 'Rid', '{id} send pt=#', 'formats[0]', 0, U16),
    ('a=rid:', 'Attribute', 'Rid', '{id} send pt=9,#', 'formats[1]', 0, U16),
    ('a=remote-candidates:', 'Attribute', 'RemoteCandidate', '# {address:4} 9', 'component', 0, U32),
    ('a=remote-candidates:', 'Attribute', 'RemoteCandidate', '1 {address:4} #', 'port', 0, 65535),
    ('a=rtpmap:', 'Attribute', 'Rtpmap', '# {codec_name}/9', 'payload_type', 0, 127),
    ('a=rtpmap:', 'Attribute', 'Rtpmap', '96 {codec_name}/#', 'frequency', 0, U32),
    ('a=rtpmap:', 'Attribute', 'Rtpmap', '96 {codec_name}/9/#', 'channels', 0, U32),
    ('a=rtcp:', 'Attribute', 'Rtcp', '#', 'port', 0, U16),
    ('a=rtcp:', 'Attribute', 'Rtcp', '# IN IP4 {unicast_addr:4}', 'port', 0, U16),
    ('a=rtcp-fb:', 'Attribute', 'Rtcpfb', '# transport-cc', 'payload_type.0', 0, U8),
    ('a=sctpmap:', 'Attribute', 'Sctpmap', '# webrtc-datachannel 9', 'port', 0, U16),
    ('a=sctpmap:', 'Attribute', 'Sctpmap', '9 webrtc-datachannel #', 'channels', 0, U32),
    ('a=sctp-port:', 'Attribute', 'SctpPort', '#', '', 0, 65535),
    ('a=ssrc:', 'Attribute', 'Ssrc', '#', 'id', 0, U32),
    ('a=ssrc:', 'Attribute', 'Ssrc', '# {attribute}:{value}', 'id', 0, U32),
    ('a=ssrc-group:', 'Attribute', 'SsrcGroup', 'FID # 9', '1[0].id', 0, U32),
    ('a=ssrc-group:', 'Attribute', 'SsrcGroup', 'FID 9 #', '1[1].id', 0, U32),
] + [('a=fmtp:', 'Attribute', 'Fmtp', '96 %s=#' % n, 'parameters.' + n.replace('-', '_'), 0, U32) for n in
     'max-mbps max-fs max-cpb max-dpb max-br max-fr maxplaybackrate maxaveragebitrate ptime minptime maxptime'.split()
     ] + [('a=rid:', 'Attribute', 'Rid', '{id} recv %s=#' % n, 'params.' + n.replace('-', '_'), 0, U32) for n in
          'max-width max-height max-fps max-fs max-br max-pps'.split()]

# single payload types of an RTP media line: RFC 3551 reserved and RTCP conflicting values are no payload types
MEDIA_PT = [(0, 0, True), (1, 1, False), (2, 2, False), (3, 18, True), (19, 19, False), (20, 63, True), (64, 95, False), (96, 127, True),
            (128, U32, False), (U32 + 1, U64, False)]

# (prefix, text) that must be refused: pairs out of order, malformed numbers
REFUSE = [
    ('a=imageattr:', '96 send [x=[{a:50-60}:{b:40-49}],y=9]'), ('a=imageattr:', '96 send [x=[{a:50-60}:2:{b:40-49}],y=9]'),
    ('a=imageattr:', '96 send [x=9,y=[{a:100-4000000000}:{b:0-99}]]'), ('a=imageattr:', '96 send [x=9,y=[7:7]]'),
    ('a=imageattr:', '96 send [x=9,y=9,sar=[1.5-0.5]]'), ('a=imageattr:', '96 send [x=9,y=9,sar=[0.5-0.5]]'),
    ('a=imageattr:', '96 send [x=9,y=9,par=[1.5-0.5]]'), ('a=imageattr:', '96 send [x=9,y=9,par=[2-1]]'),
    ('a=imageattr:', '96 send [x=9,y=9,sar=[NaN-0.5]]'), ('a=imageattr:', '96 send [x=9,y=9,par=[0.5-nan]]'),
    ('a=framerate:', '0'), ('a=framerate:', '0.0'), ('a=framerate:', 'nan'), ('a=framerate:', 'inf'), ('a=framerate:', 'infinity'),
    ('a=framerate:', '{w}'), ('a=fmtp:', '96 profile-level-id=1000000'), ('a=fmtp:', '96 profile-level-id=42000g'),
    ('a=fmtp:', '96 profile-level-id={w:x32h}'),
]
BAD = ['-1', '1.5', '0x10', '1e3', BIG, '99999999999999999999999999', '{zz}', '1{zz}', '12 ', ' 12']


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    acc, ref = [], []

    def case(line, kind, var, text, what, dflt=None):
        c = Case(P, line, kind, var, text, dflt)
        c.what = what
        return c

    def loose(c, path):
        """only the number matters here; the other fields are C19's"""
        c.only = path
        return c
    for line, kind, var, text, path, lo, hi in NUM:
        def num(a, b):
            return text.replace('#', '{%s:%d-%d}' % (path, a, b))
        acc.append(loose(case(line, kind, var, num(lo, hi), 'inside'), path))
        ref.append(case(line, kind, var, num(hi + 1, U64), 'above')) if hi < U64 else None
        ref.append(case(line, kind, var, num(0, lo - 1), 'below')) if lo > 0 else None
        for b in BAD:
            if ' ' in b and (not text.endswith('#') or 1):
                continue
            ref.append(case(line, kind, var, text.replace('#', b), 'malformed'))
    for lo, hi, ok in MEDIA_PT:
        for proto in ('RTP/AVP', 'UDP/TLS/RTP/SAVPF'):
            for pre, i in (('', 0), ('0 ', 1)):
                t = 'audio 9 %s %s{formats.0[%d]:%d-%d}' % (proto, pre, i, lo, hi)
                if ok:
                    acc.append(loose(case('m=', 'Media', None, t, 'inside'), 'formats.0[%d]' % i))
                else:
                    ref.append(case('m=', 'Media', None, t, 'outside'))
    c = case('a=fmtp:', 'Attribute', 'Fmtp', '96 profile-level-id={parameters.profile_level_id:x24}', 'inside')
    acc.append(loose(c, 'parameters.profile_level_id'))
    for line, text in REFUSE:
        if 'x32h' in text:
            c = Case(P, line, 'Attribute', 'Fmtp', text.replace('x32h', 'x32'), None)
            c.facts = [(c.exp['w'], 2 ** 24, 2 ** 32 - 1)]
            c.what = 'above'
            ref.append(c)
            continue
        ref.append(case(line, 'Attribute', None, text, 'refused'))
    ref += list(mutants(P, ('word', 'above')))
    batch(ctx, L, acc, 'inside', accept_only)
    batch(ctx, L, ref, 'outside', lambda L, c: L.refuse(c))
    finish_lines(ctx, L, 150)
    ctx.floor(len(NUM), 40, 'numeric_fields')


def accept_only(L, case):
    """accepted on every path with the number in its field"""
    it, outs = L.parse(case)
    p = case.only
    und = None
    for st, r in outs:
        if it.vname(r) == 'Err':
            if precise(st, case):
                return 'bad', 'is refused' + cond(L.P, it, case, st), (it, outs)
            und = 'Err?'
            continue
        kind, var, x = L.payload(it, st, r)
        if kind != case.kind or var != case.variant:
            und = 'kind'
            continue
        root = (x.a[2] if len(x.a) == 3 else x) if kind == 'Attribute' else x
        try:
            v = L.get(it, st, root, p)
        except Undet as e:
            und = str(e)
            continue
        m = L.matches(it, st, case.exp[p], v)
        if m is False and precise(st, case):
            return 'bad', 'stores `%s` instead of the number of field `%s`%s' % (
                say(L.P, v) if v is not None else 'nothing', p, cond(L.P, it, case, st)), (it, outs)
        if not m:
            und = 'value'
    return ('undet', und, (it, outs)) if und else ('ok', '', (it, outs))
