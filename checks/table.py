"""The lines the crate supports, transcribed from the specifications (RFC 8866, 8839, 8285, 8122, 5888, 5576, 4585, 5104, 6236,
8851, 8853, 8864, 5761, 8858, 6184, 7741, 7587, 4588, 2198, 4733, 8832/8841 and the drafts the crate names)."""

FMTP0 = dict({'parameters.' + k: 0 for k in (
    'packetization_mode max_fs max_cpb max_dpb max_br max_mbps max_fr maxaveragebitrate ptime minptime maxptime').split()},
    **{'parameters.profile_level_id': 0x42000A, 'parameters.maxplaybackrate': 48000})

EXTS = ['‹| <raddr> ‹{raddr:4}|{raddr:6}|{raddr:d}››', '‹| <rport> {rport:0-65535}›',
        '‹| <tcptype> ‹{tcp_type=active:Active}|{tcp_type=passive:Passive}|{tcp_type=so:Simultaneous}››',
        '‹| <generation> {generation:n32}›', '‹| <ufrag> {ufrag}›', '‹| <network-cost> {networkcost:n32}›',
        '‹| {unknown_extensions[0].0} {unknown_extensions[0].1}‹| {unknown_extensions[1].0} {unknown_extensions[1].1}››']
CAND = ('{foundation} {component:n32} ‹{transport=udp:Udp}|{transport=tcp:Tcp}› {priority:n64} ‹{address:4}|{address:6}|'
        '{address:d}› {port:0-65535} <typ> ‹{c_type=host:Host}|{c_type=srflx:Srflx}|{c_type=prflx:Prflx}|{c_type=relay:Relay}›')

FMTP_P = ['<profile-level-id>={parameters.profile_level_id:x24}', '<packetization-mode>={parameters.packetization_mode:0-2}',
          '<level-asymmetry-allowed>={parameters.level_asymmetry_allowed=!1:true}', '<max-mbps>={parameters.max_mbps:n32}',
          '<max-fs>={parameters.max_fs:n32}', '<max-cpb>={parameters.max_cpb:n32}', '<max-dpb>={parameters.max_dpb:n32}',
          '<max-br>={parameters.max_br:n32}', '<max-fr>={parameters.max_fr:n32}', '<profile>={parameters.profile:0-2}',
          '<level-idx>={parameters.level_idx:0-31}', '<tier>={parameters.tier:0-1}',
          '<maxplaybackrate>={parameters.maxplaybackrate:n32}', '<maxaveragebitrate>={parameters.maxaveragebitrate:n32}',
          '<ptime>={parameters.ptime:n32}', '<maxptime>={parameters.maxptime:n32}', '<minptime>={parameters.minptime:n32}',
          '<usedtx>={parameters.usedtx=!1:true}', '<stereo>={parameters.stereo=!1:true}',
          '<useinbandfec>={parameters.useinbandfec=!1:true}', '<cbr>={parameters.cbr=!1:true}']


def fmtp():
    yield 'fmtp:{payload_type:n8} %s' % '‹' + '|'.join(FMTP_P) + '›'


SETX = '‹{%s.x.0[0]:n32}|[{%s.x.0:0-99}:{%s.x.1:100-4294967295}]|[{%s.x.0:0-99}:{%s.x.2:n32}:{%s.x.1:100-4294967295}]|[{%s.x.0[0]:n32},{%s.x.0[1]:n32}]|[{%s.x.0[0]:n32},{%s.x.0[1]:n32},{%s.x.0[2]:n32}]›'
SETY = SETX.replace('.x.', '.y.')


def iset(p):
    def sub(s):
        return s.replace('%s', p)
    return '[x=' + sub(SETX) + ',y=' + sub(SETY) + sub(
        '‹|,sar=‹{%s.sar.0[0]:f32}|[{%s.sar.0=~0.5}-{%s.sar.1=~1.5}]|[{%s.sar.0[0]=~0.5},{%s.sar.0[1]=~1.25}]|[{%s.sar.0[0]=~0.5},{%s.sar.0[1]=~1.25},{%s.sar.0[2]=~2.5}]››'
        '‹|,par=[{%s.par.min=~0.5}-{%s.par.max=~2.5}]›‹|,q={%s.q:f32}›') + ']'


RIDP = ['max-width={params.max_width:n32}', 'max-height={params.max_height:n32}', 'max-fps={params.max_fps:n32}',
        'max-fs={params.max_fs:n32}', 'max-br={params.max_br:n32}', 'max-pps={params.max_pps:n32}',
        'depends={depends[0]}‹|,{depends[1]}›', '{params.unknown[0]==foo=bar}']
RID0 = {'params.max_' + k: 0 for k in 'width height fps fs br pps'.split()}

FLAGS = [('bundle-only', 'BundleOnly'), ('end-of-candidates', 'EndOfCandidates'), ('extmap-allow-mixed', 'ExtmapAllowMixed'),
         ('ice-lite', 'IceLite'), ('ice-mismatch', 'IceMismatch'), ('inactive', 'Inactive'), ('recvonly', 'Recvonly'),
         ('rtcp-mux', 'RtcpMux'), ('rtcp-mux-only', 'RtcpMuxOnly'), ('rtcp-rsize', 'RtcpRsize'), ('sendonly', 'Sendonly'),
         ('sendrecv', 'Sendrecv')]

HASHES = [('sha-1', 'Sha1', 20), ('sha-224', 'Sha224', 28), ('sha-256', 'Sha256', 32), ('sha-384', 'Sha384', 48),
          ('sha-512', 'Sha512', 64)]

# attribute name -> [(variant, text, defaults)]
ATTRS = []


def A(name, variant, text, dflt=None):
    ATTRS.append((name, variant, text, dflt))


A('candidate', 'Candidate', CAND)
A('candidate', 'Candidate', CAND.split('‹{address:4}')[0].replace('‹{transport=udp:Udp}|{transport=tcp:Tcp}›', '{transport=udp:Udp}') +
  '{address:4} {port:0-65535} <typ> {c_type=host:Host}' + ''.join(EXTS))
A('candidate', 'Candidate', '{foundation} {component:n32} {transport=tcp:Tcp} {priority:n64} {address:6} {port:0-65535} <typ> '
  '{c_type=relay:Relay}' + ''.join(reversed(EXTS[:-1])))
A('dtls-message', 'DtlsMessage', '‹{=!client:Client}|{=!server:Server}› {0}')
A('extmap', 'Extmap', '{id:n16}‹|/{direction=recvonly:Recvonly}|/{direction=sendonly:Sendonly}|/{direction=sendrecv:Sendrecv}› '
  '{url}‹| {extension_attributes}| {extension_attributes==foo bar}›')
for n, v, k in HASHES:
    A('fingerprint', 'Fingerprint', '{hash_algorithm=%s:%s} %s' % (n, v, ':'.join('{fingerprint[%d]:x8}' % i for i in range(k))))
A('fmtp', 'Fmtp', '{payload_type:n8} ‹' + '|'.join(FMTP_P) + '›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ' + ';'.join(FMTP_P), FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ' + ';'.join(reversed(FMTP_P)), FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ‹<level-asymmetry-allowed>={parameters.level_asymmetry_allowed=!0:false}|'
  '<usedtx>={parameters.usedtx=!0:false}|<stereo>={parameters.stereo=!0:false}|'
  '<useinbandfec>={parameters.useinbandfec=!0:false}|<cbr>={parameters.cbr=!0:false}›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} <apt>={parameters.rtx.apt:n8}‹|;<rtx-time>={parameters.rtx.rtx_time:n32}›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} {parameters.encodings[0]:0-128}/{parameters.encodings[1]:0-128}'
  '‹|/{parameters.encodings[2]:0-128}›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ‹{parameters.dtmf_tones==0-15}|{parameters.dtmf_tones==0-15,66}|'
  '{parameters.dtmf_tones==100}|{parameters.dtmf_tones==0,1,2,3}|{parameters.dtmf_tones==99-100}›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} {parameters.unknown_tokens[0]==foo=bar}‹|;{parameters.unknown_tokens[1]==xyzzy=Zork9}›', FMTP0)
for _i, _p in enumerate(FMTP_P):
    if '=!' not in _p:
        A('fmtp', 'Fmtp', '{payload_type:n8} ' + _p.replace(':', '+a:') + ';' + _p.replace(':', '+b:'), FMTP0)
    for _k in (1, 5):
        A('fmtp', 'Fmtp', '{payload_type:n8} ' + _p + ';' + FMTP_P[(_i + _k) % len(FMTP_P)], FMTP0)
    A('fmtp', 'Fmtp', '{payload_type:n8} ‹{parameters.unknown_tokens[0]==foo=bar}|{parameters.unknown_tokens[0]:p}|{parameters.unknown_tokens[0]:P}›;' + _p, FMTP0)
    A('fmtp', 'Fmtp', '{payload_type:n8} ' + _p + ';{parameters.unknown_tokens[0]:P}', FMTP0)
# blanks around the semicolons (RFC 7587), empty parameters
A('fmtp', 'Fmtp', '{payload_type:n8} ' + '; '.join(FMTP_P), FMTP0)
for _i, _p in enumerate(FMTP_P):
    _q = FMTP_P[(_i + 3) % len(FMTP_P)]
    A('fmtp', 'Fmtp', '{payload_type:n8} ' + '‹%s; %s|%s ; %s|%s;;%s;|;%s;%s ;›' % ((_p, _q) * 4), FMTP0)
    A('fmtp', 'Fmtp', '{payload_type:n8} ‹' + _p + '; {parameters.unknown_tokens[0]:P}|{parameters.unknown_tokens[0]:p}; ' + _p + '›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} <max-fs>={parameters.max_fs:n32}; <apt>={parameters.rtx.apt:n8}; <rtx-time>={parameters.rtx.rtx_time:n32}', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ‹<max-fs>={parameters.max_fs:n32};|›<apt>={parameters.rtx.apt:n8}‹|;<rtx-time>={parameters.rtx.rtx_time:n32}›'
  '‹|;<max-fr>={parameters.max_fr:n32}|;{parameters.unknown_tokens[0]==foo=bar}›', FMTP0)
A('fmtp', 'Fmtp', '{payload_type:n8} ‹{parameters.unknown_tokens[0]:p}|{parameters.unknown_tokens[0]:P}›‹|;‹{parameters.unknown_tokens[1]:p}|{parameters.unknown_tokens[1]:P}››', FMTP0)
A('framerate', 'FrameRate', '‹{=~29.97}|{=~30}|{=~0.5}|{=~120.0}›')
A('group', 'Group', '‹{semantics=LS:LipSynchronization}|{semantics=FID:FlowIdentification}|{semantics=SRF:SingleReservationFlow}|'
  '{semantics=ANAT:AlternateNetworkAddressType}|{semantics=FEC:ForwardErrorCorrection}|{semantics=DDP:DecodingDependency}|'
  '{semantics=BUNDLE:Bundle}›‹| {tags[0]}| {tags[0]} {tags[1]}| {tags[0]} {tags[1]} {tags[2]}›')
A('ice-options', 'IceOptions', '{[0]}‹| {[1]}‹| {[2]}››')
A('ice-pacing', 'IcePacing', '{:0-9999999999}')
A('ice-pwd', 'IcePwd', '{}')
A('ice-ufrag', 'IceUfrag', '{}')
A('identity', 'Identity', '{}')
A('imageattr', 'ImageAttr', '‹{pt.0:n8}|{pt=!*:Wildcard}› send ‹{send=!*:Wildcard}|' + iset('send.0[0]') + '›')
A('imageattr', 'ImageAttr', '{pt.0:n8} recv ‹{recv=!*:Wildcard}|' + iset('recv.0[0]') + '›')
A('imageattr', 'ImageAttr', '{pt.0:n8} send ‹{send=!*:Wildcard}|[x={send.0[0].x.0[0]:n32},y={send.0[0].y.0[0]:n32}]|'
  '[x={send.0[0].x.0[0]:n32},y={send.0[0].y.0[0]:n32}] [x={send.0[1].x.0[0]:n32},y={send.0[1].y.0[0]:n32},q={send.0[1].q:f32}]› '
  'recv ‹{recv=!*:Wildcard}|[x={recv.0[0].x.0[0]:n32},y={recv.0[0].y.0[0]:n32}]|'
  '[x={recv.0[0].x.0[0]:n32},y={recv.0[0].y.0[0]:n32}] [x={recv.0[1].x.0[0]:n32},y={recv.0[1].y.0[0]:n32},q={recv.0[1].q:f32}]›')
A('imageattr', 'ImageAttr', '{pt.0:n8} recv [x={recv.0[0].x.0[0]:n32},y={recv.0[0].y.0[0]:n32}] '
  'send [x={send.0[0].x.0[0]:n32},y={send.0[0].y.0[0]:n32}]')
A('label', 'Label', '{}')
A('max-message-size', 'MaxMessageSize', '{:n64}')
A('maxptime', 'MaxPtime', '{:n64}')
A('mid', 'Mid', '{}')
A('msid', 'Msid', '{id}‹| {appdata}›')
A('msid-semantic', 'MsidSemantic', '{semantic}‹| {msids[0]}| {msids[0]} {msids[1]}| {msids[0]==*}›')
A('ptime', 'Ptime', '{:n64}')
A('rid', 'Rid', '{id} ‹{direction=!send:Send}|{direction=!recv:Recv}›‹| pt={formats[0]:n16}| pt={formats[0]:n16},{formats[1]:n16}| '
  'pt={formats[0]:n16},{formats[1]:n16},{formats[2]:n16}›', RID0)
A('rid', 'Rid', '{id} {direction=!send:Send} ‹' + '|'.join(RIDP) + '›', RID0)
A('rid', 'Rid', '{id} {direction=!recv:Recv} ‹|pt={formats[0]:n16};›' + ';'.join(RIDP), RID0)
A('rid', 'Rid', '{id} {direction=!recv:Recv} ' + ';'.join(reversed(RIDP)), RID0)
A('rid', 'Rid', '{id} {direction=!send:Send} ‹|pt={formats[0]:n16};›‹{params.unknown[0]:p}|{params.unknown[0]:P}›‹|;{params.unknown[1]:P}›', RID0)
for _p in RIDP[:-1]:
    if ':' in _p:
        A('rid', 'Rid', '{id} {direction=!recv:Recv} ' + _p.replace(':', '+a:') + ';' + _p.replace(':', '+b:'), RID0)
    A('rid', 'Rid', '{id} {direction=!send:Send} ‹{params.unknown[0]:P};' + _p + '|' + _p.replace('‹|,{depends[1]}›', '') + ';{params.unknown[0]:P}›', RID0)
A('remote-candidates', 'RemoteCandidate', '{component:n32} ‹{address:4}|{address:6}|{address:d}› {port:0-65535}')
A('rtpmap', 'Rtpmap', '{payload_type:0-127} {codec_name}/{frequency:n32}‹|/{channels:n32}›')
A('rtcp', 'Rtcp', '{port:n16}‹| <IN> <IP4> {unicast_addr:4}| <IN> <IP6> {unicast_addr:6}| <IN> {unicast_addr.address_type=IP4:IpV4} '
  '{unicast_addr:d}| <IN> {unicast_addr.address_type=IP6:IpV6} {unicast_addr:d}›')
PT = '‹{payload_type.0:n8}|{payload_type=!*:Wildcard}›'
A('rtcp-fb', 'Rtcpfb', PT + ' {feedback_type=!ack:Ack} ‹{parameter==rpsi}|{parameter==app}›‹| {extra}›')
A('rtcp-fb', 'Rtcpfb', PT + ' {feedback_type=!ccm:Ccm}‹| ‹{parameter==fir}|{parameter==tmmbr}|{parameter==tstr}|{parameter==vbcm}›'
  '‹| {extra}››')
A('rtcp-fb', 'Rtcpfb', PT + ' {feedback_type=!nack:Nack}‹| ‹{parameter==sli}|{parameter==pli}|{parameter==rpsi}|{parameter==app}›'
  '‹| {extra}››')
A('rtcp-fb', 'Rtcpfb', PT + ' {feedback_type=!trr-int:TrrInt} ‹{parameter==100}|{parameter==0}|{parameter==4294967295}›')
A('rtcp-fb', 'Rtcpfb', PT + ' ‹{feedback_type=!goog-remb:Remb}|{feedback_type=!transport-cc:TransCc}›')
A('sctpmap', 'Sctpmap', '{port:n16} <webrtc-datachannel> {channels:n32}')
A('sctp-port', 'SctpPort', '{:0-65535}')
A('setup', 'Setup', '‹{=active:Active}|{=actpass:Actpass}|{=holdconn:Holdconn}|{=passive:Passive}›')
SV = ('‹{%s[0].ids[0].id}|~{%s[0].ids[0].id}{%s[0].ids[0].paused=!:true}|{%s[0].ids[0].id},{%s[0].ids[1].id}|'
      '{%s[0].ids[0].id};{%s[1].ids[0].id}|{%s[0].ids[0].id},~{%s[0].ids[1].id}{%s[0].ids[1].paused=!:true};{%s[1].ids[0].id}›')
A('simulcast', 'Simulcast', 'send ' + SV.replace('%s', 'send') + '‹| recv ' + SV.replace('%s', 'receive') + '›')
A('simulcast', 'Simulcast', 'recv ' + SV.replace('%s', 'receive') + '‹| send ' + SV.replace('%s', 'send') + '›')
A('simulcast', 'Simulcast', 'send ‹|rid=›{send[0].ids[0].id}')
A('ssrc', 'Ssrc', '{id:n32}‹| {attribute}‹|:{value}››')
A('ssrc-group', 'SsrcGroup', '‹{0=DUP:Duplication}|{0=FID:FlowIdentification}|{0=FEC:ForwardErrorCorrection}|'
  '{0=FEC-FR:ForwardErrorCorrectionFr}|{0=SIM:Sim}› {1[0].id:n32}‹| {1[1].id:n32}‹| {1[2].id:n32}››')

# variant -> (allowed at session level, in a media section); 2: read and dropped there
SESSION_ONLY = 'Group IceLite IcePacing Identity MsidSemantic DtlsMessage'.split()
MEDIA_ONLY = ('BundleOnly Candidate Fmtp FrameRate IceMismatch ImageAttr Label MaxMessageSize MaxPtime Mid Msid Ptime Rid '
              'RemoteCandidate Rtpmap Rtcp Rtcpfb RtcpMux RtcpMuxOnly RtcpRsize Sctpmap SctpPort Simulcast Ssrc SsrcGroup').split()
LEVELS = {v: (v not in MEDIA_ONLY, 2 if v == 'DtlsMessage' else int(v not in SESSION_ONLY))
          for v in [x[1] for x in FLAGS] + [x[1] for x in ATTRS]}

# other lines: (line, type, text)
LINES = [
    ('v=', 'Version', '{=!0:0}'),
    ('o=', 'Origin', '{username} {session_id:n64} {session_version:n64} <IN> ‹<IP4> {unicast_addr:4}|<IP6> {unicast_addr:6}|'
     '{unicast_addr.address_type=IP4:IpV4} {unicast_addr:d}|{unicast_addr.address_type=IP6:IpV6} {unicast_addr:d}›'),
    ('s=', 'Session', '{}'),
    ('c=', 'Connection', '<IN> ‹<IP4> {address:4}|{address.address_type=IP4:IpV4} {address:d}›‹|/{ttl:n8}|/{ttl:n8}/{amount:n32}›'),
    ('c=', 'Connection', '<IN> ‹<IP6> {address:6}|{address.address_type=IP6:IpV6} {address:d}›‹|/{amount:n32}›'),
    ('b=', 'Bandwidth', '‹{=AS:As}:{0:n32}|{=CT:Ct}:{0:n32}|{=TIAS:Tias}:{0:n32}|{0}{=!:Unknown}:{1:n32}›'),
    ('t=', 'Timing', '{start:n64} {stop:n64}'),
    ('m=', 'Media', '‹{media=audio:Audio}|{media=video:Video}› {port:0-65535}‹|/{port_count:n32}› ‹{proto=RTP/AVP:RtpAvp}|'
     '{proto=RTP/AVPF:RtpAvpf}|{proto=RTP/SAVP:RtpSavp}|{proto=RTP/SAVPF:RtpSavpf}|{proto=TCP/DTLS/RTP/SAVP:TcpDtlsRtpSavp}|'
     '{proto=TCP/DTLS/RTP/SAVPF:TcpDtlsRtpSavpf}|{proto=UDP/TLS/RTP/SAVP:UdpTlsRtpSavp}|{proto=UDP/TLS/RTP/SAVPF:UdpTlsRtpSavpf}|'
     '{proto=DTLS/SCTP:DtlsSctp}|{proto=UDP/DTLS/SCTP:UdpDtlsSctp}|{proto=TCP/DTLS/SCTP:TcpDtlsSctp}› '
     '{formats.0[0]:96-127}‹| {formats.0[1]:20-63}‹| {formats.0[2]:3-18}››'),
    ('m=', 'Media', '{media=application:Application} {port:0-65535}‹|/{port_count:n32}› ‹{proto=UDP/DTLS/SCTP:UdpDtlsSctp}|'
     '{proto=TCP/DTLS/SCTP:TcpDtlsSctp}|{proto=DTLS/SCTP:DtlsSctp}› {formats.0[0]}‹| {formats.0[1]}›'),
]
LDFLT = {'m=': {'port_count': 0}, 'v=': {}, 's=': {}}
