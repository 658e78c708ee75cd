"""Document templates: whole descriptions made of line templates, a reference model of the document grammar, and the comparison
of the crate's whole-document parser with it."""
from lines import *
import table

# key -> (line type letter, prefix, kind, variant, text, defaults, session level, media level)
CAT = {
    'v': ('v', 'v=', 'Version', None, '{=!0:0}', None),
    'o': ('o', 'o=', 'Origin', None, '{username==verification.of.descriptions} {session_id:n64} {session_version:n64} <IN> <IP4> {unicast_addr:4}', None),
    's': ('s', 's=', 'Session', None, '{}', None),
    't': ('t', 't=', 'Timing', None, '{start:n64} {stop:n64}', None),
    'c': ('c', 'c=', 'Connection', None, '<IN> <IP6> {address:6}', None),
    'c4': ('c', 'c=', 'Connection', None, '<IN> <IP4> {address:4}/{ttl:n8}', None),
    'b': ('b', 'b=', 'Bandwidth', None, '{=AS:As}:{0:n32}', None),
    'bt': ('b', 'b=', 'Bandwidth', None, '{=TIAS:Tias}:{0:n32}', None),
    'bu': ('b', 'b=', 'Bandwidth', None, '{0}{=!:Unknown}:{1:n32}', None),
    'm': ('m', 'm=', 'Media', None, '{media=audio:Audio} {port:0-65535} {proto=RTP/SAVPF:RtpSavpf} {formats.0[0]:96-127}', {'port_count': 0}),
    'mv': ('m', 'm=', 'Media', None, '{media=video:Video} {port:0-65535} {proto=UDP/TLS/RTP/SAVPF:UdpTlsRtpSavpf} {formats.0[0]=!96:96} {formats.0[1]=!97:97}', {'port_count': 0}),
    'md': ('m', 'm=', 'Media', None, '{media=application:Application} {port:0-65535} {proto=UDP/DTLS/SCTP:UdpDtlsSctp} {formats.0[0]}', {'port_count': 0}),
    # unsupported lines
    'u': ('u', 'a=', None, None, 'foo-{}', None),
    'uv': ('u', 'a=', None, None, 'x-{}:{val}', None),
    'um': ('u', 'm=', None, None, 'text-{} 9 RTP/AVP 0', None),
    'ug': ('u', 'a=', None, None, 'group:XX-{} {tag}', None),
    # malformed lines
    'e': ('e', 't=', None, None, '0 x{}', None),
    'em': ('e', 'a=', None, None, 'mid', None),
    'et': ('e', 'x=', None, None, '{}', None),
    'ep': ('e', 'm=', None, None, 'audio 65536 RTP/AVP {}', None),
    # blank lines
    ' ': (' ', '', None, None, '', None),
    '  ': (' ', ' \t ', None, None, '', None),
}
# attributes: key -> (name, variant, text, defaults, allowed in the session, allowed in a media section, ignored there)
ATT = {
    'a': ('ice-ufrag', 'IceUfrag', '{}', None, 1, 1),
    'as': ('ice-lite', 'IceLite', None, None, 1, 0),
    'am': ('mid', 'Mid', '{}', None, 0, 1),
    'ai': ('identity', 'Identity', '{}', None, 1, 0),
    'ap': ('ptime', 'Ptime', '{:n64}', None, 0, 1),
    'ar': ('sendrecv', 'Sendrecv', None, None, 1, 1),
    'ax': ('extmap', 'Extmap', '{id:n16} {url}', None, 1, 1),
    'aw': ('ice-pwd', 'IcePwd', '{}', None, 1, 1),
    'af': ('rtpmap', 'Rtpmap', '{payload_type:0-127} {codec_name}/{frequency:n32}/{channels:n32}', None, 0, 1),
    'ad': ('dtls-message', 'DtlsMessage', '{=!client:Client} {0}', None, 1, 2),
}
for _k, (_n, _v, _t, _d, _s, _m) in ATT.items():
    CAT[_k] = ('a', 'a=' + _n + (':' if _t is not None else ''), 'Attribute', _v, _t or '', _d, _s, _m)


def bad(text):
    """a malformed line"""
    return ('e', '', None, None, text, None)


def sup(text):
    """an unsupported line"""
    return ('u', '', None, None, text, None)


class Doc:
    """a description: line keys, or (key, text) for a line with another text"""

    def __init__(self, P, keys, strict=0, sep='\r\n', last=True, what=''):
        self.P, self.strict, self.what = P, strict, what
        self.keys, self.sep, self.last = list(keys), sep, last
        self.lines = []
        ps = []
        for i, k in enumerate(self.keys):
            ent = CAT[k] if isinstance(k, str) else k
            c = Case(P, ent[1], ent[2], ent[3], ent[4], ent[5], tag='L%d.' % i)
            c.letter = ent[0]
            c.ok_s, c.ok_m = ent[6:8] if len(ent) > 6 else (1, 1)
            c.meta = ent[8] if len(ent) > 8 else None
            c.key = k if isinstance(k, str) else ent[1] + ent[4]
            c.num = i
            self.lines.append(c)
            ps.append(c.line)
            if last or i + 1 < len(self.keys):
                ps.append(S(sep))
        self.text = cat(*[p for p in ps if not (p.op == 'str' and not p.a[0])])
        self.facts = [f for c in self.lines for f in c.facts]
        self.exp = {}

    def own(self):
        out = set()
        for c in self.lines:
            out |= c.own()
            out |= {y for h in c.holes.values() for y in subterms(h) if y.op in ('opq', 'hole')}
        return out

    def name(self):
        return ' '.join(c.key for c in self.lines) + (' [strict]' if self.strict else '')

    # ------------------------------------------------------------ the reference model
    def model(self):
        """('ok', structure) or ('err', [allowed error descriptions])"""
        errs = [('Line', c.num) for c in self.lines if c.letter == 'e']
        warn = [c for c in self.lines if c.letter == 'u']
        if self.strict:
            errs += [('Unsupported', c.num) for c in warn]
        s, e = self.structure([c for c in self.lines if c.letter not in 'eu '])
        if e is not None:
            errs.append(e)
        if errs:
            return 'err', errs
        s['warnings'] = warn
        return 'ok', s

    def structure(self, ls):
        def bad(c=None):
            return None, ('Sequence', None if c is None else c.num)
        if len(ls) < 4:
            return bad()
        for want, c in zip('vos', ls):
            if c.letter != want:
                return bad()
        s = dict(version=ls[0], origin=ls[1], session=ls[2], timing=[], connection=None, bandwidth=[], attribute=[], media=[])
        i = 3
        while i < len(ls) and ls[i].letter != 'm':
            c = ls[i]
            if c.letter in 'vos':
                return bad(c)
            if c.letter == 't':
                s['timing'].append(c)
            elif c.letter == 'c':
                if s['connection'] is not None:
                    return bad(c)
                s['connection'] = c
            elif c.letter == 'b':
                s['bandwidth'].append(c)
            elif c.letter == 'a':
                if not c.ok_s:
                    return bad(c)
                s['attribute'].append(c)
            i += 1
        for c in ls[i:]:
            if c.letter == 'm':
                s['media'].append(dict(media=c, connection=None, bandwidth=[], attribute=[]))
                continue
            m = s['media'][-1]
            if c.letter in 'vost':
                return bad(c)
            if c.letter == 'c':
                if m['connection'] is not None:
                    return bad(c)
                m['connection'] = c
            elif c.letter == 'b':
                m['bandwidth'].append(c)
            elif c.letter == 'a':
                if not c.ok_m:
                    return bad(c)
                if c.ok_m == 1:
                    m['attribute'].append(c)
        if not s['timing']:
            return bad()
        if s['connection'] is None and any(m['connection'] is None for m in s['media']):
            return bad()
        if any(c.variant == 'Extmap' for c in s['attribute']) and \
                any(c.variant == 'Extmap' for m in s['media'] for c in m['attribute']):
            return bad()
        for m in s['media']:
            vs = {c.variant for c in m['attribute']}
            if 'RtcpMuxOnly' in vs and 'RtcpMux' not in vs:
                return bad()
            rids = [c.meta for c in m['attribute'] if c.variant == 'Rid']
            fmts = m['media'].meta or []
            if any(f not in fmts for r in rids for f in r[2]):
                return bad()
            for c in m['attribute']:
                if c.variant == 'Simulcast':
                    for d in ('send', 'recv'):
                        if any(i not in [r[0] for r in rids if r[1] == d] for i in c.meta[d]):
                            return bad()
        return s, None


def rid(id, d, fmts=(), more=''):
    return ('a', 'a=rid:', 'Attribute', 'Rid', '%s %s%s' % (id, d, ' pt=' + ','.join(fmts) + ';' * bool(more) + more if fmts else ''), None, 0, 1,
            (id, d, list(fmts)))


def simulcast(text):
    ids, d = {'send': [], 'recv': []}, None
    for w in text.split():
        if w in ids:
            d = w
        else:
            ids[d] += [x.lstrip('~') for v in w.split(';') for x in v.split(',')]
    return ('a', 'a=simulcast:', 'Attribute', 'Simulcast', text, None, 0, 1, ids)


def media(kind, proto, fmts, port='9'):
    return ('m', 'm=', 'Media', None, '%s %s %s %s' % (kind, port, proto, ' '.join(fmts)), None, 1, 1, list(fmts))


def attr(text, variant, s=1, m=1):
    return ('a', 'a=', 'Attribute', variant, text, None, s, m)


class Docs(Lines):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.sdp_fn = ctx.fn('webrtc_sdp::parse_sdp')

    def parse_doc(self, doc, maxstates=160):
        it = TInterp(self.P, maxstates)
        st = State()
        for v, lo, hi in doc.facts:
            it.meet_iv(st, v, lo, hi)
        outs = it.root(self.sdp_fn, [box(doc.text), I(1 if doc.strict else 0)], st)[0]
        self.fns |= {self.P.insts[i]['n'] for i, _ in it.blocks_seen if self.P.insts[i]['local']}
        return it, outs

    # ------------------------------------------------------------ reading a result
    def strip(self, it, st, v):
        v = it.simp(st, v)
        while v.op == 'box':
            v = it.simp(st, v.a[0])
        return v

    def elems(self, it, st, v):
        v = self.strip(it, st, v)
        if v.op != 'arr':
            raise Undet('list')
        return [self.strip(it, st, x) for x in v.a]

    def some(self, it, st, v):
        """payload of an option, None when absent"""
        v = self.strip(it, st, v)
        if v.op != 'adt' or short(self.P.types[v.a[0]]['n']) != 'Option':
            raise Undet('option')
        return self.strip(it, st, v.a[2]) if len(v.a) == 3 else None

    def byty(self, v, *names):
        """field of a struct term whose type is the given chain of type names"""
        k = self.P.types[v.a[0]]
        for f, y in zip(k['v'][v.a[1]]['f'], v.a[2:]):
            t = self.P.types[f[1]]
            if t['k'] != 'adt' or short(t['n']) != names[0]:
                continue
            if len(names) > 1 and not any(self.P.types[a]['k'] == 'adt' and short(self.P.types[a]['n']) == names[1]
                                          for a in t.get('args', [])):
                continue
            return y
        raise Undet('field of type ' + ' '.join(names))

    def one(self, it, st, case, v):
        """(verdict, text) for a stored value against its line"""
        if v is None:
            return False, 'is missing'
        if case.kind == 'Attribute':
            if it.vname(v) != case.variant:
                return (False if it.vname(v) else None), 'is stored as %s' % it.vname(v)
            v = self.strip(it, st, v.a[2]) if len(v.a) == 3 else v
        return self.judge_value(case, it, st, v)

    def seq(self, it, st, cases, vals, what):
        if len(cases) != len(vals):
            # name what is lost or duplicated
            return False, '%d %s stored for %d lines' % (len(vals), what, len(cases))
        res = (True, '')
        for i, (c, v) in enumerate(zip(cases, vals)):
            k, t = self.one(it, st, c, v)
            if k is False:
                return False, 'line %d (`%s%s`) %s' % (c.num, c.prefix, c.text, t)
            if k is None:
                res = (None, t)
        return res

    def opt(self, it, st, case, v, what):
        if case is None:
            return (v is None), 'a %s appears although no line gives it' % what
        k, t = self.one(it, st, case, v)
        return k, 'line %d (`%s%s`) %s' % (case.num, case.prefix, case.text, t)

    def content(self, it, st, s, x):
        """[(aspect, verdict, text)] of a session term against the structure"""
        yield ('head',) + self.opt(it, st, s['version'], self.strip(it, st, self.field(x, 'version')), 'version')
        yield ('head',) + self.opt(it, st, s['origin'], self.strip(it, st, self.field(x, 'origin')), 'origin')
        yield ('head',) + self.opt(it, st, s['session'], self.some(it, st, self.field(x, 'session')), 'session name')
        t = self.some(it, st, self.field(x, 'timing'))
        if len(s['timing']) > 1:
            k, txt = self.opt(it, st, s['timing'][-1], t, 'timing')
            yield 'timing', k, txt
            if k:
                yield 'timings', False, 'only the last of %d timing lines is kept' % len(s['timing'])
        else:
            yield ('timing',) + self.opt(it, st, s['timing'][0] if s['timing'] else None, t, 'timing')
        yield ('session',) + self.opt(it, st, s['connection'], self.some(it, st, self.field(x, 'connection')), 'connection')
        yield ('session',) + self.seq(it, st, s['bandwidth'], self.elems(it, st, self.field(x, 'bandwidth')), 'session bandwidths')
        yield ('session',) + self.seq(it, st, s['attribute'], self.elems(it, st, self.field(x, 'attribute')), 'session attributes')
        ms = self.elems(it, st, self.field(x, 'media'))
        if len(ms) != len(s['media']):
            yield 'media', False, '%d media sections for %d media lines' % (len(ms), len(s['media']))
        else:
            for m, v in zip(s['media'], ms):
                yield ('media',) + self.opt(it, st, m['media'], self.strip(it, st, self.byty(v, 'SdpMediaLine')), 'media line')
                yield ('media',) + self.opt(it, st, m['connection'], self.some(it, st, self.byty(v, 'Option', 'SdpConnection')), 'connection')
                yield ('media',) + self.seq(it, st, m['bandwidth'], self.elems(it, st, self.byty(v, 'Vec', 'SdpBandwidth')),
                                            'bandwidths of a media section')
                yield ('media',) + self.seq(it, st, m['attribute'], self.elems(it, st, self.byty(v, 'Vec', 'SdpAttribute')),
                                            'attributes of a media section')
        ws = self.elems(it, st, self.field(x, 'warnings'))
        if len(ws) != len(s['warnings']):
            yield 'warnings', False, '%d warnings for %d unsupported lines' % (len(ws), len(s['warnings']))
        else:
            for c, w in zip(s['warnings'], ws):
                k, t = self.located(it, st, w, c, 'Unsupported')
                yield 'warnings', k, 'warning for line %d %s' % (c.num, t)

    def located(self, it, st, e, case, kind):
        """does an error value report this line"""
        if it.vname(e) != kind:
            return (False if it.vname(e) else None), 'is reported as %s' % it.vname(e)
        n = self.strip(it, st, self.field(e, 'line_number'))
        if n.op == 'int' and n.a[0] != case.num:
            return False, 'has line number %d' % n.a[0]
        t = self.field(e, 'line')
        if t is None:
            return None, 'has no text'
        t = self.strip(it, st, t)
        d = streq(case.line, t)
        if d is not True:
            return d, 'has the text `%s`' % say(self.P, t)
        return (True if n.op == 'int' else None), ''

    # ------------------------------------------------------------ comparing
    def outcome(self, doc, it, st, r):
        """[(aspect, verdict, text)] of one outcome"""
        kind, m = doc.model()
        got = it.vname(r)
        if got not in ('Ok', 'Err'):
            return [('outcome', None, 'result unknown')]
        x = self.strip(it, st, r.a[2])
        if kind == 'err':
            if got == 'Ok':
                return [('outcome', False, 'is accepted, although %s' % self.reason(doc, m))]
            res = [('outcome', True, '')]
            vs = []
            for k, n in m:
                if it.vname(x) != k:
                    vs.append((False if it.vname(x) else None, 'the error is %s, expected %s' % (it.vname(x), self.reason(doc, m))))
                elif n is None:
                    vs.append((True, ''))
                elif k == 'Sequence':
                    y = self.strip(it, st, self.field(x, 'line_number'))
                    vs.append((y.op == 'int' and y.a[0] == n if y.op == 'int' else None,
                               'the error of line %d has line number %s' % (n, say(self.P, y))))
                else:
                    v, t = self.located(it, st, x, doc.lines[n], k)
                    vs.append((v, 'the error of line %d %s' % (n, t)))
            best = next((v for v in vs if v[0] is True), next((v for v in vs if v[0] is None), vs[-1]))
            return res + [('error',) + best]
        if got == 'Err':
            return [('outcome', False, 'is refused (%s)' % say(self.P, x, 6)[:160])]
        res = [('outcome', True, '')]
        try:
            res += list(self.content(it, st, m, x))
        except Undet as e:
            res.append(('content', None, str(e)))
        return res

    def reason(self, doc, m):
        return ' or '.join('%s%s' % ({'Line': 'malformed', 'Unsupported': 'unsupported', 'Sequence': 'wrong structure'}[k],
                                     '' if n is None else ' line %d' % n) for k, n in m)

    def judge_doc(self, doc, aspects):
        """('ok' | 'bad' | 'undet', aspect, text, (it, outs))"""
        try:
            it, outs = self.parse_doc(doc)
            keep = set(aspects) | {'outcome'} | ({'content'} if set(aspects) - {'outcome', 'error'} else set())
            js = [(st, r, [a for a in self.outcome(doc, it, st, r) if a[0] in keep])
                  for st, r in outs]
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2':
                raise
            return 'undet', '', repr(e), None
        if not js:
            return 'undet', '', 'no outcome', None
        fs = [(st, r, [a for a in l if a[1] is False and a[0] in aspects]) for st, r, l in js]
        bad = [j for j in fs if j[2] and precise(j[0], doc)]
        if bad or all(j[2] for j in fs):
            a = (bad or fs)[0][2][0]
            return 'bad', a[0], a[2], (it, outs)
        und = sorted({a[2] for j in js for a in j[2] if a[1] is None})
        wrong = [a for j in js for a in j[2] if a[0] == 'outcome' and a[1] is False]
        if und or wrong or any(j[2] for j in fs):
            return 'undet', '', '; '.join(und + [a[2] for a in wrong])[:300], (it, outs)
        return 'ok', '', '', (it, outs)


def constants(P, root, stop=None):
    """integer constants in the local functions reachable from an instance, not entering those where stop is true"""
    out, seen, todo = set(), set(), [root['i']]
    while todo:
        i = todo.pop()
        x = P.insts[i]
        if i in seen or not x['body'] or not x['local'] or stop and stop(x):
            continue
        seen.add(i)
        work = [x['body']['blocks']]
        while work:
            v = work.pop()
            if isinstance(v, dict):
                k = P.types.get(v['t']) if isinstance(v.get('t'), int) else None
                if k and k['k'] == 'fndef' and k.get('inst') is not None:
                    todo.append(k['inst'])
                if k and k['k'] in ('uint', 'int') and isinstance(v.get('a'), dict) and 'b' in v['a']:
                    out.add(int.from_bytes(bytes(b or 0 for b in v['a']['b']), 'little'))
                work += v.values()
            elif isinstance(v, list):
                work += v
        todo += [y['i'] for y in P.insts if y['body'] and y['n'].startswith(x['n'] + '::{closure')]
    return out


def sizes(D):
    """numbers of repeated lines: some powers of two, and every constant of the description-level code, exceeded by one"""
    if not D.sdp_fn:
        return []
    ks = constants(D.P, D.sdp_fn, lambda x: x['n'].endswith('parse_sdp_line'))
    return sorted({17, 33, 65, 129, 257} | {k + 1 for k in ks if 3 <= k < 1100})


def runs(P, pat, most=260):
    """descriptions with long runs of each part: longer than every small constant of the functions matching pat"""
    ks = set()
    for x in P.insts:
        if x['body'] and x['local'] and re.search(pat, x['n']):
            ks |= constants(P, x)
    h = ['v', 'o', 's', 't', 'c']
    for n in sorted({17, 33} | {k + 1 for k in ks if 4 <= k < most}):
        yield h + ['b'] * n + ['bt']
        yield h + ['a'] * n + ['ar', 'm', 'am']
        yield h + ['m', 'am'] + ['bu'] * n + ['b', 'mv', 'b']
        yield h + ['m'] + ['ap'] * n + ['am', 'ar', 'mv', 'am']
        yield h + ['m'] * n + ['c4', 'b', 'am', 'md', 'am']
        yield h + [('m', 'm=', 'Media', None, '{media=video:Video} {port:0-65535} {proto=RTP/AVP:RtpAvp} ' +
                    ' '.join('{formats.0[%d]:96-127}' % i for i in range(n)), {'port_count': 0}), 'am']
        yield h + [('m', 'm=', 'Media', None, '{media=application:Application} {port:0-65535} {proto=UDP/DTLS/SCTP:UdpDtlsSctp} ' +
                    ' '.join('{formats.0[%d]}' % i for i in range(n)), {'port_count': 0}), 'am']


def entries(P):
    """one line of every attribute kind: (catalogue entry, at session level, in a media section)"""
    seen = set()
    for n, v in table.FLAGS:
        yield ('a', 'a=' + n, 'Attribute', v, '', None) + table.LEVELS[v]
    for n, v, t, d in table.ATTRS:
        if v not in seen:
            seen.add(v)
            yield ('a', 'a=' + n + ':', 'Attribute', v, expand(t)[0], d) + table.LEVELS[v]


def together(P, change={}):
    """descriptions with attributes of all kinds in one section, in both orders: every kind before and after every other"""
    h = ['v', 'o', 's', 't', 'c']
    es = [e[:4] + (change.get(e[3], e[4]),) + e[5:] for e in entries(P)]
    ss = [e for e in es if e[6]]
    ms = [e for e in es if e[7] == 1 and e[3] not in ('Rid', 'Simulcast')] + [
        ('a', 'a=rid:', 'Attribute', 'Rid', '{id==one} {direction=!send:Send}', table.RID0, 0, 1, ('one', 'send', [])),
        ('a', 'a=simulcast:', 'Attribute', 'Simulcast', 'send {send[0].ids[0].id==one}', None, 0, 1, {'send': ['one'], 'recv': []})]
    mid = [e for e in ms if e[3] != 'Extmap']
    yield h + ss + ['m', 'am']
    yield h + ss[::-1] + ['m', 'am']
    yield h + ['m'] + ms + ['mv', 'am']
    yield h + ['m', 'am', 'mv'] + ms[::-1]
    yield h + ss[::2] + ['m'] + mid[::2] + ['mv'] + mid[1::2] + ['md'] + mid[::-2]
    yield h + ss[::-1] + ['b', 'm', 'b'] + mid[::-1] + ['bt', 'mv', 'bu'] + mid


def variety(P, change={}, n=9):
    """descriptions with every form of every attribute kind (each with and without its optional parts), some at a time, last and
    before others"""
    h = ['v', 'o', 's', 't', 'c']
    es = [('a', 'a=' + k, 'Attribute', v, '', None) + table.LEVELS[v] for k, v in table.FLAGS]
    es += [('a', 'a=' + k + ':', 'Attribute', v, e, d) + table.LEVELS[v] for k, v, t, d in table.ATTRS
           for e in ([change[v]] if v in change else expand(t)) if v not in ('Rid', 'Simulcast')]
    es += [('a', l, 'Attribute', v, t, d) + table.LEVELS[v] for l, k, v, t, d in free_texts()
           if k == 'Attribute' and v not in ('Rid', 'Simulcast') and v not in change]
    # lines that say the same twice, together with themselves
    same = [('a', l, k, v, t, d) + table.LEVELS[v] for l, k, v, t, d in alike_texts(1)
            if k == 'Attribute' and v not in ('Rid', 'Simulcast', 'Group') and v not in change]
    for i in range(6):
        m = [e for e in same if e[7] == 1][i::6]
        yield h + ['m'] + [e for e in m for _ in range(2)] + ['mv'] + m
        m = [e for e in same if e[6] == 1 and e[3] != 'Extmap'][i::6]
        yield h + [e for e in m for _ in range(2)] + ['m', 'am']
    for lev in (6, 7):
        # neighbouring forms of one kind go to different descriptions
        one = [e for e in es if e[lev] == 1]
        k = (len(one) + n - 1) // n
        for i in range(k):
            d = one[i::k]
            if lev == 7:
                d = [e for e in d if e[3] != 'Extmap']
            d = d if i % 2 else d[::-1]
            yield h + d if lev == 6 and i % 3 == 0 else h + d + ['m', 'am'] if lev == 6 else h + ['m'] + d + (['mv', 'am'] if i % 3 else [])


def special(doc, path, lit):
    """the description with words the code looks for in place of a generic word: line keys"""
    m = re.match(r'L(\d+)\.(.*)$', path)
    if not m or int(m.group(1)) >= len(doc.lines):
        return
    i = int(m.group(1))
    k = doc.keys[i]
    ent = CAT[k] if isinstance(k, str) else k
    pre = ent[1] if ent[2] else ''
    for x in substitutes(pre, lit):
        t = substitute(ent[4], m.group(2), x)
        if t is not None:
            yield (pre or ent[1] + ent[4], x), doc.keys[:i] + [ent[:4] + (t,) + ent[5:]] + doc.keys[i + 1:]


def run_docs(ctx, D, docs, aspects, key=lambda d, a: '%s:%s' % (a, d.name()), again=True):
    docs = list(docs)

    def one(doc):
        D.fns = set()
        MAGIC.clear()
        v, a, t, o = D.judge_doc(doc, aspects)
        w, span = docwhere(D.P, o[0]) if o else ('', None)
        return v, a, t, w, span, sorted(D.fns), sorted(m for m in MAGIC if isinstance(m[0], str))
    nxt, seen = [], {}
    for doc, (v, a, t, w, span, fns, mg) in zip(docs, pmap(one, docs)):
        D.stats['cases'] += 1
        D.stats['undetermined' if v == 'undet' else 'decided'] += 1
        ctx.fnset |= set(fns)
        if again and v == 'ok':
            for path, lit in mg:
                for id, ks in special(doc, path, lit):
                    seen[id] = seen.get(id, 0) + 1
                    if seen[id] <= 12:
                        nxt.append(Doc(doc.P, ks, doc.strict, doc.sep, doc.last))
        if v == 'undet':
            if os.environ.get('VERIF_DEBUG'):
                print('undet', doc.name(), t)
            continue
        ctx.check(v == 'ok', key(doc, a), 'the description `%s` %s (in %s)' % (doc.name(), t, w), span)
        if v == 'ok' and len(ctx.samples) < 12 and len(doc.lines) > 4:
            ctx.samples.append({'description': doc.name(), 'verdict': doc.model()[0]})
    if nxt:
        ctx.cov['special_words'] = ctx.cov.get('special_words', 0) + len(nxt)
        if os.environ.get('VERIF_DEBUG'):
            for d in nxt:
                print('special', d.name()[:200])
        run_docs(ctx, D, nxt, aspects, key, False)


def docwhere(P, it):
    """the whole-document function nearest to the decision"""
    for s in ('sanity_check_sdp_session', 'parse_media_vector', 'parse_session_vector', 'parse_sdp_vector', 'parse_sdp'):
        for i in {i for i, _ in it.blocks_seen}:
            x = P.insts[i]
            if x['local'] and short(x['n'].split('::<')[0]) == s:
                return x['n'].replace('webrtc_sdp::', ''), x['span']
    return '', None
