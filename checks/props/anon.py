"""Masked copies: every field of a value compared with the same field of its masked copy (C21, C23)."""
import random
from api import *
from props import c08

LEAVES = {'mask_host': 'host name', 'mask_ip': 'address', 'mask_port': 'port', 'mask_origin_user': 'user name',
          'mask_ice_password': 'password', 'mask_ice_user': 'user fragment', 'mask_cert_finger_print': 'fingerprint',
          'mask_cname': 'cname'}
# (type, variant or None, field) -> category; 'addr' is an address or a host name
FIELDS = {('SdpConnection', 'address'): 'addr', ('SdpOrigin', 'username'): 'user name', ('SdpOrigin', 'unicast_addr'): 'addr',
          ('SdpAttributeCandidate', 'address'): 'addr', ('SdpAttributeCandidate', 'port'): 'port',
          ('SdpAttributeCandidate', 'raddr'): 'addr', ('SdpAttributeCandidate', 'rport'): 'port',
          ('SdpAttributeCandidate', 'ufrag'): 'user fragment', ('SdpAttributeRemoteCandidate', 'address'): 'addr',
          ('SdpAttributeRemoteCandidate', 'port'): 'port', ('SdpAttributeRtcp', 'unicast_addr'): 'addr',
          ('SdpAttributeFingerprint', 'fingerprint'): 'fingerprint'}
VARIANTS = {('SdpAttribute', 'IcePwd'): 'password', ('SdpAttribute', 'IceUfrag'): 'user fragment'}
TEXTS = ('String', 'alloc::string::String')


class Masking(TInterp):
    """abstract interpretation with the eight public mask functions as uninterpreted functions of their argument"""
    def __init__(self, P, n=96):
        super().__init__(P, n)
        self.masks = {}

    def call_inst(self, F, bb, st, inst, args, t, sp):
        n = inst['n'].split('::')
        if len(n) > 1 and n[-2] == 'StatefulSdpAnonymizer' and n[-1] in LEAVES:
            cat, v = LEAVES[n[-1]], args[1]
            k = len(self.masks)
            name = 'masked %s %d' % (cat, k)
            self.masks[name] = (cat, v, st.copy())
            if n[-1] in ('mask_ip', 'mask_port', 'mask_cert_finger_print'):
                return [(st, mk('opq', name, ty=inst['body']['locals'][0] if inst['body'] else None))]
            return [(st, hole(name))]
        return super().call_inst(F, bb, st, inst, args, t, sp)


class Walk:
    """[(property, ok, key, text)] from comparing original and masked values"""
    def __init__(self, A, it, st):
        self.A, self.it, self.st, self.out = A, it, st, []
        self.P = A.P

    def put(self, pid, v, path, text):
        self.out.append((pid, v, path, text))

    def get(self, x):
        x = self.A.strip(self.it, self.st, x)
        for _ in range(8):
            if x.op != 'ref':
                break
            x = self.A.strip(self.it, self.st, self.it.read_path(self.st, x.a[0], x.a[1]))
        return x

    def name(self, t):
        return short((self.P.types[t].get('n') or '').split('<')[0])

    def walk(self, a, b, path, cat=None):
        a, b = self.get(a), self.get(b)
        if cat:
            return self.sensitive(a, b, path, cat)
        if a.op == 'adt' and b.op == 'adt':
            if a.a[0] != b.a[0]:
                return self.put('C23', None, path, 'types')
            if a.a[1] != b.a[1]:
                return self.put('C23', False, path, 'is %s instead of %s' % (say(self.P, b, 3), say(self.P, a, 3)))
            self.put('C23', True, path, '')
            v = self.P.types[a.a[0]]['v'][a.a[1]]
            n = self.name(a.a[0])
            cname = False
            if n == 'SdpAttributeSsrc':
                at = self.text(a.a[2 + [f[0] for f in v['f']].index('attribute')])
                if at is not None and at.op != 'str':
                    cname = None
                elif at is not None:
                    cname = at.a[0].lower() == 'cname'
            for f, x, y in zip(v['f'], a.a[2:], b.a[2:]):
                if (n, f[0]) == ('SdpSession', 'warnings'):
                    continue
                c = FIELDS.get((n, f[0])) or VARIANTS.get((n, v['n']))
                if n == 'SdpAttributeSsrc' and f[0] == 'value':
                    if cname is None:
                        continue
                    c = 'cname' if cname else None
                self.walk(x, y, path + '.' + (v['n'] if len(self.P.types[a.a[0]]['v']) > 1 else '') +
                          ('' if f[0].isdigit() else '.' + f[0]), c)
            return
        seqs = ('arr', 'tup')
        if a.op in seqs and b.op in seqs:
            if len(a.a) != len(b.a):
                return self.put('C23', False, path, 'has %d elements instead of %d' % (len(b.a), len(a.a)))
            self.put('C23', True, path, '')
            for i, (x, y) in enumerate(zip(a.a, b.a)):
                self.walk(x, y, path + '[%d]' % i)
            return
        s = self.A.same(self.it, self.st, a, b)
        self.put('C23', s, path, 'is `%s` instead of `%s`' % (say(self.P, b, 6)[:80], say(self.P, a, 6)[:80]))

    def text(self, o):
        """the text of an Option<String> term, or None"""
        o = self.get(o)
        return self.get(o.a[2]) if o.op == 'adt' and len(o.a) > 2 else None

    def sensitive(self, a, b, path, cat):
        if b.op not in ('adt', 'arr', 'tup') or a.op != b.op or cat == 'fingerprint':
            return self.leaf(a, b, path, cat)
        if a.op == 'adt':
            if a.a[0] != b.a[0]:
                return self.put('C21', None, path, 'types')
            if a.a[1] != b.a[1]:
                return self.put('C23', False, path, 'is %s instead of %s' % (say(self.P, b, 3), say(self.P, a, 3)))
            self.put('C23', True, path, '')
            v, n = self.P.types[a.a[0]]['v'][a.a[1]], self.name(a.a[0])
            if n == 'IpAddr':
                return self.leaf(a, b, path, 'address')
            for f, x, y in zip(v['f'], a.a[2:], b.a[2:]):
                if n == 'ExplicitlyTypedAddress' and f[0] == 'address_type':
                    self.walk(x, y, path + '.address_type')
                    continue
                c = cat
                if cat == 'addr' and n in ('Address', 'ExplicitlyTypedAddress'):
                    c = 'host name' if v['n'] == 'Fqdn' else 'address'
                self.sensitive(self.get(x), self.get(y), path + ('' if n == 'Option' else '.' + v['n']), c)
            return
        if len(a.a) != len(b.a):
            return self.put('C23', False, path, 'has %d elements instead of %d' % (len(b.a), len(a.a)))
        for i, (x, y) in enumerate(zip(a.a, b.a)):
            self.sensitive(self.get(x), self.get(y), path + '[%d]' % i, cat)

    def mask(self, b):
        while b.op in ('dispv', 'cat') and len(b.a) == 1:
            b = self.get(b.a[0])
        n = b.a[0] if b.op in ('hole', 'opq') and b.a else None
        return self.it.masks.get(n) if isinstance(n, str) else None

    def leaf(self, a, b, path, cat):
        m = self.mask(b)
        if m is None:
            ids = [t for t in subterms(a) if t.op in ('hole', 'opq')]
            leak = a is b or any(t.op in ('hole', 'opq') and any(t is i for i in ids) for t in subterms(b))
            if leak:
                return self.put('C21', False, path, 'is copied from the original')
            if not any(t.op in ('call', 'unk', 'mapget') for t in subterms(b)) and (b.op in ('int', 'str', 'arr', 'adt') or b.op in ('opq', 'hole')):
                return self.put('C21', False, path, 'is `%s`, not the mask of the original' % say(self.P, b, 5)[:80])
            return self.put('C21', None, path, 'unclear: %s' % say(self.P, b, 5)[:120])
        c, v, st = m
        if c != cat:
            return self.put('C21', False, path, 'is masked as a %s instead of a %s' % (c, cat))
        x = self.A.strip(self.it, st, v)
        s = self.A.same(self.it, self.st, a, v if x.op == 'ref' else x)
        if s is None and any(t.op in ('hole', 'opq') and isinstance(t.a[0], str) and t.a[0] in self.it.masks for t in subterms(x)):
            s = False
        self.put('C21', s, path, 'is the mask of `%s` instead of the original `%s`' % (say(self.P, x, 5)[:60], say(self.P, a, 5)[:60]))


CAND = 'a=candidate:'


def extra(P):
    """attribute lines with the sensitive fields in every combination"""
    for t in ('', ' <generation> {generation:n32}', ' <ufrag> {ufrag}', ' <raddr> {raddr:4}', ' <rport> {rport:0-65535}',
              ' <raddr> {raddr:6} <rport> {rport:0-65535} <ufrag> {ufrag}', ' <raddr> {raddr:d} <rport> {rport:0-65535}',
              ' <raddr> {raddr:4} <rport> {rport:0-65535} {unknown_extensions[0].0} {unknown_extensions[0].1}'):
        for ad in ('4', '6', 'd'):
            yield 'Candidate', Case(P, CAND, 'Attribute', 'Candidate', '{foundation} {component:n32} {transport=udp:Udp} {priority:n64} {address:%s} '
                                    '{port:0-65535} <typ> {c_type=host:Host}%s' % (ad, t), None, tag='X.')
    for c in ('cname', 'CNAME', 'Cname', 'cnamE'):
        yield 'Ssrc', Case(P, 'a=ssrc:', 'Attribute', 'Ssrc', '{id:n32} {attribute==%s}:{value}' % c, None, tag='X.')
        yield 'Ssrc', Case(P, 'a=ssrc:', 'Attribute', 'Ssrc', '{id:n32} {attribute==%s}' % c, None, tag='X.')
    for c in ('msid', 'label', 'mslabel', 'xcname', 'cnames'):
        yield 'Ssrc', Case(P, 'a=ssrc:', 'Attribute', 'Ssrc', '{id:n32} {attribute==%s}:{value}' % c, None, tag='X.')


def attr_cases(P):
    for n, v in table.FLAGS:
        yield v, Case(P, 'a=' + n, 'Attribute', v, '', None, tag='X.')
    for n, v, t, d in table.ATTRS:
        for x in expand(t):
            yield v, Case(P, 'a=' + n + ':', 'Attribute', v, x, d, tag='X.')
    yield from extra(P)


def docs(P):
    h = ['v', 'o', 's', 't']
    S4 = ('a', 'a=ssrc:', 'Attribute', 'Ssrc', '{id:n32} {attribute==cname}:{value}', None, 0, 1)
    yield from together(P)
    yield from variety(P)
    for e in c08.entries(P):
        if e[6]:
            yield h + ['c', 'a', e, e]
        if e[7] == 1 and e[3] not in ('RtcpMuxOnly', 'Rid', 'Simulcast'):
            yield h + ['c', 'a', 'm', 'am', e, 'mv', e, e]
    # every form of every other line
    for pre, kind, text in table.LINES:
        for x in expand(text):
            e = (pre[0], pre, kind, None, x, table.LDFLT.get(pre))
            if pre == 'o=':
                yield ['v', e, 's', 't', 'c', 'a', 'm', S4]
            elif pre == 's=':
                yield ['v', 'o', e, 't', 'c', 'm']
            elif pre == 't=':
                yield ['v', 'o', 's', e, 'c', 'm']
            elif pre == 'c=':
                yield h + [e, 'm', 'am']
                yield h + ['m', e, 'am', 'mv', 'c', 'm', e]
            elif pre == 'b=':
                yield h + ['c', e, 'bt', 'm', 'b', e]
            elif pre == 'm=':
                yield h + ['c', e, 'mv', 'c4', e, S4]
    for c in ('c', 'c4'):
        yield h + [c] + ['b', 'bt', 'as', 'm', 'am', 'mv', 'c', 'md', 'c4', 'b', S4]
        yield h + ['m', c, S4, 'b', 'm', c, 'am']
    for k in range(5):
        yield h + ['c'] + ['a'] * k + ['m', 'c4', 'am', S4] * k
    yield from runs(P, r'AnonymizingClone>::masked_clone$')
    r = random.Random(23)
    for _ in range(40):
        d = h + ['c'] + sorted([r.choice(c08.SESS[2:]) for _ in range(r.randrange(5))])
        for _ in range(r.randrange(5)):
            d += [r.choice(['m', 'mv', 'md'])] + ['c'] * r.randrange(2) + [r.choice(c08.MED + [S4]) for _ in range(r.randrange(5))]
        yield d


def masked(A, f, st, x):
    """[(it, state, masked value)]"""
    it = Masking(A.P)
    s = st.copy()
    s.mem[('h', 'anon')] = mk('opq', 'anonymizer', ty=A.ctx.adt_ty('StatefulSdpAnonymizer'))
    outs = it.root(f, [box(x), mk('ref', ('h', 'anon'), ())], s)[0]
    A.fns |= {A.P.insts[i]['n'] for i, _ in it.blocks_seen if A.P.insts[i]['local']}
    return [(it, s, r) for s, r in outs]


def impl(A, ty):
    xs = [f for f in A.P.insts if f['local'] and f['body'] and f['n'].endswith('AnonymizingClone>::masked_clone') and
          short(f['n'].split(' as ')[0].lstrip('<')) == ty]
    if not xs:
        A.ctx.fail('anchor:' + ty, 'no masked_clone of %s' % ty)
        return None
    return xs[0]


def run(ctx, pid):
    A = Api(ctx)
    P = ctx.p
    fa, fs, fm = impl(A, 'SdpAttribute'), impl(A, 'SdpSession'), impl(A, 'SdpMedia')
    jobs = [('attribute %s %s' % (v, c.text), c, fa) for v, c in attr_cases(P)] + [(d.name(), d, fs) for d in (Doc(P, k) for k in docs(P))]
    span = lambda f: f['span']

    def job(j):
        name, c, f = j
        A.fns = set()
        res = []
        try:
            if isinstance(c, Doc):
                it, outs = A.parse_doc(c)
                outs = [(A.clean(st), A.strip(it, st, r.a[2])) for st, r in outs if it.vname(r) == 'Ok']
            else:
                it, outs = A.parse(c)
                outs = [(A.clean(st), A.payload(it, st, r)[2]) for st, r in outs if it.vname(r) == 'Ok']
            for st, x in outs:
                todo = [(f, x, '')]
                if f is fs:
                    m = A.elems(it, st, A.field(x, 'media'))
                    todo += [(fm, y, 'media[%d]' % i) for i, y in enumerate(m)][:2]
                for g, y, p in todo:
                    for it2, s2, r in masked(A, g, st, y):
                        w = Walk(A, it2, s2)
                        w.walk(y, r, p)
                        res += [o + (g['i'],) for o in w.out]
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2':
                raise
            res.append((pid, None, '', repr(e), fa['i']))
        return res, sorted(A.fns)
    if not (fa and fs and fm):
        return
    n = 0
    for (name, c, f), (res, fns) in zip(jobs, pmap(job, jobs)):
        ctx.fnset |= set(fns)
        A.stats['cases'] += 1
        mine = [r for r in res if r[0] == pid]
        A.stats['undetermined' if any(r[1] is None for r in mine) else 'decided'] += 1
        for _, v, path, text, g in mine:
            if v is None:
                if os.environ.get('VERIF_DEBUG'):
                    print('undet', name, path, text)
                continue
            n += 1
            where = P.insts[g]
            ctx.check(v, '%s:%s' % (name.split()[1] if name.startswith('attribute ') else name, re.sub(r'\[\d+\]', '[]', path)),
                      'in the masked copy of `%s` the value %s %s (%s)' % (name, path or 'itself', text, where['n'].replace('webrtc_sdp::', '')), where['span'])
        if mine and all(r[1] for r in mine) and len(ctx.samples) < 12:
            ctx.samples.append({'value': name, 'fields': sorted({r[2] for r in mine})[:8], 'verdict': 'each as specified'})
    ctx.cov['fields_compared'] = n
    finish_lines(ctx, A, 60)
    ctx.floor(n, 80, 'compared fields')
