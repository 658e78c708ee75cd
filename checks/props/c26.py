"""C26: errors describe themselves completely."""
import itertools
from api import *
from serial import Serial, probed
from tmpl import cls

LEVEL = 'other'
RULE = ('Display and source of every variant of both error types are evaluated on symbolic fields; on every path the text must hold '
        'the text of every field (the inner error complete, in order), texts of different variants must differ, and the cause '
        'must be the contained error; every conversion from a library error must keep that error; with the serialize feature the '
        'serialized struct must hold type, message, line and line number')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/']
KINDS = {'UnknownAddressType': None, 'AddressTypeMismatch': None, 'Generic': None, 'Unsupported': None, 'Integer': True, 'Float': True,
         'Domain': True, 'IpAddress': True}


SEPS = ' :=,/;-"<>()[]{}\\.!?%@*+_|\r\n\t'


def shaped(key):
    """a text in which words alternate with every separator"""
    return [cat(*[x for i, c in enumerate(SEPS) for x in (hole('%s.%d' % (key, i)), mk('str', c))], hole(key + '.z')), mk('str', '')]


def values(A, ty, shapes=False):
    """(variant name, field name -> term, value, plain) of an error type with symbolic fields; with shapes, text fields also hold
    separators or nothing, one field at a time"""
    P = A.P
    t = A.ctx.adt_ty(ty)
    for i, v in enumerate(P.types[t]['v']):
        fs = {}
        alts = [[]]
        for f in v['f']:
            k = P.types[f[1]]
            n = short((k.get('n') or '').split('<')[0]) if k['k'] == 'adt' else k['k']
            if n == 'String':
                key = '%s.%s' % (v['n'], f[0])
                special = lambda a: any(x.op in ('cat', 'str') for x in a)
                alts = [a + [h] for a in alts for h in [hole(key)] + (shaped(key) if shapes and not special(a) else [])]
            elif n == 'AddressType':
                alts = [a + [mk('adt', f[1], j)] for a in alts for j in range(len(k['v']))]
            elif n == 'SdpParserInternalError':
                inner = list(values(A, n))
                alts = [a + [x[2]] for a in alts for x in inner]
            else:
                alts = [a + [mk('opq', '%s.%s' % (v['n'], f[0]), ty=f[1])] for a in alts]
        for a in alts:
            yield v['n'], dict(zip([f[0] for f in v['f']], a)), mk('adt', t, i, *a), not any(p.op in ('cat', 'str') for p in a)


def text(A, x):
    """[template] of Display, one per path"""
    it = TInterp(A.P, 96)
    outs = it.models.disp_multi(None, 0, State(), x, x.a[0])
    A.fns |= {A.P.insts[i]['n'] for i, _ in it.blocks_seen if A.P.insts[i]['local']}
    return [(it, s, it.simp(s, y)) for s, y in outs]


def plist(t):
    return [p for p in (t.a if t.op == 'cat' else [t])]


def infix(xs, ys):
    """do the parts ys occur consecutively in xs (literal text may be inside a longer literal)"""
    flat = lambda zs: ''.join('\0%d\0' % z.id if z.op != 'str' else z.a[0] for z in zs)
    return flat(ys) in flat(xs)


def shown(A, it, v, name):
    """the parts a field must contribute to the text, or None"""
    if v.op in ('hole', 'cat', 'str'):
        return plist(v)
    if v.op == 'adt':
        ts = text(A, v)
        return plist(ts[0][2]) if len(ts) == 1 else None
    return None


def contains_field(A, it, t, v, name):
    if v.op == 'opq':
        rs = [p for p in subterms(t) if p.op == 'disp' and p.a[0] is v]
        return bool(rs) or (None if any(v is p for p in subterms(t)) else False)
    ys = shown(A, it, v, name)
    return None if ys is None else infix(plist(t), ys)


def check(ctx):
    A = Api(ctx)
    P = ctx.p
    n = [0]
    span = {}
    for f in P.insts:
        if f['local'] and f['body']:
            m = re.search(r'<error::(\w+) as std::(fmt::Display|error::Error)>::(fmt|source)$', f['n'].replace('webrtc_sdp::', ''))
            if m:
                span[m.group(1), m.group(3)] = f

    def ob(ok, key, txt, f):
        n[0] += 1
        ctx.check(ok, key, txt, f['span'] if f else None)
    skel = {}
    for ty in ('SdpParserInternalError', 'SdpParserError'):
        fd, fs = span.get((ty, 'fmt')), span.get((ty, 'source'))

        def run(vn, fields, x, plain):
            ts = text(A, x)
            exact = len(ts) == 1
            for it, s, t in ts:
                if any(p.op == 'call' for p in subterms(t)) or t.op not in ('cat', 'str', 'hole', 'disp'):
                    A.und += 1
                    if os.environ.get('VERIF_DEBUG'):
                        print('undet', ty, vn, show(t))
                    continue
                for fn, v in fields.items():
                    b = contains_field(A, it, t, v, fn)
                    if b is None or not b and not exact and s.facts:
                        A.und += 1
                        continue
                    ob(b, '%s::%s.%s' % (ty, vn, fn), 'the text of %s::%s is `%s`: it does not show %s `%s`' % (
                        ty, vn, say(P, t, 6)[:150], fn, say(P, v, 5)[:80]), fd)
                if not plain:
                    continue
                lit = ''.join(p.a[0] if p.op == 'str' else '\1' for p in plist(t))
                if ty == 'SdpParserError':
                    inner = fields.get('error')
                    lit = '' if inner is None else ''
                    own = set()
                    if inner is not None:
                        ys = shown(A, it, inner, '')
                        own = set(ys or ())
                    flat = ''.join(p.a[0] if p.op == 'str' else '\0%d\0' % p.id for p in plist(t))
                    if inner is not None and ys:
                        flat = flat.replace(''.join(p.a[0] if p.op == 'str' else '\0%d\0' % p.id for p in ys), '\2')
                    lit = re.sub('\0\\d+\0', '\1', flat)
                if vn == 'AddressTypeMismatch':
                    a, b = fields.get('found'), fields.get('expected')
                    if a is not None and b is not None and a is not b:
                        xa, xb = shown(A, it, a, ''), shown(A, it, b, '')
                        w = ''.join(p.a[0] for p in plist(t) if p.op == 'str')
                        if xa and xb and all(p.op == 'str' for p in xa + xb):
                            i, j = w.find(xa[0].a[0]), w.find(xb[0].a[0])
                            ob(0 <= i < j, '%s::%s:order' % (ty, vn), 'a mismatch found %s expected %s prints `%s`' % (
                                xa[0].a[0], xb[0].a[0], w[:120]), fd)
                            lit = w.replace(xa[0].a[0], '\1').replace(xb[0].a[0], '\1')
                skel.setdefault((ty, vn), set()).add(lit)
            # the cause
            if fs is None or not plain:
                return
            inner = [v for v in fields.values() if v.op == 'opq' and KINDS.get(vn) or v.op == 'adt' and ty == 'SdpParserError']
            for it, s, r, _ in A.call(fs, State(), [], x, mut=False):
                r = A.strip(it, s, r)
                w = it.vname(r)
                if w not in ('Some', 'None'):
                    A.und += 1
                    continue
                if not inner:
                    ob(w == 'None' or bool(fields), '%s::%s:source' % (ty, vn), 'gives a cause', fs)
                    continue
                ob(w == 'Some', '%s::%s:source' % (ty, vn), 'the source of %s::%s is missing' % (ty, vn), fs)
                if w == 'Some':
                    b = A.same(it, s, r.a[2], inner[0])
                    if b is None:
                        A.und += 1
                    else:
                        ob(b, '%s::%s:source' % (ty, vn), 'the source of %s::%s is `%s`' % (ty, vn, say(P, r, 5)[:80]), fs)
        for vn, fields, x, plain in values(A, ty, True):
            A.guard('%s::%s' % (ty, vn), lambda: run(vn, fields, x, plain))
    for (t1, v1), (t2, v2) in itertools.combinations(sorted(skel), 2):
        if t1 == t2:
            c = skel[t1, v1] & skel[t2, v2]
            ob(not c, '%s:%s=%s' % (t1, v1, v2), 'errors of kind %s and %s print alike: `%s`' % (
                v1, v2, next(iter(c), '').replace('\1', '<..>').replace('\2', '<error>')), span.get((t1, 'fmt')))
    # conversions
    conv = 0
    for f in P.insts:
        if not (f['local'] and f['body'] and re.search(r'SdpParser(Internal)?Error as std::convert::From<.*>>::from$', f['n'])):
            continue

        def run():
            nonlocal conv
            ty = f['body']['locals'][1]
            x = mk('opq', 'cause', ty=ty)
            for it, s, r, _ in A.call(f, State(), [x]):
                r = A.strip(it, s, r)
                if r.op != 'adt':
                    A.und += 1
                    continue
                conv += 1
                ob(any(y is x for y in subterms(r)), f['n'].split('From<')[1], 'the conversion %s drops the error' % pname(P, f), f)
                v = P.types[r.a[0]]['v'][r.a[1]]
                want = {'ParseIntError': 'Integer', 'ParseFloatError': 'Float', 'ParseError': 'Domain', 'AddrParseError': 'IpAddress'}.get(
                    short(P.types[ty].get('n') or ''))
                if want:
                    ob(v['n'] == want, f['n'].split('From<')[1] + ':kind', 'the conversion %s gives %s' % (pname(P, f), v['n']), f)
        A.guard(f['n'], run)
    # serialized form
    sub = probed(ctx)
    B = Api(sub)
    f = next((x for x in B.P.insts if x['local'] and re.search(r'SdpParserError as .*Serialize>::serialize', x['n'])), None)
    ser = [0]

    def runs(vn, fields, x):
        S1 = Serial(B)
        ts = S1.trees(S1.probe('error'), State(), x)
        for it, s, o in ts:
            if o is None:
                S1.put(False if len(ts) == 1 else None, '', 'serializing fails')
            else:
                S1.walk(it, s, x, o, '')
        for b, path, t in S1.out:
            if b is None:
                B.und += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('undet', vn, path, t)
                continue
            ser[0] += 1
            ob(b, 'serialize:%s' % path, 'serializing SdpParserError::%s: %s %s' % (vn, path, t), f)
    for vn, fields, x, _ in values(B, 'SdpParserError', True):
        B.guard('serialize ' + vn, lambda: runs(vn, fields, x))
    A.und += B.und
    A.fns |= B.fns
    ctx.cov['serialized_fields'] = ser[0]
    ctx.cov['conversions'] = conv
    ctx.cov['obligations_decided'] = n[0]
    ctx.cov['undetermined'] = A.und
    ctx.fnset |= A.fns
    ctx.samples += [{'error': '%s::%s' % k, 'text': sorted(x.replace('\1', '<field>').replace('\2', '<error>') for x in v)[:2]} for k, v in sorted(skel.items())]
    ctx.floor(n[0], 40, 'error obligations')
