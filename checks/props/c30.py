"""C30: the serialized form is complete and faithful."""
import random
from serial import *
from props import anon, c08

LEVEL = 'other'
RULE = ('the Serialize implementations, instantiated with a tree-building serializer, are analysed on symbolic values of every '
        'attribute form and on whole sessions; on every path the tree must hold every field under its own name with its own '
        'value, every list element in order, and the variant of every enum, and nothing else')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/', 'serde writes addresses of the standard library as their text']


def docs(P):
    h = ['v', 'o', 's', 't']
    yield from together(P)
    yield from variety(P)
    for e in c08.entries(P):
        if e[6]:
            yield h + ['c', 'a', e, e]
        if e[7] == 1 and e[3] not in ('RtcpMuxOnly', 'Rid', 'Simulcast'):
            yield h + ['c', 'a', 'm', 'am', e, 'mv', e, e]
    for c in ('c', 'c4'):
        yield h + [c] + ['b', 'bt', 'as', 'm', 'am', 'mv', 'c', 'md', 'c4', 'b', 'bu']
        yield h + ['m', c, 'b', 'bt', 'm', c, 'am']
    yield h + ['c', 'u']
    yield h + ['c', 'u', 'm', 'ug', 'am']
    yield h + ['c', 'm', 'ug', 'u', 'ug']
    for k in range(5):
        yield h + ['c'] + ['a'] * k + ['m', 'c4', 'am'] * k
    yield from runs(P, r'Serialize>::serialize$')
    r = random.Random(30)
    for _ in range(25):
        d = h + ['c'] + sorted([r.choice(c08.SESS[2:]) for _ in range(r.randrange(5))])
        for _ in range(r.randrange(4)):
            d += [r.choice(['m', 'mv', 'md'])] + ['c'] * r.randrange(2) + [r.choice(c08.MED) for _ in range(r.randrange(5))]
        yield d


def check(ctx):
    sub = probed(ctx)
    A = Api(sub)
    P = A.P
    S0 = Serial(A)
    fa, fs, fm = S0.probe('attribute'), S0.probe('session'), S0.probe('media')
    where = {n: next((x for x in P.insts if x['local'] and re.search(r'%s as .*Serialize>::serialize' % n, x['n'])), None)
             for n in ('SdpAttribute', 'SdpSession', 'SdpMedia')}
    jobs = [('attribute %s %s' % (v, c.text), c, fa) for v, c in anon.attr_cases(P)] + [(d.name(), d, fs) for d in (Doc(P, k) for k in docs(P))]

    def job(j):
        name, c, f = j
        A.fns = set()
        S1 = Serial(A)
        try:
            if isinstance(c, Doc):
                it, outs = A.parse_doc(c)
                outs = [(A.clean(st), A.strip(it, st, r.a[2])) for st, r in outs if it.vname(r) == 'Ok']
            else:
                it, outs = A.parse(c)
                outs = [(A.clean(st), A.payload(it, st, r)[2]) for st, r in outs if it.vname(r) == 'Ok']
            for st, x in outs:
                ts = S1.trees(f, st, x)
                for it2, s2, o in ts:
                    if o is None:
                        S1.put(False if len(ts) == 1 else None, '', 'serializing fails')
                    else:
                        S1.walk(it2, s2, x, o, '')
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2':
                raise
            S1.out.append((None, '', repr(e)))
        return S1.out, sorted(A.fns)
    n = 0
    for (name, c, f), (res, fns) in zip(jobs, pmap(job, jobs)):
        ctx.fnset |= set(fns)
        A.stats['cases'] += 1
        A.stats['undetermined' if any(r[0] is None and r[2] != 'error' for r in res) else 'decided'] += 1
        for v, path, text in res:
            if v is None:
                if os.environ.get('VERIF_DEBUG') and text != 'error':
                    print('undet', name, path, text)
                continue
            n += 1
            w = where['SdpAttribute' if f is fa else 'SdpSession']
            ctx.check(v, '%s:%s' % (name.split()[1] if f is fa else name, re.sub(r'\[\d+\]', '[]', path)),
                      'serializing `%s`: %s %s' % (name, path or 'the value', text), w['span'] if w else None)
        if res and all(r[0] for r in res) and len(ctx.samples) < 12:
            ctx.samples.append({'value': name, 'fields': len(res), 'verdict': 'all under their own names'})
    ctx.cov['fields_compared'] = n
    finish_lines(ctx, A, 60)
    ctx.floor(n, 200, 'serialized fields')
