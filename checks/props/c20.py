"""C20: printed descriptions are well formed."""
import random
from api import *
from props import c08, c25

LEVEL = 'other'
RULE = ('sessions and media sections (parsed from description templates with every presence pattern of their parts, and built '
        'with the constructors without timing, name or connection) are printed by abstract interpretation; on every path the '
        'text must be lines type=value ended by CR LF, none empty, in grammar order, with exactly one line per stored part; '
        'reading it back must give the same session')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/', 'the line order of RFC 8866 section 5']
ORDER = 'vosiuepcbtrzka'
MORDER = 'micbka'


def lines_of(t):
    """the text template cut at CR LF: (list of lists of parts, properly terminated)"""
    out, cur = [], []
    for p in parts(t):
        if p.op == 'str':
            bits = p.a[0].split('\r\n')
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(S(b))
        else:
            cur.append(p)
    return out, not cur, cur


def letter(line):
    if not line or line[0].op != 'str' or len(line[0].a[0]) < 2 or line[0].a[0][1] != '=' or not line[0].a[0][0].isalpha():
        return None
    if len(line) == 1 and len(line[0].a[0]) == 2:
        return None
    if any(p.op == 'str' and ('\r' in p.a[0] or '\n' in p.a[0]) for p in line):
        return None
    return line[0].a[0][0]


def wellformed(text):
    """(problem key, text) or None, and the letters of the lines"""
    ls, ended, rest = lines_of(text)
    if not ended:
        return ('unterminated', 'ends with an unterminated line'), []
    let = []
    for l in ls:
        c = letter(l)
        if c is None:
            return ('empty' if not l or len(l) == 1 else 'form', 'has the line `%s`' % ''.join(
                p.a[0] if p.op == 'str' else '<..>' for p in l)), []
        let.append(c)
    return None, let


def order(let, media):
    """(problem key, text) or None"""
    secs = [[]]
    for c in let:
        if c == 'm':
            secs.append([])
        secs[-1].append(c)
    if media:
        if secs[0]:
            return 'order', 'does not begin with the media line'
        secs = [['v', 'o', 's']] + secs[1:]
    if secs[0][:3] != ['v', 'o', 's']:
        return 'order', 'begins with %s' % ' '.join(secs[0][:3])
    res = None
    for i, s in enumerate(secs):
        o = ORDER if i == 0 else MORDER
        if any(c not in o for c in s):
            return 'order', 'has a line of type %s in %s' % (next(c for c in s if c not in o), 'the session part' if i == 0 else 'a media section')
        k = [o.index(c) for c in s]
        if k != sorted(k):
            sq = [c for j, c in enumerate(s) if j == 0 or s[j - 1] != c]
            known = [c for c in ('tbc' if i == 0 else 'bc') if c in sq]
            head = ['v', 'o', 's'] if i == 0 else ['m']
            if sq == head + known + (['a'] if 'a' in sq else []):
                res = res or ('order:' + ('session t,b,c' if i == 0 else 'media b,c'),
                              'prints %s' % ' before '.join(known) + ' (RFC 8866: %s)' % ' '.join(sorted(known, key=o.index)))
            else:
                return 'order', 'prints the lines in the order %s' % ' '.join(sq)
    return res


def count(m):
    """the line types a structure must print"""
    out = {}

    def add(c, n=1):
        out[c] = out.get(c, 0) + n
    for c in 'vos':
        add(c)
    add('t', int(bool(m['timing'])))
    for s in [m] + m['media']:
        if s is not m:
            add('m')
        add('c', int(s['connection'] is not None))
        add('b', len(s['bandwidth']))
        add('a', len([c for c in s['attribute'] if not getattr(c, 'silent', False)]))
    return {k: v for k, v in out.items() if v}


def docs(P):
    other = {'Fmtp': '{payload_type:n8} max-fs={parameters.max_fs:1-4294967295}', 'MsidSemantic': '{semantic} {msids[0]}'}
    es = [e[:4] + (other.get(e[3], e[4]),) + e[5:] for e in c08.entries(P)]
    yield from together(P, other)
    yield from variety(P, other)
    h = ['v', 'o', 's', 't']
    for c in (0, 1):
        for b in (0, 1, 2):
            for a in (0, 1, 2):
                yield h + ['c'] * c + ['b', 'bt'][:b] + ['a', 'ar'][:a]
                yield h + ['c'] * c + ['b', 'bt'][:b] + ['a', 'ar'][:a] + ['m'] + ([] if c else ['c4']) + ['am']
                yield h + (['c'] if not c else []) + ['m'] + ['c4'] * c + ['bu', 'b'][:b] + ['am', 'ap'][:a]
                yield h + ['c', 'm'] + ['c4'] * c + ['bu', 'b'][:b] + ['am', 'ap'][:a] + ['mv'] + ['b'] * a + ['md', 'aw']
    for e in es:
        if e[6]:
            yield h + ['c', e]
            yield h + ['c', 'a', e, 'ar', 'm']
        if e[7] == 1 and e[3] not in ('RtcpMuxOnly', 'Rid', 'Simulcast'):
            yield h + ['c', 'm', e]
            yield h + ['c', 'm', 'am', e, 'ar', 'm']
    yield from runs(P, r'(SdpSession|SdpMedia|SdpMediaLine|SdpFormatList|SdpConnection|SdpBandwidth|SdpAttribute) as std::fmt::Display>::fmt$')
    r = random.Random(20)
    for _ in range(40):
        d = ['v', 'o', 's', 't', 'c'] + sorted([r.choice(c08.SESS[2:]) for _ in range(r.randrange(5))])
        d = [x for x in d if x != 'ax']
        for _ in range(r.randrange(5)):
            d += [r.choice(['m', 'mv', 'md'])] + ['c'] * r.randrange(2) + [r.choice(c08.MED) for _ in range(r.randrange(5))]
        yield d


def print_(A, st, x):
    """[(it, state, template)]"""
    it = TInterp(A.P, 96)
    outs = it.models.disp_multi(None, 0, st.copy(), x, x.a[0])
    A.fns |= {A.P.insts[i]['n'] for i, _ in it.blocks_seen if A.P.insts[i]['local']}
    return [(it, s, it.simp(s, y)) for s, y in outs]


def job(A, doc):
    """[(verdict, key, text)] for one description"""
    res = []
    A.fns = set()
    span = None
    try:
        it, outs = A.parse_doc(doc)
        if len(outs) != 1 or it.vname(outs[0][1]) != 'Ok':
            return [('undet', '', 'not one accepting path')], sorted(A.fns)
        st, r = outs[0]
        st = A.clean(st)
        x = A.strip(it, st, r.a[2])
        kind, m = doc.model()
        pr = print_(A, st, x)
        for it2, s, text in pr:
            if text.op not in ('str', 'cat', 'hole'):
                res.append(('undet', '', 'text unknown'))
                continue
            bad, let = wellformed(text)
            if bad:
                res.append(('bad', '%s:%s' % (bad[0], doc.name()), bad[1]))
                continue
            o = order(let, False)
            if o:
                res.append(('bad', o[0] if o[0] != 'order' else '%s:%s' % (o[0], doc.name()), o[1]))
            else:
                res.append(('ok', '', ''))
            got = {c: let.count(c) for c in set(let)}
            w = count(m)
            if got != w:
                res.append(('bad', 'parts:' + doc.name(), 'prints %s lines for %s' % (
                    ' '.join('%d %s' % (n, c) for c, n in sorted(got.items())), ' '.join('%d %s' % (n, c) for c, n in sorted(w.items())))))
                continue
            # every section prints its own lines
            # read it back
            it3 = TInterp(A.P, 96)
            back = it3.root(A.sdp_fn, [box(text), I(0)], A.clean(s))[0]
            for s3, r3 in back:
                if it3.vname(r3) == 'Err':
                    res.append(('bad', 'again:' + doc.name(), 'prints a description that is refused: %s' % say(A.P, A.strip(it3, s3, r3.a[2]), 5)[:140]))
                elif it3.vname(r3) != 'Ok':
                    res.append(('undet', '', 'read back'))
                else:
                    js = [j for j in A.content(it3, s3, m, A.strip(it3, s3, r3.a[2])) if j[1] is not True and j[0] != 'warnings']
                    b = [j for j in js if j[1] is False]
                    res.append(('bad', 'again:' + doc.name(), 'reads back differently: ' + b[0][2]) if b else
                               ('undet', '', js[0][2]) if js else ('ok', '', ''))
    except Exception as e:
        if os.environ.get('VERIF_DEBUG') == '2':
            raise
        res.append(('undet', '', repr(e)))
    return res, sorted(A.fns)


def check(ctx):
    A = Api(ctx)
    P = ctx.p
    ds = [d for d in (Doc(P, d) for d in docs(P)) if d.model()[0] == 'ok']
    span = next((f['span'] for f in P.insts if f['local'] and f['n'].endswith('SdpSession as std::fmt::Display>::fmt')), None)
    for doc, (res, fns) in zip(ds, pmap(lambda d: job(A, d), ds)):
        ctx.fnset |= set(fns)
        A.stats['cases'] += 1
        A.stats['undetermined' if any(r[0] == 'undet' for r in res) else 'decided'] += 1
        for v, k, t in res:
            if v == 'undet':
                if os.environ.get('VERIF_DEBUG'):
                    print('undet', doc.name(), t)
                continue
            ctx.check(v == 'ok', k, 'printing the session of `%s` %s' % (doc.name(), t), span)
        if all(r[0] == 'ok' for r in res) and len(ctx.samples) < 10 and len(doc.lines) > 6:
            ctx.samples.append({'description': doc.name(), 'verdict': 'well formed, read back'})
    built(ctx, A)
    finish_lines(ctx, A, 60)


def built(ctx, A):
    """values made with the constructors and editing functions"""
    P = ctx.p
    n = 0

    def one(key, st, x, media, want=None):
        nonlocal n
        for it, s, text in print_(A, st, x):
            if text.op not in ('str', 'cat', 'hole'):
                A.und += 1
                continue
            n += 1
            bad, let = wellformed(text)
            bad = bad or order(let, media)
            ctx.check(bad is None, bad[0] if bad and bad[0].startswith('order:') else 'built:%s:%s' % (key, bad and bad[0]),
                      'printing %s %s' % (key, bad and bad[1]))
            if want is not None and not (bad and not bad[0].startswith('order:')):
                ctx.check(sorted(let) == sorted(want), 'built:%s:parts' % key, 'printing %s gives the lines %s instead of %s' % (
                    key, ' '.join(let), ' '.join(want)))
    org = A.guard('org', lambda: A.value(Case(P, 'o=', 'Origin', None, '{username} 1 2 IN IP4 {unicast_addr:4}', None, tag='X.')))
    f = A.method('SdpSession', 'new')
    if org and f:
        for nm, txt in (('name', hole('name')), ('empty name', S('')), ('blank name', S('  '))):
            def run():
                for it, s, r, _ in A.call(f, org[0], [I(0), org[1], txt]):
                    one('a new session with ' + nm, s, A.strip(it, s, r), False, 'vos')
            A.guard(nm, run)
    # names put into a session: printed as they are
    for nm, txt in (('a name', hole('name')), ('a blank name', S('  ')), ('a name with blanks around', cat(S(' '), hole('name'), S('  '))),
                    ('a name of two words', cat(hole('name'), S('  '), hole('name2')))):
        def run():
            st, x, doc = A.session(['v', 'o', 's', 't'])
            x = A.line(x, session=A.option(A.field(x, 'session'), txt))
            for it, s, text in print_(A, st, x):
                if text.op not in ('str', 'cat', 'hole'):
                    A.und += 1
                    continue
                ls = [l for l in lines_of(text)[0] if l and l[0].op == 'str' and l[0].a[0].startswith('s=')]
                got = cat(*ls[0]) if len(ls) == 1 else None
                ctx.check(got is cat(S('s='), txt), 'built:session with ' + nm, 'a session with %s prints the line `%s`' % (
                    nm, '' if got is None else say(P, got)))
        A.guard(nm, run)
    for keys in c25.MEDIA + [['m', 'c4'], ['m', 'b'], ['mv', 'c', 'ar'], ['md', 'bu', 'am']]:
        def run():
            st, m, doc = A.media(keys)
            want = [c.letter for c in doc.lines[5:]]
            one('a media section of ' + ' '.join(k if isinstance(k, str) else k[1] for k in keys), st, m, True, want)
            g = A.method('SdpMedia', 'remove_attribute')
            if g is not None and 'am' in keys:
                for it, s, r, after in A.call(g, st, [A.enum('SdpAttributeType', 'Mid')], m):
                    one('a section without mid', s, after, True, [c.letter for c in doc.lines[5:] if c.variant != 'Mid'])
        A.guard('media', run)
    for v, case in attrs(P):
        def run():
            st, x = A.value(case)
            for it, s, text in print_(A, st, x):
                if text.op in ('str', 'cat', 'hole'):
                    ls = ''.join(p.a[0] for p in parts(text) if p.op == 'str')
                    ctx.check('\r' not in ls and '\n' not in ls, 'attribute:%s' % v, 'an attribute of kind %s prints a line break' % v)
        A.guard(v, run)
    ctx.cov['built_values'] = n
    ctx.cov['built_undetermined'] = A.und
    ctx.fnset |= A.fns
