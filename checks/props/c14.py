"""C14: names and kinds of attributes agree between the specifications, the parser, the printer and the kind queries."""
from lines import *
import table

LEVEL = 'other'
RULE = ('for every attribute kind: the name of its specification is accepted as exactly that variant, the value prints with that '
        'name, its kind has the same variant name and prints as the same name, and on a section holding one attribute of '
        'each of two kinds, asking for a kind returns the attribute of that kind only')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the attribute names in checks/table.py']


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    names = {}
    cases = []
    for n, v in table.FLAGS:
        names[v] = n
        cases.append(Case(P, 'a=' + n, 'Attribute', v, '', None))
    for n, v, t, d in table.ATTRS:
        if v in names:
            continue
        names[v] = n
        cases.append(Case(P, 'a=' + n + ':', 'Attribute', v, expand(t)[-1], d))
    aty, kty = ctx.adt_ty('SdpAttribute'), ctx.adt_ty('SdpAttributeType')
    if aty is None or kty is None:
        return
    vals = {}
    frm = ctx.impl('From', 'SdpAttributeType', 'from')
    n = 0
    for c in cases:
        v, t, o = L.accept(c)
        L.stats['cases'] += 1
        L.stats['undetermined' if v == 'undet' else 'decided'] += 1
        ctx.check(v != 'bad', 'accept:' + c.variant, 'line `%s%s` %s' % (c.prefix, c.text[:100], t), where(P, o[0])[1] if o else None)
        if not o:
            continue
        it, outs = o
        for st, r in outs:
            if it.vname(r) != 'Ok':
                continue
            kind, var, x = L.payload(it, st, r)
            if kind != 'Attribute' or var != c.variant:
                continue
            vals.setdefault(var, (it, st, x))
            name = names[var]
            try:
                for s, y in it.models.disp_multi(None, 0, st.copy(), x, x.a[0]):
                    z = spell(y)
                    if not z and var == 'Fmtp':
                        continue
                    n += 1
                    ctx.check(re.split('[:\0]', z)[0] == name and (len(x.a) == 2) == (z == name), 'printed:' + var,
                              'attribute %s (`%s`) is printed as `%s`' % (var, name, say(P, y)))
            except Exception as e:
                L.stats['undetermined'] += 1
            break
    ctx.floor(len(vals), 40, 'attribute_kinds')
    # kinds
    kinds = {v['n']: i for i, v in enumerate(P.types[kty]['v'])}
    for v in P.types[aty]['v']:
        ctx.check(v['n'] in names, 'named:' + v['n'], 'attribute variant %s has no specified name in the table' % v['n'])
    for var, (it, st, x) in vals.items():
        ctx.check(var in kinds, 'kind:' + var, 'there is no attribute kind for %s' % var)
        if frm is not None and var in kinds:
            try:
                it2 = TInterp(P, 64)
                for s, r in it2.root(frm, [box(x)], State({}, dict(st.facts)))[0]:
                    r = it2.simp(s, r)
                    if r.op == 'adt':
                        n += 1
                        ctx.check(it2.vname(r) == var, 'from:' + var, 'the kind of attribute %s is %s' % (var, it2.vname(r)), frm['span'])
            except Exception:
                L.stats['undetermined'] += 1
    for kn, i in kinds.items():
        if kn not in names:
            continue
        it = TInterp(P, 64)
        try:
            for s, y in it.models.disp_multi(None, 0, State(), mk('adt', kty, i), kty):
                if y.op == 'str':
                    n += 1
                    ctx.check(y.a[0] == names[kn], 'kindname:' + kn, 'attribute kind %s is printed as `%s`, its name is `%s`' % (
                        kn, y.a[0], names[kn]))
        except Exception:
            L.stats['undetermined'] += 1
    queries(ctx, L, vals, kinds, aty, kty)
    ctx.cov['name_obligations'] = n
    finish_lines(ctx, L, 25)


def queries(ctx, L, vals, kinds, aty, kty):
    """get_attribute(kind) and friends on sections with attributes of known kinds"""
    P = ctx.p
    fs = []
    for x in P.insts:
        b = x['body']
        if not (x['local'] and b and b['argc'] == 2 and '{closure' not in x['n']):
            continue
        if b['locals'][2] != kty:
            continue
        t = P.types[b['locals'][1]]
        r = P.types[b['locals'][0]]
        if t['k'] == 'ref' and r['k'] == 'adt' and short(r['n']) in ('Option', 'Vec'):
            fs.append((x, P.deref_ty(b['locals'][1])))
    ctx.floor(len(fs), 2, 'kind_queries')
    vs = sorted(v for v in vals if v in kinds)
    jobs = []
    for f, sty in fs:
        for i, a in enumerate(vs):
            for b in (vs[(i + 1) % len(vs)], vs[(i + 7) % len(vs)], vs[(i + 19) % len(vs)]):
                for kk in (a, b, vs[(i + 11) % len(vs)]):
                    jobs.append((f, sty, (a, b), kk))
        # all kinds together, and all but the one asked for
        for kk in vs:
            for l in (vs, vs[::-1]):
                jobs.append((f, sty, tuple(l), kk))
                jobs.append((f, sty, tuple(x for x in l if x != kk), kk))

    def one(job):
        f, sty, has, kk = job
        it = TInterp(P, 64)
        S_ = P.types[sty]
        xs = [vals[a][2] for a in has]
        fields = []
        for fn, ft in S_['v'][0]['f']:
            t = P.types[ft]
            if t['k'] == 'adt' and short(t['n']) == 'Vec' and t['args'][:1] == [aty]:
                fields.append(mk('arr', *xs))
            else:
                fields.append(mk('opq', 'self.' + fn, ty=ft))
        try:
            st = State()
            for v in has:
                st.facts.update(vals[v][1].facts)
            outs = it.root(f, [box(mk('adt', sty, 0, *fields)), mk('adt', kty, kinds[kk])], st)[0]
        except Exception as e:
            return None
        bad = None
        for st, r in outs:
            r = it.simp(st, r)
            want = has.index(kk) if kk in has else None
            if r.op == 'arr':
                ys = []
                for y in r.a:
                    y = it.simp(st, y)
                    while y.op in ('box', 'ref'):
                        y = it.simp(st, it.deref(st, y))
                    if y.op != 'adt':
                        return None
                    ys.append(y)
                odd = [it.vname(y) for y in ys if it.vname(y) != kk]
                if odd or len(ys) != (want is not None):
                    bad = 'finds %s' % (', '.join(odd) or 'nothing' if not ys else '%d values' % len(ys))
                continue
            if r.op != 'adt':
                return None
            if it.vname(r) == 'None':
                if want is not None:
                    bad = 'finds nothing'
                continue
            y = it.simp(st, r.a[2])
            while y.op == 'box':
                y = it.simp(st, y.a[0])
            if want is None:
                bad = 'finds %s' % (it.vname(y) if y.op == 'adt' else y)
            elif y is not xs[want] and y.op == 'adt' and it.vname(y) != kk:
                bad = 'finds %s' % it.vname(y)
        return bad or ''
    n = 0
    for job, r in zip(jobs, pmap(one, jobs)):
        f, sty, has, kk = job
        if r is None:
            if os.environ.get('VERIF_DEBUG'):
                print('undet query', f['n'], kk, len(has))
            continue
        n += 1
        ctx.check(not r, 'query:%s %s' % (f['n'], kk), '%s(%s) on a section with %s %s' % (
            f['n'].replace('webrtc_sdp::', ''), kk, ', '.join(has) if len(has) < 4 else 'attributes of %d kinds' % len(has), r), f['span'])
    ctx.cov['query_obligations'] = n


def spell(y):
    return ''.join(p.a[0] if p.op == 'str' else '\0' for p in (y.a if y.op == 'cat' else (y,)))
