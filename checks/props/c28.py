"""C28: an explicitly typed address agrees with the family it declares."""
from lines import *

LEVEL = 'other'
RULE = ('every line that carries a typed address (o=, c=, a=rtcp) is analysed with a symbolic literal of each family and a '
        'symbolic host name under each declared type: mismatching literals must be refused on every path, matching ones and '
        'host names accepted with that address and type, printed with the same type, and read back unchanged; '
        'ExplicitlyTypedAddress reports the family of its literal or the declared one, and compares by family and address')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std and url models in engine/']
PRE = [('o=', 'Origin', None, '{username} 1 2 IN ', 'unicast_addr'), ('c=', 'Connection', None, 'IN ', 'address'),
       ('a=rtcp:', 'Attribute', 'Rtcp', '9 IN ', 'unicast_addr')]


def check(ctx):
    from props.c17 import roundtrip
    P = ctx.p
    L = Lines(ctx)
    acc, ref = [], []

    def case(line, kind, var, text, what, dflt=None):
        c = Case(P, line, kind, var, text, dflt)
        c.what = what
        return c
    for line, kind, var, pre, path in PRE:
        d = {'session_id': 1, 'session_version': 2} if line == 'o=' else {'port': 9} if line == 'a=rtcp:' else None
        for t, o in (('4', '6'), ('6', '4')):
            acc.append(case(line, kind, var, pre + 'IP%s {%s:%s}' % (t, path, t), 'matching', d))
            ref.append(case(line, kind, var, pre + 'IP%s {%s:%s}' % (t, path, o), 'mismatch'))
            acc.append(case(line, kind, var, pre + '{%s.address_type=IP%s:IpV%s} {%s:d}' % (path, t, t, path), 'host', d))
        ref.append(case(line, kind, var, pre + '{zz} {%s:4}' % path, 'type'))
        ref.append(case(line, kind, var, pre + 'IP5 {%s:4}' % path, 'type'))
        ref.append(case(line, kind, var, pre.replace('IN', '{net}') + 'IP4 {%s:4}' % path, 'nettype'))
        ref.append(case(line, kind, var, pre + 'IP4', 'missing'))
        for lit in ('1.2.3.4', '255.255.255.255', '0.0.0.0'):
            ref.append(case(line, kind, var, pre + 'IP6 ' + lit, 'mismatch'))
        for lit in ('::1', 'fe80::1', '2001:db8::', '::'):
            ref.append(case(line, kind, var, pre + 'IP4 ' + lit, 'mismatch'))
    for c in list(acc):
        n = Case(P, c.prefix, c.kind, c.variant, c.text, c.dflt)
        n.what = 'again'
        acc.append(n)
    batch(ctx, L, acc, 'accept', lambda L, c: roundtrip(L, c) if c.what == 'again' else L.accept(c))
    batch(ctx, L, ref, 'refuse', lambda L, c: L.refuse(c))
    api(ctx, L)
    finish_lines(ctx, L, 20)


def api(ctx, L):
    P = ctx.p
    ety = ctx.adt_ty('ExplicitlyTypedAddress')
    aty = ctx.adt_ty('AddressType')
    if ety is None or aty is None:
        return
    E = P.types[ety]
    names = [v['n'] for v in E['v']]
    tnames = [v['n'] for v in P.types[aty]['v']]

    def opq(n, t):
        return mk('opq', n, ty=t)
    shapes = []
    it0 = TInterp(P, 64)
    for vi, v in enumerate(E['v']):
        fs = v['f']
        tys = [f[1] for f in fs]
        if len(tys) == 1 and P.types[tys[0]]['k'] == 'adt' and short(P.types[tys[0]]['n']) == 'IpAddr':
            ip = P.types[tys[0]]
            for k, w in enumerate(ip['v']):
                at = L_ipty(P, w['n'])
                tn = next(t for t in tnames if t.lower().endswith(w['n'].lower()))
                shapes.append((tn, mk('adt', ety, vi, mk('adt', tys[0], k, opq('ip' + w['n'], at))), 'lit'))
        else:
            for k, tn in enumerate(tnames):
                args = [mk('adt', aty, k) if t == aty else hole('host') for t in tys]
                shapes.append((tn, mk('adt', ety, vi, *args), 'host'))
    n = 0
    f = ctx.impl('AddressTyped', 'ExplicitlyTypedAddress', 'address_type')
    if f is not None:
        for want, sh, _ in shapes:
            it = TInterp(P, 64)
            try:
                outs = it.root(f, [box(sh)], State())[0]
            except Exception:
                continue
            for st, r in outs:
                r = it.simp(st, r)
                if r.op == 'adt':
                    n += 1
                    ctx.check(it.vname(r) == want, 'api:address_type %s %s' % (want, say(P, sh)),
                              'address_type of `%s` is %s' % (say(P, sh), it.vname(r)), f['span'])
    # equality
    eq = ctx.impl('PartialEq', 'ExplicitlyTypedAddress', 'eq', need=False)
    if eq is not None:
        for i, (ti, a, ka) in enumerate(shapes):
            for j, (tj, b, kb) in enumerate(shapes):
                it = TInterp(P, 64)
                try:
                    outs = it.root(eq, [box(a), box(b)], State())[0]
                except Exception:
                    continue
                for st, r in outs:
                    t = it.truth(st, r)
                    if t is None:
                        continue
                    n += 1
                    ctx.check(bool(t) == (i == j), 'api:eq %s %s' % (say(P, a), say(P, b)),
                              'comparing `%s` with `%s` gives %s' % (say(P, a), say(P, b), bool(t)), eq['span'])
    ctx.cov['api_obligations'] = n


def L_ipty(P, n):
    for i, t in P.types.items():
        if t['k'] == 'adt' and t['n'].endswith('::Ip%sAddr' % n.lower()):
            return i
    return None
