"""C27: flags take no value, valued attributes need one, unknown names are never taken for a known attribute."""
from lines import *
import table

LEVEL = 'other'
RULE = ('for every flag attribute, the name with any symbolic value attached must be refused on every path and the bare name '
        'accepted; for every valued attribute, the bare name and the name with an empty value must be refused on every path; a '
        'symbolic unknown name, and every known name with a letter added or removed, must give an unsupported-line error')
TRUSTED = ['rustc MIR', 'std models in engine/', 'the attribute tables in checks/table.py']


def unsupported(L, case):
    """every path ends in an unsupported-line error"""
    it, outs = L.parse(case)
    for st, r in outs:
        if it.vname(r) == 'Ok':
            k, v, x = L.payload(it, st, r)
            if precise(st, case):
                return 'bad', 'is accepted as %s %s' % (k, v), (it, outs)
            return 'undet', 'Ok', (it, outs)
        e = it.simp(st, r.a[2])
        if it.vname(e) != 'Unsupported':
            if precise(st, case):
                return 'bad', 'is reported as %s instead of as unsupported' % it.vname(e), (it, outs)
            return 'undet', '', (it, outs)
    return 'ok', '', (it, outs)


def check(ctx):
    P = ctx.p
    L = Lines(ctx)
    acc, ref, unk = [], [], []

    def case(line, text, what, var=None):
        c = Case(P, line, 'Attribute', var, text, None)
        c.what = what
        return c
    names = {n for n, _ in table.FLAGS} | {n for n, _, _, _ in table.ATTRS}
    for n, v in table.FLAGS:
        acc.append(case('a=' + n, '', 'flag', v))
        for t in ('{v}', '{v:n32}', '{v} {w}', '0', '1', 'true'):
            ref.append(case('a=' + n + ':', t, 'flag-with-value'))
    for n in sorted({n for n, _, _, _ in table.ATTRS}):
        ref.append(case('a=' + n, '', 'no-value'))
        ref.append(case('a=' + n + ':', '', 'empty-value'))
    for t in ('{n}', '{n}:{v}', '{n}:{v} {w}', '{n}-{m}', '{n}-{m}:{v}', 'X-{n}:{v}'):
        unk.append(case('a=', t, 'unknown'))
    for n in sorted(names):
        for m in (n + 'x', 'x' + n, 'x-' + n, n + '-x', n[:-1], n + '-', n.replace('-', '') if '-' in n else n + '1', n.replace('-', '_'), n + ' ',
                  n.replace('s', '\u017f'), n.replace('i', '\u0131'), n + '\u0307'):
            if m.strip() in names or not m.strip() or m.endswith(' '):
                continue
            unk.append(case('a=', m, 'unknown'))
            unk.append(case('a=', m + ':{v}', 'unknown'))
    batch(ctx, L, acc, 'flag', lambda L, c: L.accept(c))
    batch(ctx, L, ref, 'refused', lambda L, c: L.refuse(c))
    batch(ctx, L, unk, 'unknown', unsupported)
    finish_lines(ctx, L, 100)
    ctx.cov['attribute_names'] = len(names)
