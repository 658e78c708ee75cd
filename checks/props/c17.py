"""C17: printing a parsed line value and parsing it again gives the same value."""
import itertools
from lines import *

LEVEL = 'other'
RULE = ('for each line form of the specifications (a template with symbolic identifiers and numbers): the abstract value the '
        'parser builds is printed by the crate\'s Display code and the printed template is parsed again; on every path the second '
        'value must have the same kind and every field the part the first one had; an fmtp attribute may be omitted only on '
        'paths where every parameter equals its default')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the grammar table checks/table.py']


def alldefault(L, case, it, st, x):
    """all parts of the line equal the default of their field on this path"""
    root = x.a[2] if len(x.a) == 3 else x
    for path, e in case.exp.items():
        if path == 'payload_type':
            continue
        d = case.dflt.get(path)
        if d is None:
            d = 0
        if isinstance(e, str) or e is ANY:
            return None
        if it.is_int_ty(it.ty_of(e)) or e.op == 'int':
            a = it.iv(st, e)
            if a != (d, d):
                return False
        else:
            return False
    return True


def roundtrip(L, case):
    try:
        it, outs = L.parse(case)
    except Exception as e:
        return 'undet', str(e), None
    und = None
    n = 0
    for st, r in outs:
        if it.vname(r) != 'Ok':
            continue
        kind, var, x = L.payload(it, st, r)
        if x is None or kind != case.kind or var != case.variant:
            continue
        try:
            ps = printing(L, it, st, kind, x, case.prefix)
        except Exception as e:
            und = und or str(e)
            continue
        for s, y in ps:
            L.fns |= {L.P.insts[i]['n'] for i, _ in it.blocks_seen if L.P.insts[i]['local']}
            n += 1
            if y.op == 'str' and not y.a[0]:
                d = alldefault(L, case, it, s, x) if var == 'Fmtp' else False
                if d is False and precise(s, case):
                    return 'bad', 'is printed as nothing' + cond(L.P, it, case, s), (it, outs)
                und = und if d else (und or 'empty')
                continue
            try:
                it2, o2 = reparse(L, case, s, y)
            except Exception as e:
                und = und or str(e)
                continue
            js = [(s2, r2) + L.judge(case, it2, s2, r2) for s2, r2 in o2]
            bad = [j for j in js if j[2] is False and precise(j[0], case)]
            if bad or js and all(j[2] is False for j in js) and precise(s, case):
                j = (bad or js)[0]
                return 'bad', 'is printed as `%s`, which %s%s' % (say(L.P, y)[1:-1][:300], j[3] if not j[3].startswith('field') else 'reads back with ' + j[3],
                                                                 cond(L.P, it2, case, j[0])), (it, outs)
            if not all(j[2] is True for j in js):
                und = und or '; '.join(sorted({j[3] for j in js if j[2] is not True}))[:200]
    if und or not n:
        return 'undet', und or 'nothing printed', (it, outs)
    return 'ok', '', (it, outs)


def check(ctx):
    L = Lines(ctx)
    # every fmtp parameter may be omitted independently, so long lists are covered by their pairs
    cases = [c for c in itertools.chain(all_cases(ctx.p), free_cases(ctx.p), alike_cases(ctx.p), near_cases(ctx.p), pair_cases(ctx.p)) if not (c.variant == 'Fmtp' and (len(c.exp) > 6 or ANY in c.exp.values()))] + list(long_cases(ctx.p))
    batch(ctx, L, cases, 'again', roundtrip)
    finish_lines(ctx, L, 120)
