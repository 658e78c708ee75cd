"""C02: printing, building, querying and anonymizing never panic; Display impls never fail on their own."""
from core import *
from props import panics
from props.c01 import LEVEL, RULE as R1, TRUSTED

RULE = R1.replace('every parsing entry point', 'every public function, constructor and trait method outside parsing') + \
    '; no Display/Debug impl of the crate returns an Err of its own making'


def check(ctx):
    rs, sites = panics.decide(ctx, 'use')
    ctx.floor(len(rs), 150, 'entry_points')
    # Display impls: Err only from the formatter
    n = 0
    for x in ctx.p.insts:
        if not (x['local'] and x['body'] and x['n'].endswith(' as std::fmt::Display>::fmt')):
            continue
        n += 1
        s = ctx.run(x)
        bad = [r for st, r in s.outs if err_of_own(s.it, st, r)]
        ctx.check(not bad, 'display-err@' + panics.shortfn(x['n']),
                  '`%s` returns an Err that does not come from the formatter' % x['n'], x['body']['span'])
    ctx.floor(n, 40, 'display_impls')


def err_of_own(it, st, r):
    return r.op == 'adt' and it.vname(r) == 'Err'
