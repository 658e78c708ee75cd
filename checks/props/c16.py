"""C16: names, types and keywords are recognised whatever the case of their letters."""
from lines import *

LEVEL = 'other'
RULE = ('every line template of the specifications, with the letters of its attribute name and case-insensitive keywords all '
        'lower-case, all upper-case and alternating: the abstract parse must give the same kind and the same value in every '
        'field, and the symbolic identifiers must arrive as they are (no case conversion of them)')
TRUSTED = ['rustc MIR', 'std and url models in engine/', 'the grammar table checks/table.py']


def alternating(s):
    return ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))


def check(ctx):
    L = Lines(ctx)
    cases = []
    for nm, caser in (('lower', str.lower), ('upper', str.upper), ('mixed', alternating)):
        for c in all_cases(ctx.p, caser):
            if '<' not in c.text and not re.search(r'\{[^{}=]*=[^=!~]', c.text) and len(c.exp) > 1:
                continue
            c.what = nm
            cases.append(c)
    batch(ctx, L, cases, 'case', lambda L, c: L.accept(c))
    finish_lines(ctx, L, 200)
