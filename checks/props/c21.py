"""C21: anonymization reaches every sensitive field."""
from api import *
from props import anon, c22
from lines import MAGIC, PRECISE

LEVEL = 'other'
RULE = ('masked_clone of attributes, media sections and sessions is analysed on symbolic values of every attribute form, every '
        'combination of candidate extensions and every kind of address, with the public mask functions uninterpreted; on every '
        'path each field of the frozen list of sensitive fields must be the mask, of its own category, of the same field of the original; '
        'the mask functions themselves are analysed on symbolic and special arguments: what they return on any path must not be or hold the argument')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/', 'the list of sensitive fields in checks/props/anon.py']
START = 3000000


def check(ctx):
    anon.run(ctx, 'C21')
    A = Api(ctx)
    A.guard('masks', lambda: masks(ctx, A))
    ctx.cov['undetermined_masks'] = A.und


def atoms(t):
    """the unknowns a value is made of, not those it was computed from"""
    if t.op in ('adt', 'arr', 'tup', 'cat', 'ref', 'disp', 'spec', 'lower', 'upper', 'hex'):
        k = 2 if t.op == 'adt' else 0
        return {x for y in t.a[k:] if isinstance(y, T) for x in atoms(y)}
    return {t} if t.op in ('hole', 'opq') else set()


def bytewise(t):
    """addresses given by a number as their bytes"""
    if t.op == 'adt':
        if t.a[2:] and all(y.op == 'int' for y in t.a[2:]) and len(t.a) == 3 and t.a[2].a[0] >= 0:
            b = t.a[2].a[0].to_bytes(16, 'little')
            return mk('adt', t.a[0], t.a[1], mk('arr', *map(I, b[:16 if any(b[4:]) else 4])))
        return mk('adt', t.a[0], t.a[1], *[bytewise(y) for y in t.a[2:]], ty=t.ty)
    return t


def masks(ctx, A):
    X = c22.Anon(ctx, A)
    if not all(X.fn.values()):
        return
    _, z0 = X.new()
    n = 0
    for f in c22.LEAVES + ['mask_address', 'mask_typed_address']:
        mks = X.args(f)
        mem = {}

        def start(f, mks):
            """an anonymizer that has given many masks of the category"""
            l0, res = dict(X.leaves(z0)), {}
            for _, m in mks:
                l1 = dict(X.leaves(X.call(X.fn[f], State(), z0, m(9))[0][3]))
                res.update({p: I(START) for p in l0 if l0[p].op == 'int' and p in l1 and l1[p] is not l0[p]})
            return X.put(z0, res)

        def judge(nm, m, k):
            nonlocal n
            a = m(k)
            outs = X.call(X.fn[f], State(), mem['z'], a)
            looked = set(MAGIC)
            for it, s, r, _ in outs:
                v, r = bytewise(X.deep(it, s, a)), bytewise(r)
                s = A.clean(s)
                hard = len(outs) == 1 or all(y.op in PRECISE and (y.op not in ('opq', 'hole') or y in own(a)) for q in s.facts for y in subterms(q))
                same = A.same(it, s, r, v)
                # not the words of this comparison
                MAGIC.clear()
                MAGIC.update(looked)
                held = bool(atoms(r) & atoms(v))
                if same is None and not held and not atoms(v):
                    A.und += 1
                    if os.environ.get('VERIF_DEBUG'):
                        print('undet', f, nm, show(r, 4), show(v, 4))
                    continue
                if (same or held) and not hard:
                    A.und += 1
                    continue
                n += 1
                ctx.check(not (same or held), 'mask:' + f, '%s of %s returns `%s`: the argument is not hidden' % (f, nm, say(A.P, r, 6)[:80]), X.fn[f]['span'])

        def own(a):
            return {t for t in subterms(a) if t.op in ('opq', 'hole')}
        MAGIC.clear()
        A.guard('start ' + f, lambda: mem.update(z=start(f, mks)))
        if not mem:
            continue
        for kd, m in mks:
            def run():
                judge('an argument of kind ' + kd, m, 1)
            A.guard('mask ' + f, run)
        found = sorted({w for n_, w in MAGIC if isinstance(n_, str) and n_[:1] == 'h'})
        more = X.lits(f) if f in c22.LEAVES else []
        if any(kd == 'text' for kd, _ in mks):
            more += [('text with `%s`' % w, lambda k, w=w: box((S(w), cat(S(w), hole('h')), cat(hole('h'), S(w)), cat(hole('h'), S(w), hole('i')))[k - 1])) for w in found]
        for nm, m in more:
            for k in (1, 2) if nm[:9] != 'text with' else (1, 2, 3, 4):
                A.guard('mask %s %s' % (f, nm), lambda: judge(nm, m, k))
    ctx.cov['masks_judged'] = n
    ctx.floor(n, 40, 'masks judged')
