"""C29: copies are equal to the original, and comparisons mean equality."""
import itertools
from api import *
from shapes import Shaper

LEVEL = 'other'
RULE = ('every Clone::clone is evaluated on a symbolic value of every shape of its type (variants, absent and present parts, lists of '
        '0 to 3): on every path the result must equal the value field by field; every PartialEq::eq / ne is evaluated on equal '
        'values, on values of different shape and on values that differ in one part, symbolic and concrete: on every path the '
        'answer must be the equality of that part (host names: without case)')
SPECIAL = True
TRUSTED = ['rustc MIR', 'std models in engine/']
CAP = 160
HOST = ('domain', 'Fqdn')


def flt(v):
    return mk('flt', float(v))


class Plain(Shaper):
    def elem(self, k):
        return k['args'][0]


def atoms(P, x, path=(), name=''):
    """(path, atom, name) of the symbolic parts of a value"""
    if x.op in ('hole', 'opq', 'flt'):
        yield path, x, name
    elif x.op in ('arr', 'tup'):
        for i, y in enumerate(x.a):
            yield from atoms(P, y, path + (i,), '[%d]' % i)
    elif x.op == 'adt':
        v = P.types[x.a[0]]['v'][x.a[1]]
        for i, (f, y) in enumerate(zip(v['f'], x.a[2:])):
            yield from atoms(P, y, path + (i + 2,), f[0] if not f[0].isdigit() else v['n'])


def put(x, path, y):
    if not path:
        return y
    a = list(x.a)
    a[path[0]] = put(a[path[0]], path[1:], y)
    return mk(x.op, *a, ty=x.ty)


def concrete(P, a, name):
    """[(value, other value, equal?)] for one atom"""
    if a.op == 'hole':
        host = name in HOST
        return [(S(p), S(q), p == q or host and p.lower() == q.lower()) for p, q in
                (('example.org', 'example.org'), ('example.org', 'EXAMPLE.org'), ('example.org', 'example.com'), ('a', 'ab'),
                 ('ab', 'a'), ('a', 'b'), ('host', 'host '), ('xa', 'a'))]
    k = {'k': 'float'} if a.op == 'flt' else P.types[a.ty] if a.ty is not None else {}
    if k.get('k') in ('int', 'uint'):
        b = k.get('bits') or k.get('w') or 32
        out = [(5, 5), (5, 6), (0, 1), (0, (1 << b) - 1) if k['k'] == 'uint' else (0, 1)]
        out += [(5, 5 + (1 << s)) for s in (8, 16, 32) if s < b]
        return [(I(p), I(q), p == q) for p, q in out]
    if k.get('k') == 'float':
        return [(flt(p), flt(q), p == q) for p, q in ((0.5, 0.5), (0.5, 0.75), (1.0, 1.5), (0.5, 0.5 + 2 ** -20))]
    return []


def floats(P, x):
    """the same value with numbers instead of symbolic floats (a NaN is unequal to itself)"""
    for i, (path, a, _) in enumerate(list(atoms(P, x))):
        if a.op == 'opq' and a.ty is not None and P.types[a.ty]['k'] == 'float':
            x = put(x, path, flt(0.5 + i))
    return x


def differ(x, y):
    """are two shapes definitely unequal (another variant or another length)?"""
    if x.op == 'adt' and y.op == 'adt':
        return x.a[1] != y.a[1] or any(differ(a, b) for a, b in zip(x.a[2:], y.a[2:]))
    if x.op in ('arr', 'tup') and x.op == y.op:
        return len(x.a) != len(y.a) or any(differ(a, b) for a, b in zip(x.a, y.a))
    if x.op == 'int' and y.op == 'int':
        return x.a[0] != y.a[0]
    return False


def spread(xs, n):
    if len(xs) <= n:
        return xs
    k = len(xs) / n
    return [xs[int(i * k)] for i in range(n - 1)] + [xs[-1]]


def impls(P, trait, fn):
    for f in P.insts:
        m = re.match(r'<(?:[\w:]*::)?(\w+) as std::%s>::%s$' % (trait, fn), f['n'])
        if f['local'] and f['body'] and m:
            yield m.group(1), f


def check(ctx):
    A = Api(ctx)
    P = ctx.p
    jobs = [('clone', t, f) for t, f in impls(P, 'clone::Clone', 'clone')]
    jobs += [('eq', t, f) for t, f in impls(P, 'cmp::PartialEq', 'eq')] + [('ne', t, f) for t, f in impls(P, 'cmp::PartialEq', 'ne')]

    def job(j):
        kind, ty, f = j
        A.fns, A.und = set(), 0
        out = []

        def rec(ok, key, text):
            if ok is None:
                A.und += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('undet', kind, ty, key, text[:200])
            else:
                out.append((ok, '%s:%s:%s' % (kind, ty, key), text))

        def truth(it, st, r):
            r = A.strip(it, st, r)
            if r.op == 'int':
                return bool(r.a[0])
            return it.truth(st, r)

        def cmp(x, y, want, key, text):
            """want: True, False or a pair of terms"""
            outs = A.call(f, State(), [box(y)], x, mut=False)
            for it, st, r, _ in outs:
                r = A.strip(it, st, r)
                v = truth(it, st, r)
                w = want
                if isinstance(want, tuple):
                    e = it.models.cmp_terms(st, want[0], want[1], it.ty_of(want[0]))
                    w = it.truth(st, e)
                    if w is None and v is not None and len(outs) == 1:
                        # one path for all values: the answer does not depend on the part that differs
                        rec(False, key, '%s are always %s' % (text, 'equal' if v == (kind == 'eq') else 'unequal'))
                        continue
                    if w is None and (r is e and kind == 'eq'):
                        rec(True, key, text)
                        continue
                if v is None or w is None:
                    rec(None, key, text + ' ' + show(r)[:100])
                    continue
                rec((v == (kind == 'eq')) == w, key, '%s are %s' % (text, 'unequal' if w else 'equal'))

        def run():
            try:
                vs = Plain(P).gen(ctx.adt_ty(ty), 'x')
            except Undet as e:
                return rec(None, 'shape', str(e))
            if kind != 'clone':
                vs = [floats(P, x) for x in vs]
            vs = spread(vs, CAP)
            if kind == 'clone':
                for x in vs:
                    for it, st, r, _ in A.call(f, State(), [], x, mut=False):
                        b = A.same(it, st, r, x)
                        rec(b, '', 'the clone of `%s` is `%s`' % (say(P, x, 5)[:150], say(P, A.strip(it, st, r), 5)[:150]))
                return
            for x in vs:
                cmp(x, x, True, 'same', '`%s` and itself' % say(P, x, 5)[:100])
            for x, y in spread(list(itertools.permutations(vs, 2)), 2 * CAP):
                if differ(x, y):
                    cmp(x, y, False, 'shape', '`%s` and `%s`' % (say(P, x, 5)[:90], say(P, y, 5)[:90]))
            for x in spread(vs, 24):
                for path, a, name in atoms(P, x):
                    b = mk('opq', 'other', ty=a.ty) if a.op == 'opq' else None
                    if b is not None:
                        cmp(x, put(x, path, b), (a, b), name, '`%s` and the same with another %s' % (say(P, x, 5)[:90], name))
                    for p, q, eq in concrete(P, a, name):
                        cmp(put(x, path, p), put(x, path, q), eq, name, '`%s` and `%s`' % (
                            say(P, put(x, path, p), 5)[:90], say(P, put(x, path, q), 5)[:90]))
        try:
            run()
        except Exception as e:
            if os.environ.get('VERIF_DEBUG') == '2':
                raise
            rec(None, 'exception', repr(e))
        return out, sorted(A.fns), A.und
    n = und = 0
    per = {}
    for (kind, ty, f), (out, fns, u) in zip(jobs, pmap(job, jobs)):
        ctx.fnset |= set(fns)
        und += u
        for ok, key, text in out:
            n += 1
            ctx.check(ok, key, text, f['span'])
        per[kind + ' ' + ty] = [len(out), u]
    ctx.cov['obligations_decided'] = n
    ctx.cov['undetermined'] = und
    ctx.cov['impls'] = len(jobs)
    ctx.samples += [{'impl': k, 'decided': a, 'undetermined': b} for k, (a, b) in sorted(per.items())][:90]
    ctx.floor(n, 300, 'clone and comparison obligations')
