"""Type-directed shapes of values: every variant, optional parts present/absent, lists of length 0, 1 and 2."""
from core import *
from tmpl import TInterp, Undet, hole, parts, cls, streq

HASHLEN = {'Sha1': 20, 'Sha224': 28, 'Sha256': 32, 'Sha384': 48, 'Sha512': 64}


class Shaper:
    def __init__(self, P, arrays=None):
        self.P = P
        self.arrays = arrays or {}
        self.n = 0

    def atom(self, name, ty):
        return mk('opq', name, ty=ty)

    def gen(self, ty, name, depth=0):
        """list of terms: first the poorest shape, last the richest"""
        P = self.P
        k = P.types[ty]
        kk = k['k']
        if kk == 'bool':
            return [FALSE, TRUE]
        if kk in ('int', 'uint', 'float', 'char'):
            return [self.atom(name, ty)]
        if kk == 'tuple':
            return self.product(None, [t for t in k['ts']], name, depth, lambda xs: mk('tup', *xs))
        if kk == 'ref':
            return [box(x) for x in self.gen(k['e'], name, depth)]
        if kk == 'adt':
            n = short(k['n'])
            if n == 'String':
                return [hole(name)]
            if n == 'Vec':
                e = [a for a in k['args']][0] if k.get('args') else self.elem(k)
                a, b = self.gen(e, name + '.0', depth + 1), self.gen(e, name + '.1', depth + 1)
                out = [mk('arr')] + [mk('arr', x) for x in a]
                if P.types[e]['k'] == 'adt' and P.types[e]['ak'] == 'Enum' and len(a) > 1:
                    out += [mk('arr', x, y) for x, y in zip(a[1:] + a[:1], b)]
                out += [mk('arr', a[-1], b[-1])]
                if len(b) > 1:
                    out += [mk('arr', a[0], b[-1]), mk('arr', a[-1], b[0])]
                if self.P.types[e]['k'] in ('uint', 'int', 'float') or short(self.P.types[e].get('n', '')) == 'String':
                    out += [mk('arr', a[-1], b[-1], self.gen(e, name + '.2', depth + 1)[-1])]
                return dedupe(out)
            if n == 'Option':
                e = k['v'][1]['f'][0][1]
                return [mk('adt', ty, 0)] + [mk('adt', ty, 1, x) for x in self.gen(e, name, depth)]
            if n == 'Box':
                raise Undet('Box')
            if n in ('Ipv4Addr', 'Ipv6Addr'):
                return [self.atom(name, ty)]
            out = []
            for vi, v in enumerate(k['v']):
                out += self.product(v, [f[1] for f in v['f']], name + ('' if k['ak'] == 'Struct' else '~' + v['n']), depth,
                                    lambda xs, vi=vi: mk('adt', ty, vi, *xs),
                                    [f[0] for f in v['f']])
            return dedupe(out)
        raise Undet('shape of ' + self.P.tname(ty))

    def elem(self, k):
        raise Undet('element type of ' + k['n'])

    def product(self, v, tys, name, depth, build, names=None):
        names = names or [str(i) for i in range(len(tys))]
        lists = [self.gen(t, name + '.' + n, depth + 1) for t, n in zip(tys, names)]
        base = [l[0] for l in lists]
        rich = [l[-1] for l in lists]
        out = [build(base)]
        for i, l in enumerate(lists):
            for x in l[1:]:
                out.append(build(base[:i] + [x] + base[i + 1:]))
        for i, l in enumerate(lists):
            for x in l[:-1]:
                out.append(build(rich[:i] + [x] + rich[i + 1:]))
        out.append(build(rich))
        return dedupe(out)


def dedupe(xs):
    seen, out = set(), []
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def say(P, v, d=7):
    """readable form of a value term"""
    if v.op == 'adt':
        k = P.types[v.a[0]]
        vv = k['v'][v.a[1]]
        n = short(k['n'])
        h = vv['n'] if k['ak'] == 'Enum' else n
        if not v.a[2:]:
            return h
        if n == 'Option' and len(v.a) == 3:
            return 'Some(%s)' % say(P, v.a[2], d - 1)
        return h + '(' + ', '.join((f[0] + '=' if not f[0].isdigit() else '') + say(P, x, d - 1) for f, x in zip(vv['f'], v.a[2:])) + ')'
    if v.op == 'arr':
        return '[' + ', '.join(say(P, x, d - 1) for x in v.a) + ']'
    if v.op == 'box':
        return say(P, v.a[0], d)
    if v.op in ('hole', 'opq'):
        return '<%s>' % v.a[0]
    if v.op == 'str':
        return repr(v.a[0])
    if v.op == 'cat':
        return '"' + ''.join(x.a[0] if x.op == 'str' else say(P, x, d - 1) for x in v.a) + '"'
    if v.op in ('disp', 'spec', 'hex'):
        return say(P, v.a[0], d)
    return show(v, 4)


def same(it, st, v, r, path=''):
    """(True | False | None, where): is the parsed value r the original v"""
    v, r = it.simp(st, v), it.simp(st, r)
    while v.op == 'box':
        v = it.simp(st, v.a[0])
    while r.op == 'box':
        r = it.simp(st, r.a[0])
    if v is r:
        return True, path
    P = it.p
    if v.op == 'adt' and r.op == 'adt':
        if v.a[0] != r.a[0]:
            return None, path
        if v.a[1] != r.a[1]:
            return False, path
        fs = P.types[v.a[0]]['v'][v.a[1]]['f']
        res = True
        for f, x, y in zip(fs, v.a[2:], r.a[2:]):
            b, w = same(it, st, x, y, (path + '.' if path else '') + f[0])
            if b is False:
                return False, w
            if b is None:
                res = (None, w)
        return res if isinstance(res, tuple) else (True, path)
    if v.op in ('arr', 'tup') and r.op == v.op:
        if len(v.a) != len(r.a):
            return False, path + '.len'
        res = (True, path)
        for i, (x, y) in enumerate(zip(v.a, r.a)):
            b, w = same(it, st, x, y, path + '[%d]' % i)
            if b is False:
                return False, w
            if b is None:
                res = (None, w)
        return res
    if parts(v) is not None and parts(r) is not None:
        b = streq(v, r)
        return b, path
    vt = it.ty_of(v)
    if v.op in ('int', 'opq') and r.op in ('int', 'opq') and (it.is_int_ty(vt) or v.op == 'int' or r.op == 'int'):
        a, b = it.iv(st, v), it.iv(st, r)
        if a[0] == a[1] and a == b:
            return True, path
        if a[1] < b[0] or b[1] < a[0]:
            return False, path
        if v.op == 'opq' and r.op == 'opq':
            return False, path           # two different generic numbers
        f = it.truth(st, it.b_eq(v, r))
        return (False if f == 0 or f is None else True), path
    if v.op == 'opq' and r.op in ('opq', 'fconst') and v.ty is not None and P.types[v.ty]['k'] == 'float':
        return False, path
    return None, path


def flow(P, line, parse, args=None, maxstates=160):
    """evaluate `parse` on a template; [(state, result)]"""
    it = TInterp(P, maxstates)
    st = State()
    return it, it.root(parse, [box(line)] + (args or []), st)[0]
