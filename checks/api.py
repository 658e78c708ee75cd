"""Calling builder and query functions on symbolic sessions and media sections."""
from docs import *
import table


class Api(Docs):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.n = 0
        self.und = 0

    # ------------------------------------------------------------ values
    def session(self, keys):
        """(state, session term) of parsing a description with one outcome"""
        doc = Doc(self.P, keys)
        it, outs = self.parse_doc(doc)
        if len(outs) != 1 or it.vname(outs[0][1]) != 'Ok':
            raise Undet('fixture')
        st, r = outs[0]
        return self.clean(st), self.strip(it, st, r.a[2]), doc

    def clean(self, st):
        s = State()
        s.facts = dict(st.facts)
        return s

    def media(self, keys):
        st, x, doc = self.session(['v', 'o', 's', 't', 'c'] + list(keys))
        it = TInterp(self.P, 64)
        return st, self.elems(it, st, self.field(x, 'media'))[0], doc

    def value(self, case):
        """(state, value) of a line with one accepting outcome"""
        it, outs = self.parse(case)
        if len(outs) != 1 or it.vname(outs[0][1]) != 'Ok':
            raise Undet('line')
        st, r = outs[0]
        _, _, x = self.payload(it, st, r)
        return self.clean(st), x

    def method(self, ty, name, need=True):
        """the instance of an inherent method"""
        xs = [f for f in self.P.insts if f['local'] and f['body'] and short(f['n'].split('::<')[0]) == name and
              f['n'].split('::')[-2:-1] == [ty]]
        if not xs and need:
            self.ctx.fail('anchor:%s::%s' % (ty, name), 'no function %s::%s' % (ty, name))
        return xs[0] if xs else None

    def call(self, f, st, args, selfv=None, mut=True):
        """[(it, state, result, self after)]"""
        it = TInterp(self.P, 96)
        s = st.copy()
        a = list(args)
        if selfv is not None:
            if mut:
                s.mem[('h', 'self')] = selfv
                a = [mk('ref', ('h', 'self'), ())] + a
            else:
                a = [box(selfv)] + a
        outs = it.root(f, a, s)[0]
        self.fns |= {self.P.insts[i]['n'] for i, _ in it.blocks_seen if self.P.insts[i]['local']}
        return [(it, st, r, st.mem.get(('h', 'self')) if mut else selfv) for st, r in outs]

    def enum(self, ty, variant, *args):
        t = self.ctx.adt_ty(ty)
        for i, v in enumerate(self.P.types[t]['v']):
            if v['n'] == variant:
                return mk('adt', t, i, *args)
        raise Undet('variant %s::%s' % (ty, variant))

    # ------------------------------------------------------------ comparing
    def same(self, it, st, a, b, d=0):
        """are two values equal: True, False (they differ on some input), None"""
        a, b = self.strip(it, st, a), self.strip(it, st, b)
        if a is b:
            return True
        if a.op == 'ref':
            return self.same(it, st, self.strip(it, st, it.read_path(st, a.a[0], a.a[1])), b, d)
        if b.op == 'ref':
            return self.same(it, st, b, a, d)
        strs = ('str', 'cat', 'hole', 'lower', 'upper')
        if a.op in strs and b.op in strs:
            return streq(a, b)
        if a.op == 'adt' and b.op == 'adt':
            if a.a[0] != b.a[0]:
                return None
            if a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return False
            return self.all3(self.same(it, st, x, y, d + 1) for x, y in zip(a.a[2:], b.a[2:]))
        if a.op == b.op and a.op in ('arr', 'tup'):
            if len(a.a) != len(b.a):
                return False
            return self.all3(self.same(it, st, x, y, d + 1) for x, y in zip(a.a, b.a))
        ints = [it.is_int_ty(it.ty_of(x)) or x.op == 'int' for x in (a, b)]
        if all(ints):
            t = it.truth(st, it.b_eq(a, b))
            if t is not None:
                return bool(t)
            return False if a.op in ('int', 'opq') and b.op in ('int', 'opq') else None
        if a.op in ('opq', 'int', 'flt') and b.op in ('opq', 'int', 'flt'):
            return False
        return None

    @staticmethod
    def all3(vs):
        res = True
        for v in vs:
            if v is False:
                return False
            if v is None:
                res = None
        return res

    def mparts(self, it, st, m):
        return dict(line=self.strip(it, st, self.byty(m, 'SdpMediaLine')),
                    connection=self.strip(it, st, self.byty(m, 'Option', 'SdpConnection')),
                    bandwidth=mk('arr', *self.elems(it, st, self.byty(m, 'Vec', 'SdpBandwidth'))),
                    attribute=mk('arr', *self.elems(it, st, self.byty(m, 'Vec', 'SdpAttribute'))))

    def sparts(self, it, st, s):
        r = {n: self.strip(it, st, self.field(s, n)) for n in ('version', 'origin', 'session', 'connection', 'timing')}
        r.update({n: mk('arr', *self.elems(it, st, self.field(s, n))) for n in ('bandwidth', 'attribute', 'media', 'warnings')})
        return r

    def line(self, mline, **kw):
        """a media line term with some fields replaced"""
        k = self.P.types[mline.a[0]]['v'][mline.a[1]]['f']
        return mk('adt', mline.a[0], mline.a[1], *[kw.get(f[0], y) for f, y in zip(k, mline.a[2:])])

    def option(self, like, v):
        """an Option of the type of `like`, holding v or nothing"""
        t = like.a[0]
        for i, x in enumerate(self.P.types[t]['v']):
            if x['n'] == ('None' if v is None else 'Some'):
                return mk('adt', t, i, *([] if v is None else [v]))

    # ------------------------------------------------------------ obligations
    def expect(self, key, f, outs, ok, want, parts, ret=None):
        """every outcome succeeds (ok=True/False for Result, None for others) and leaves the parts `want`"""
        ctx = self.ctx
        for it, st, r, after in outs:
            r = self.strip(it, st, r)
            if ok is not None:
                v = it.vname(r)
                if v in ('Ok', 'Err'):
                    self.n += 1
                    ctx.check((v == 'Ok') == ok, key + ':result', '%s %s (%s)' % (pname(self.P, f), 'fails' if ok else 'succeeds', key), f['span'])
                    if (v == 'Ok') != ok:
                        continue
            if ret is not None:
                b = self.same(it, st, r, ret)
                self.tally(b, key + ':returns', f, 'returns `%s` instead of `%s`' % (say(self.P, r, 6)[:120], say(self.P, ret, 6)[:120]))
            if want is None:
                continue
            try:
                got = parts(it, st, after)
            except Undet as e:
                self.und += 1
                continue
            for n in want:
                b = self.same(it, st, got[n], want[n])
                self.tally(b, '%s:%s' % (key, n), f, 'leaves %s `%s` instead of `%s`' % (
                    n, say(self.P, got[n], 7)[:160], say(self.P, want[n], 7)[:160]))

    def tally(self, b, key, f, text):
        if b is None:
            self.und += 1
            if os.environ.get('VERIF_DEBUG'):
                print('undet', key, text)
            return
        self.n += 1
        self.ctx.check(b, key, '%s %s (%s)' % (pname(self.P, f), text, key), f['span'])

    def guard(self, key, thunk):
        try:
            return thunk()
        except Exception as e:
            self.und += 1
            if os.environ.get('VERIF_DEBUG'):
                print('undet', key, repr(e))
            if os.environ.get('VERIF_DEBUG') == '2':
                raise
            return None


def attrs(P):
    """one line of every attribute kind"""
    seen = set()
    for n, v in table.FLAGS:
        yield v, Case(P, 'a=' + n, 'Attribute', v, '', None, tag='X.')
    for n, v, t, d in table.ATTRS:
        if v not in seen:
            seen.add(v)
            yield v, Case(P, 'a=' + n + ':', 'Attribute', v, expand(t)[0], d, tag='X.')
