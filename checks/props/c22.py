"""C22: anonymization is consistent and collision free."""
import itertools
from api import *
from lines import PRECISE
from tmpl import specof, MAGIC
from more import More
from models import cat

LEVEL = 'other'
RULE = ('(1) step: every path of every mask function from an arbitrary anonymizer state either returns what is stored for its '
        'argument and changes nothing, or stores exactly what it returns under exactly its argument and advances a counter; '
        '(2) histories: from a new anonymizer and from counters at digit and byte boundaries, histories of mask calls on distinct '
        'symbolic arguments, interleaved with every other mask function on the same and on other arguments, give equal masks '
        'to equal arguments, different masks to different arguments, and keep the kind of an address')
TRUSTED = ['rustc MIR', 'std models in engine/ (maps are functional, integer text is injective)']
LEAVES = ['mask_host', 'mask_ip', 'mask_port', 'mask_origin_user', 'mask_ice_password', 'mask_ice_user',
          'mask_cert_finger_print', 'mask_cname']
WIDE = [0, 8, 9, 98, 99, 126, 127, 254, 255, 256, 998, 999, 4094, 9998, 9999, 32766, 32767, 65534, 65535, 65536, 99998, 99999, 999999,
        2 ** 24 - 2, 2 ** 24 - 1, 9999999, 99999998, 99999999, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 32 - 3]


class MapModels(More):
    maps = False

    """maps as functional terms; two keys are equal exactly when they are the same symbolic argument"""
    def __init__(self, it):
        super().__init__(it)
        self.A = None

    def _find(self, inst):
        if inst['kind'] == 'Intrinsic' and inst['n'].startswith('std::intrinsics::bswap'):
            return self.bswap
        return super()._find(inst)

    def bswap(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, args[0])
        rg = self.p.int_range(self.dty(F, t, inst))
        if x.op != 'int' or rg is None:
            return None
        n = (rg[1] + 1).bit_length() // 8
        return [(st, I(int.from_bytes(x.a[0].to_bytes(n, 'little'), 'big')))]

    def is_map_fn(self, inst):
        return any(x in inst['d'] for x in ('HashMap', 'BTreeMap'))

    def lookup(self, st, m, k):
        """[(state, stored value or None)]"""
        it = self.it
        while m.op == 'mapins':
            b = self.A.same(it, st, m.a[1], k)
            if b is None:
                raise Undet('keys')
            if b:
                return [(st, m.a[2])]
            m = m.a[0]
        if m.op == 'map0':
            return [(st, None)]
        if m.op != 'opq':
            raise Undet('map %s' % repr(m)[:200])
        return [(s, mk('mapget', m, k) if v else None) for s, v in self.split_bool(st, mk('bool', 'mapget', m, k))]

    def f_get(self, F, bb, st, inst, args, t, sp):
        if not self.is_map_fn(inst):
            return super().f_get(F, bb, st, inst, args, t, sp)
        dty = self.dty(F, t, inst)
        m, k = self.peel(st, args[0]), self.peel(st, args[1])
        some = self.payload_ty(dty, 'Some')
        out = []
        for s, v in self.lookup(st, self.it.simp(st, m), k):
            if v is None:
                out.append((s, self.enum_of(dty, 'None')))
            else:
                if v.op == 'mapget':
                    v = mk('mapget', *v.a, ty=self.p.types[some]['e'])
                out.append((s, self.enum_of(dty, 'Some', self.it.mkbox(v))))
        return out

    def family(v):
        def f(self, F, bb, st, inst, args, t, sp):
            x = self.A.strip(self.it, st, self.peel(st, args[0]))
            n = self.it.vname(x) if x.op == 'adt' else None
            return [(st, I(int(n == v)))] if n in ('V4', 'V6') else None
        return f

    f_is_ipv4, f_is_ipv6 = family('V4'), family('V6')

    def f_to_canonical(self, F, bb, st, inst, args, t, sp):
        x = self.A.strip(self.it, st, self.peel(st, args[0]))
        if x.op != 'adt' or self.it.vname(x) != 'V6':
            return [(st, x)] if x.op == 'adt' else None
        o = x.a[2].a[2] if x.a[2].op == 'adt' else None
        if o is None or o.op != 'arr' or any(b.op != 'int' for b in o.a):
            return None
        if [b.a[0] for b in o.a[:12]] != [0] * 10 + [255, 255]:
            return [(st, x)]
        i = next(i for i, v in enumerate(self.p.types[x.a[0]]['v']) if v['n'] == 'V4')
        return [(st, mk('adt', x.a[0], i, mk('adt', self.p.types[x.a[0]]['v'][i]['f'][0][1], 0, mk('arr', *o.a[12:]))))]

    def f_truncate(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and args[1].op == 'int':
            self.setcell(st, F, cp, mk('arr', *v.a[:args[1].a[0]]))
            return [(st, UNIT)]
        return super().f_truncate(F, bb, st, inst, args, t, sp)

    def f_contains_key(self, F, bb, st, inst, args, t, sp):
        if not self.is_map_fn(inst):
            return None
        m, k = self.it.simp(st, self.peel(st, args[0])), self.peel(st, args[1])
        return [(s, I(int(v is not None))) for s, v in self.lookup(st, m, k)]

    def f_index(self, F, bb, st, inst, args, t, sp):
        if not self.is_map_fn(inst):
            return super().f_index(F, bb, st, inst, args, t, sp)
        out = []
        for s, v in self.lookup(st, self.it.simp(st, self.peel(st, args[0])), self.peel(st, args[1])):
            if v is not None:
                if v.op == 'mapget':
                    v = mk('mapget', *v.a, ty=self.deep_ty(self.dty(F, t, inst)))
                out.append((s, self.it.mkbox(v)))
        return out

    def f_entry(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        if not self.is_map_fn(inst) or cp is None:
            return None
        return [(st, mk('mapentry', cp[0], cp[1], args[1]))]

    def into(self, F, st, e, vals):
        """insert when absent, give a reference to the stored value"""
        cp = (e.a[0], e.a[1])
        out = []
        for s, v in self.lookup(st, self.getcell(st, cp), e.a[2]):
            if v is not None:
                out.append((s, self.it.mkbox(v)))
                continue
            for s2, w in vals(s):
                self.setcell(s2, F, cp, mk('mapins', self.getcell(s2, cp), e.a[2], w))
                out.append((s2, self.it.mkbox(w)))
        return out

    def f_or_insert(self, F, bb, st, inst, args, t, sp):
        if args[0].op != 'mapentry':
            return None
        return self.into(F, st, args[0], lambda s: [(s, args[1])])

    def f_or_insert_with(self, F, bb, st, inst, args, t, sp):
        if args[0].op != 'mapentry':
            return None
        return self.into(F, st, args[0], lambda s: self.it.call_value(F, bb, s, args[1], [], None, sp))

    def template(self, st, tpl, args):
        def pad(p):
            if p.op == 'spec' and p.a[0].op == 'str' and p.a[0].a[0].isdigit():
                fl, w = specof(p.a[1])
                if fl & 1 << 24 and not fl & (1 << 21 | 1 << 23) and ',k' not in p.a[1]:
                    return S(p.a[0].a[0].rjust(w, '0'))
            return p
        r = super().template(st, tpl, args)
        return cat(*[pad(p) for p in r.a]) if r.op == 'cat' else pad(r)

    def wrap(self, F, t, inst, st, x, y, op):
        it = self.it
        x, y = self.A.strip(it, st, self.peel(st, x)), self.A.strip(it, st, self.peel(st, y))
        if x.op != 'adt' or y.op != 'adt' or len(x.a) != 3 or len(y.a) != 3:
            raise Undet('wrapping operands')
        ty = self.p.types[x.a[0]]['v'][0]['f'][0][1]
        rg = self.p.int_range(ty)
        a, b = x.a[2], y.a[2]
        if a.op == 'int' and b.op == 'int':
            n = (a.a[0] + b.a[0] if op == '+' else a.a[0] - b.a[0]) % (rg[1] + 1)
            return mk('adt', x.a[0], x.a[1], I(n))
        if op == '+' and rg[0] == 0:
            lo, hi = it.iv(st, a)
            lo2, hi2 = it.iv(st, b)
            if lo >= 0 and lo2 >= 0 and hi + hi2 <= rg[1]:
                return mk('adt', x.a[0], x.a[1], it.add(a, b))
        raise Undet('wrapping')

    def f_add_assign(self, F, bb, st, inst, args, t, sp):
        if 'Wrapping' in inst['d']:
            cp = self.cell_of(st, args[0])
            if cp:
                self.setcell(st, F, cp, self.wrap(F, t, inst, st, self.getcell(st, cp), args[1], '+'))
                return [(st, UNIT)]
        return super().f_add_assign(F, bb, st, inst, args, t, sp)

    def f_add(self, F, bb, st, inst, args, t, sp):
        if 'Wrapping' in inst['d']:
            return [(st, self.wrap(F, t, inst, st, args[0], args[1], '+'))]
        return super().f_add(F, bb, st, inst, args, t, sp)

    def f_len(self, F, bb, st, inst, args, t, sp):
        if self.is_map_fn(inst):
            m, n = self.it.simp(st, self.peel(st, args[0])), 0
            while m.op == 'mapins':
                m, n = m.a[0], n + 1
            if m.op == 'map0':
                return [(st, I(n))]
            raise Undet('map length')
        return super().f_len(F, bb, st, inst, args, t, sp)


class Hist(TInterp):
    def __init__(self, A):
        super().__init__(A.P, 64)
        self.models = MapModels(self)
        self.models.A = A


class Anon:
    def __init__(self, ctx, A):
        self.ctx, self.A, self.P = ctx, A, ctx.p
        self.fn = {n: A.method('StatefulSdpAnonymizer', n) for n in LEAVES + ['mask_address', 'mask_typed_address', 'new']}
        self.ip = self.inner(self.fn['mask_ip'])['e'] if self.fn['mask_ip'] else None

    def call(self, f, st, z, arg=None):
        """[(it, state, result, anonymizer after)]"""
        it = Hist(self.A)
        s = st.copy()
        a = []
        if z is not None:
            s.mem[('h', 'anon')] = z
            a = [mk('ref', ('h', 'anon'), ()), arg]
        outs = it.root(f, a, s)[0]
        self.ctx.fnset |= {self.P.insts[i]['n'] for i, _ in it.blocks_seen if self.P.insts[i]['local']}
        return [(it, s, self.deep(it, s, r), self.deep(it, s, s.mem.get(('h', 'anon'), UNIT))) for s, r in outs]

    def deep(self, it, st, x):
        """references replaced by what they refer to"""
        x = self.A.strip(it, st, x)
        if x.op == 'ref':
            x = self.A.strip(it, st, it.read_path(st, x.a[0], x.a[1]))
        if x.op in ('adt', 'arr', 'tup'):
            k = 2 if x.op == 'adt' else 0
            return mk(x.op, *x.a[:k], *[self.deep(it, st, y) for y in x.a[k:]], ty=x.ty)
        return x

    def inner(self, f):
        return self.P.types[f['body']['locals'][2]]

    def lits(self, n):
        """pairs of different arguments that a careless key would confuse: (name, argument maker of k = 1, 2)"""
        f = self.fn[n]
        ty = f['body']['locals'][2]
        num = lambda *xs: box(mk('arr', *map(I, xs)))
        h = hole('h')
        if n == 'mask_port':
            vs = [('16 bits', I(80), I(65616)), ('zero', I(0), I(65536)), ('large', I(2 ** 31), I(2 ** 31 + 1)), ('byte', I(1), I(257)),
                  ('ends', I(0), I(2 ** 32 - 1))]
        elif n == 'mask_cert_finger_print':
            vs = [('longer', num(1, 2, 3, 4), num(1, 2, 3, 4, 5)), ('zeros', num(0, 0, 1), num(0, 1)), ('trailing zero', num(1, 0), num(1)),
                  ('order', num(1, 2, 3), num(3, 2, 1)), ('last of 20', num(*range(20)), num(*range(19), 99)), ('empty', num(), num(0)),
                  ('21 bytes', num(*range(20)), num(*range(21))), ('32 bytes', num(*range(32)), num(*range(31), 99)),
                  ('64 bytes', num(*range(64)), num(*range(63), 99)), ('1 of 32', num(*range(32)), num(99, *range(1, 32)))]
        elif n == 'mask_ip':
            def ip(v, *o):
                i = self.variant(self.ip, v)
                t = self.P.types[self.ip]['v'][i]['f'][0][1]
                return box(mk('adt', self.ip, i, mk('adt', t, 0, mk('arr', *map(I, o)))))
            m = [0] * 10 + [255, 255]
            vs = [('mapped', ip('V4', 1, 2, 3, 4), ip('V6', *m, 1, 2, 3, 4)), ('compatible', ip('V4', 1, 2, 3, 4), ip('V6', *[0] * 12, 1, 2, 3, 4)),
                  ('loopback', ip('V4', 127, 0, 0, 1), ip('V4', 127, 0, 0, 2)), ('loopback 6', ip('V6', *[0] * 15, 1), ip('V6', *m, 127, 0, 0, 1)),
                  ('unspecified', ip('V4', 0, 0, 0, 0), ip('V6', *[0] * 16)), ('network', ip('V4', 10, 0, 0, 1), ip('V4', 10, 0, 1, 1)),
                  ('private', ip('V4', 192, 168, 0, 1), ip('V4', 192, 168, 0, 2)), ('multicast', ip('V4', 224, 0, 0, 1), ip('V4', 224, 0, 0, 2)),
                  ('interface', ip('V6', 32, 1, *[0] * 13, 1), ip('V6', 32, 1, *[0] * 13, 2)), ('link local', ip('V6', 254, 128, *[0] * 13, 1), ip('V6', 254, 128, *[0] * 13, 2)),
                  ('prefix', ip('V6', 32, 1, *[0] * 13, 1), ip('V6', 32, 2, *[0] * 13, 1))]
        else:
            b = lambda x: box(S(x))
            vs = [('leading blank', box(cat(S(' '), h)), box(h)), ('trailing blank', box(cat(h, S(' '))), box(h)), ('case', b('Alice'), b('alice')),
                  ('tail', b('x' * 300 + 'a'), b('x' * 300 + 'b')), ('33rd', b('y' * 32 + 'a'), b('y' * 32 + 'b')), ('dot', b('host.example'), b('host.example.')),
                  ('first', b('axyz'), b('bxyz')), ('empty', b(''), b(' ')), ('dash', b('-'), b('')), ('accent', b('\xe9'), b('e\u0301')),
                  ('nul', b('a'), b('a\0')), ('inner case', b('aBc'), b('abc')), ('zeros', b('01'), b('1')), ('order', b('ab'), b('ba')),
                  ('braces', b('{a}'), b('a')), ('domain', b('a.example.com'), b('a.example.org')), ('label', b('a.local'), b('b.local')),
                  ('sign', b('a+b'), b('a b')), ('eight', b('12345678'), b('123456789')), ('sixteen', b('0123456789abcdef'), b('0123456789abcdeg'))]
        return [(nm, lambda k, x=x, y=y: (x, y)[k - 1]) for nm, x, y in vs]

    def variant(self, t, n):
        return next(i for i, v in enumerate(self.P.types[t]['v']) if v['n'] == n)

    def args(self, n):
        """argument makers: (kind, k -> argument term)"""
        f = self.fn[n]
        ty = f['body']['locals'][2]
        if n == 'mask_port':
            return [('port', lambda k: mk('opq', 'port%d' % k, ty=ty))]
        if n == 'mask_cert_finger_print':
            u8 = self.P.find_ty(lambda t: t['k'] == 'uint' and t['n'] == 'u8')
            return [('bytes', lambda k: box(mk('arr', *[mk('opq', 'b%d.%d' % (k, i), ty=u8) for i in range(4)])))]

        def ip(v):
            i = self.variant(self.ip, v)
            t = self.P.types[self.ip]['v'][i]['f'][0][1]
            return lambda k: mk('adt', self.ip, i, mk('opq', 'ip%d' % k, ty=t))
        if n == 'mask_ip':
            return [(v, lambda k, g=ip(v): box(g(k))) for v in ('V4', 'V6')]
        if n in ('mask_address', 'mask_typed_address'):
            e = self.inner(f)['e']
            out = []
            for i, v in enumerate(self.P.types[e]['v']):
                if v['n'] == 'Ip':
                    out += [('Ip ' + w, lambda k, i=i, g=ip(w): box(mk('adt', e, i, g(k)))) for w in ('V4', 'V6')]
                elif len(v['f']) == 1:
                    out.append((v['n'], lambda k, i=i: box(mk('adt', e, i, hole('h%d' % k)))))
                else:
                    at = next(f[1] for f in v['f'] if f[0] == 'address_type')
                    for j, w in enumerate(self.P.types[at]['v']):
                        out.append((v['n'] + ' ' + w['n'], lambda k, i=i, v=v, at=at, j=j: box(mk('adt', e, i, *[
                            mk('adt', at, j) if g[0] == 'address_type' else hole('h%d' % k) for g in v['f']]))))
            return out
        return [('text', lambda k: box(hole('h%d' % k)))]

    def new(self):
        outs = self.call(self.fn['new'], State(), None)
        if len(outs) != 1:
            raise Undet('new')
        return outs[0][1], outs[0][2]

    def leaves(self, z, path=()):
        """(path, value) of the scalar leaves of a state"""
        if z.op == 'adt':
            for i, y in enumerate(z.a[2:]):
                yield from self.leaves(y, path + (i,))
        else:
            yield path, z

    def put(self, z, vals, path=()):
        if z.op == 'adt':
            return mk('adt', z.a[0], z.a[1], *[self.put(y, vals, path + (i,)) for i, y in enumerate(z.a[2:])])
        return vals.get(path, z)

    def kind(self, it, st, x):
        """the nested enum variants of an address"""
        x = self.deep(it, st, x)
        if x.op != 'adt':
            return ()
        t = self.P.types[x.a[0]]
        if short((t.get('n') or '').split('<')[0]) in ('IpAddr', 'Address', 'ExplicitlyTypedAddress', 'AddressType'):
            r = (t['v'][x.a[1]]['n'],)
            for y in x.a[2:]:
                r += self.kind(it, st, y)
            return r
        return ()


def check(ctx):
    A = Api(ctx)
    A.guard('histories', lambda: histories(ctx, A))


def histories(ctx, A):
    X = Anon(ctx, A)
    if not all(X.fn.values()):
        return
    r = A.guard('new', X.new)
    if r is None:
        ctx.floor(0, 1, 'anonymizer states')
        return
    s0, z0 = r
    n = {'hist': 0, 'step': 0}

    def walk(z, calls):
        """a history: [(function name, argument maker, k)]; every path: ([(interpreter, state, mask)], anonymizer)"""
        todo = [(s0, [], z)]
        for f, mkarg, k in calls:
            nxt = []
            for st, out, z in todo:
                for it, s, r, z2 in X.call(X.fn[f], st, z, mkarg(k)):
                    s = A.clean(s)
                    nxt.append((s, out + [(it, s, r)], z2))
            todo = nxt
            if len(todo) > 48:
                raise Undet('%d paths' % len(todo))
        own = {t for f, mkarg, k in calls for t in subterms(mkarg(k)) if t.op in ('opq', 'hole')}
        return [(out, z, all(y.op in PRECISE and (y.op not in ('opq', 'hole') or y in own) for k in st.facts for y in subterms(k)))
                for st, out, z in todo]

    def single(z, calls):
        ps = walk(z, calls)
        if len(ps) != 1:
            raise Undet('%d paths' % len(ps))
        return ps[0][:2]

    def judge(key, f, paths, eq, ne):
        """pairs of indices that must be equal / different"""
        for want, pairs in ((True, eq), (False, ne)):
            for i, j in pairs:
                bs = []
                for res, _, exact in paths:
                    it, st, a = res[i]
                    bs.append((A.same(res[j][0], res[-1][1], a, res[j][2]), exact, a, res[j][2]))
                bad = [b for b in bs if b[0] is (not want)]
                hard = [b for b in bad if b[1]] or (bad if len(bad) == len(bs) else [])
                if not hard and (bad or any(b[0] is None for b in bs)):
                    A.und += 1
                    if os.environ.get('VERIF_DEBUG'):
                        print('undet', key, i, j, [(b[0], b[1], show(b[2], 4), show(b[3], 4)) for b in bs][:3])
                    continue
                n['hist'] += 1
                a, b = (hard or bs)[0][2:]
                ctx.check(not hard, '%s:%s' % (f, 'consistent' if want else 'distinct'),
                          'in the history %s calls %d and %d of %s get %s masks `%s` and `%s`' % (
                              key, i + 1, j + 1, 'equal arguments' if want else 'different arguments', 'different' if want else 'equal',
                              say(A.P, a, 6)[:60], say(A.P, b, 6)[:60]), X.fn[f]['span'])
    # (2) histories from a new anonymizer
    for f in LEAVES + ['mask_address', 'mask_typed_address']:
        mks = X.args(f)
        MAGIC.clear()
        for (k1, m1), (k2, m2) in itertools.product(mks, mks):
            same_kind = k1 == k2

            def run():
                seq = [(f, m1, 1), (f, m2, 2), (f, m1, 1), (f, m2, 3), (f, m2, 2), (f, m1, 4), (f, m1, 1), (f, m2, 3)]
                paths = walk(z0, seq)
                key = '%s(%s a), (%s b), a, (c), b, (d), a, c' % (f, k1, k2)
                judge(key, f, paths, [(0, 2), (0, 6), (1, 4), (3, 7)],
                      [(0, 1), (0, 3), (1, 3), (0, 5), (1, 5), (3, 5)])
                for (res, _, exact), i in itertools.product(paths, range(4)):
                    it, st, r = res[i]
                    if not exact and len(paths) > 1:
                        continue
                    want = X.kind(it, st, seq[i][1](seq[i][2]))
                    got = X.kind(it, st, r)
                    if got and want:
                        n['hist'] += 1
                        ctx.check(got == want, f + ':kind', '%s turns %s into %s' % (f, ' '.join(want), ' '.join(got)), X.fn[f]['span'])
            A.guard('history ' + f, run)
        # what the code looks for in a text
        found = sorted({w for n_, w in MAGIC if isinstance(n_, str) and n_[:1] == 'h'})
        if any(kd == 'text' for kd, _ in mks):
            ctx.cov['special_words'] = ctx.cov.get('special_words', 0) + len(found)
        extra = [('`%s`' % w, lambda k, x=x, y=y: box(S((x, y)[k - 1]))) for w in found for x, y in (
            (w, 'qw'), (w + 'qw', 'qw'), ('qw' + w, 'qw'), ('q' + w + 'w', 'qw'), ('er' + w + 'qw', 'ty' + w + 'qw'),
            ('qw' + w + 'er', 'qw' + w + 'ty'), (w, w + w), (w + 'a', w + 'b'), ('a' + w, 'b' + w))] if any(kd == 'text' for kd, _ in mks) else []
        for nm, m in (X.lits(f) if f in LEAVES else []) + extra:
            def run():
                res = walk(z0, [(f, m, 1), (f, m, 2), (f, m, 1), (f, m, 2)])
                judge('%s(a) b a b where a, b differ in %s' % (f, nm), f, res, [(0, 2), (1, 3)], [(0, 1)])
            A.guard('pair %s %s' % (f, nm), run)
        # the same name declared with another type gets the same mask (only the kind differs)
        # interleaved with every other function
        for g in LEAVES:
            if g == f:
                continue
            for (k1, m1), (k2, m2) in itertools.product(mks, X.args(g)):
                def run():
                    res = walk(z0, [(f, m1, 1), (g, m2, 1), (f, m1, 1), (g, m2, 2), (f, m1, 2), (g, m2, 1), (f, m1, 1), (f, m1, 2), (g, m2, 2)])
                    key = '%s(a) %s(a) %s(a) %s(b) %s(b) %s(a) %s(a) %s(b) %s(b)' % (f, g, f, g, f, g, f, f, g)
                    judge(key, f, res, [(0, 2), (0, 6), (4, 7)], [(0, 4)])
                    judge(key, g, res, [(1, 5), (3, 8)], [(1, 3)])
                A.guard('interleaved %s %s' % (f, g), run)
    # counters: the integers a fresh call changes
    for f in LEAVES:
        for kd, m in X.args(f):
            def run():
                _, z1 = single(z0, [(f, m, 1)])
                _, z2 = single(z0, [(f, m, 1), (f, m, 2)])
                l0, l1, l2 = dict(X.leaves(z0)), dict(X.leaves(z1)), dict(X.leaves(z2))
                cs = [p for p in l0 if l0[p].op == 'int' and p in l1 and l1[p].op == 'int' and (l0[p].a[0] != l1[p].a[0] or l1[p].a[0] != l2[p].a[0])]
                if len(cs) != 1:
                    A.und += 1
                    return
                c = cs[0]
                d = l2[c].a[0] - l1[c].a[0]
                res = []
                for w in WIDE:
                    z = X.put(z0, {c: I(w)})
                    rs = walk(z, [(f, m, 1), (f, m, 1), (f, m, 2)])
                    judge('%s(a) a b from counter %d' % (f, w), f, rs, [(0, 1)], [(0, 2)])
                    res.append(rs[0][0][0] if len(rs) == 1 else None)
                for i, j in itertools.combinations(range(len(WIDE)), 2):
                    if res[i] is None or res[j] is None:
                        A.und += 1
                        continue
                    it, st, a = res[i]
                    b = A.same(it, st, a, res[j][2])
                    if b is None:
                        A.und += 1
                        continue
                    n['hist'] += 1
                    ctx.check(not b, f + ':counter', '%s gives the equal masks `%s` at counters %d and %d' % (
                        f, say(A.P, a, 6)[:60], WIDE[i], WIDE[j]), X.fn[f]['span'])
                step(ctx, A, X, f, kd, m, z0, c, n)
            A.guard('counter %s %s' % (f, kd), run)
    ctx.cov['history_obligations'] = n['hist']
    ctx.cov['step_obligations'] = n['step']
    ctx.cov['undetermined'] = A.und
    ctx.floor(n['hist'], 60, 'history obligations')
    ctx.samples.append({'histories': n['hist'], 'step obligations': n['step'], 'functions': LEAVES})


def step(ctx, A, X, f, kd, m, z0, c, n):
    """the inductive step from an arbitrary state"""
    span = X.fn[f]['span']
    l0 = dict(X.leaves(z0))
    vals = {p: mk('opq', 'map%s' % '.'.join(map(str, p))) for p, x in l0.items() if x.op == 'map0'}
    w = None
    for i, t in A.P.types.items():
        if t['k'] == 'uint' and t['n'] == 'u32':
            w = i
    vals[c] = cv = mk('opq', 'counter', ty=w)
    z = X.put(z0, vals)
    st = State()
    it = Hist(A)
    try:
        it.assume(st, it.b_lt(cv, I(2 ** 31)), True)
    except Exception:
        pass
    arg = m(1)
    outs = X.call(X.fn[f], st, z, arg)
    key = A.strip(it, st, arg)

    def ob(ok, what, text):
        n['step'] += 1
        ctx.check(ok, '%s:%s' % (f, what), '%s %s (%s)' % (f, text, kd), span)
    ls = dict(X.leaves(z))
    hits = 0
    known = set(vals.values()) | {t for t in subterms(key) if t.op == 'opq'}
    for it, s, r, after in outs:
        la = dict(X.leaves(after))
        ch = {p for p in la if la[p] is not ls.get(p)}
        if any(t.op in ('call', 'unk', 'item') or t.op == 'opq' and t not in known for t in subterms(r)):
            A.und += 1
            continue
        if r.op == 'mapget' or any(t.op == 'mapget' for t in subterms(r)):
            hits += 1
            if r.op == 'mapget':
                ob(A.same(it, s, r.a[1], key) is not False, 'step', 'returns what is stored under another argument')
            ob(not any(p == c or la[p].op == 'mapins' for p in ch), 'step', 'changes its state when the argument is known')
            continue
        ins = [p for p in ch if la[p].op == 'mapins' and la[p].a[0] is ls[p]]
        if len(ins) == 1:
            k, v = la[ins[0]].a[1], la[ins[0]].a[2]
            for what, a, b, t in (('step', k, key, 'stores the mask under `%s` instead of its argument' % say(A.P, k, 4)[:60]),
                                  ('step', v, r, 'stores `%s` but returns `%s`' % (say(A.P, v, 5)[:60], say(A.P, r, 5)[:60]))):
                b = A.same(it, s, a, b)
                if b is None:
                    A.und += 1
                else:
                    ob(b, what, t)
        elif not ins:
            ob(False, 'step', 'does not store the mask it returns')
        if c in ch:
            t = it.truth(s, it.b_lt(cv, la[c]))
            if t is None:
                A.und += 1
            else:
                ob(bool(t), 'step', 'does not advance its counter')
        else:
            ob(False, 'step', 'does not advance its counter for a new argument')
    if len(outs) > 1 and hits == 0:
        A.und += 1
