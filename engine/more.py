"""Further models of std for the template domain: everything is evaluated on values of known shape; a model returns None
(the result stays unknown) when the shape is not known."""
import ipaddress
import math
import struct
from terms import *
from prog import short
from tmpl import TModels, Undet, Nope, parts, cls, split, occurs, matcher, norm, mayhave, WS
from models import cat, method, Models

INT_FNS = {
    'pow': lambda a, b, w: a ** b if b < 4096 else None, 'abs': lambda a, w: abs(a), 'unsigned_abs': lambda a, w: abs(a),
    'abs_diff': lambda a, b, w: abs(a - b), 'is_power_of_two': lambda a, w: a > 0 and a & (a - 1) == 0,
    'leading_zeros': lambda a, w: w - (a % (1 << w)).bit_length(), 'count_ones': lambda a, w: bin(a % (1 << w)).count('1'),
    'trailing_zeros': lambda a, w: w if a == 0 else (a & -a).bit_length() - 1,
    'rem_euclid': lambda a, b, w: a % abs(b) if b else None, 'div_euclid': lambda a, b, w: (a - a % abs(b)) // b if b else None,
    'div_ceil': lambda a, b, w: -(-a // b) if b else None, 'next_power_of_two': lambda a, w: 1 << max(a - 1, 0).bit_length(),
    'swap_bytes': lambda a, w: int.from_bytes((a % (1 << w)).to_bytes(w // 8, 'little'), 'big'),
    'signum': lambda a, w: (a > 0) - (a < 0), 'isqrt': lambda a, w: math.isqrt(a) if a >= 0 else None,
    'ilog2': lambda a, w: a.bit_length() - 1 if a > 0 else None, 'is_positive': lambda a, w: a > 0,
    'is_negative': lambda a, w: a < 0, 'is_multiple_of': lambda a, b, w: a % b == 0 if b else a == 0,
    'next_multiple_of': lambda a, b, w: -(-a // b) * b if b else None,
}
ARITH = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'pow': lambda a, b: a ** b if b < 4096 else None,
         'div': lambda a, b: None if b == 0 else abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1),
         'rem': lambda a, b: None if b == 0 else math.fmod(a, b) if False else (abs(a) % abs(b)) * (-1 if a < 0 else 1),
         'neg': lambda a: -a, 'abs': lambda a: abs(a), 'shl': lambda a, b: a << b, 'shr': lambda a, b: a >> b}
FLOAT_FNS = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'abs': abs, 'fract': lambda a: a - math.trunc(a),
             'round': lambda a: math.floor(abs(a) + 0.5) * (1 if a >= 0 else -1), 'sqrt': lambda a: math.sqrt(a) if a >= 0 else None,
             'max': max, 'min': min, 'clamp': lambda a, b, c: min(max(a, b), c), 'signum': lambda a: math.copysign(1, a),
             'powi': lambda a, b: a ** b, 'mul_add': lambda a, b, c: a * b + c}
OPS = {o + x: o for o in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr') for x in ('', '_assign')}
OPS.update({'not': 'not', 'neg': 'neg'})
MIROP = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}
IP_PRED = {'is_unspecified', 'is_loopback', 'is_private', 'is_multicast', 'is_link_local', 'is_broadcast', 'is_documentation'}


class Unord(Exception):
    pass


class More(TModels):
    maps = True

    # ------------------------------------------------------------ dispatch
    BYNAME = {
        'std::mem::take': 'x_memtake', 'core::mem::take': 'x_memtake', 'std::mem::replace': 'x_memreplace',
        'core::mem::replace': 'x_memreplace', 'std::mem::swap': 'x_memswap', 'core::mem::swap': 'x_memswap',
        'std::mem::discriminant': 'x_discriminant', 'core::mem::discriminant': 'x_discriminant',
        'std::vec::from_elem': 'x_from_elem', 'std::iter::once': 'x_once', 'std::iter::empty': 'x_empty',
        'std::iter::repeat': 'x_repeat', 'std::iter::repeat_n': 'x_repeat_n', 'std::iter::successors': 'x_successors',
        'std::iter::from_fn': 'x_from_fn', 'std::array::from_fn': 'x_arr_from_fn', 'std::mem::drop': 'x_unit', 'std::mem::forget': 'x_unit', 'core::mem::drop': 'x_unit',
    }

    def _find(self, inst):
        d = inst['d']
        if not inst['local']:
            x = self.BYNAME.get(d)
            if x:
                return getattr(self, x)
            me = method(d)
            if 'core::num::<impl ' in d or 'std::num::<impl ' in d:
                f = getattr(self, 'f_' + me, None)
                if me in INT_FNS and not inst['body']:
                    return self.x_intfn
                if me.split('_')[0] in ('checked', 'wrapping', 'saturating', 'overflowing') and me.split('_')[-1] in ARITH:
                    return self.x_arith
                if f is None and me in ('to_be_bytes', 'to_le_bytes', 'to_ne_bytes'):
                    return self.x_tobytes
            if me in OPS and 'std::ops::' in d and not inst['body']:
                return self.x_op
            if me == 'map' and 'array::<impl' in d:
                return self.x_arrmap
            if me == 'spec_to_string' or me == 'to_string' and 'char' in d:
                return self.x_char_string
            if ('::f32::<impl f32>' in d or '::f64::<impl f64>' in d) and me in FLOAT_FNS:
                return self.x_floatfn
            if me in IP_PRED and ('net::Ip' in d or 'std::net' in d):
                return self.x_ippred
            if d.startswith('std::char::methods::<impl char>') or 'char::methods' in d:
                f = getattr(self, 'c_' + me, None)
                if f is not None:
                    return f
            if me in ('call_once', 'call_mut', 'call') and 'std::ops::Fn' in d and not inst['body']:
                return self.x_call
            if me in ('new', 'from') and any(x in d for x in ('rc::Rc', 'sync::Arc', 'cell::Cell', 'cell::RefCell', 'num::Wrapping')) \
                    and not inst['body'] and 'Wrapping' not in d and 'Cell' not in d:
                return self.x_same
            if me == 'default' and 'as std::default::Default>' in d and not inst['body']:
                return self.x_default
        return super()._find(inst)

    # ------------------------------------------------------------ helpers
    def xs(self, st, a):
        """(cell, elements) of an iterator given by value or by reference"""
        cp, v, xs = self.src_iter(st, a)
        if xs is None and v.op == 'adt' and short(self.p.types[v.a[0]]['n']) in ('Range', 'RangeInclusive') and \
                v.a[2].op == 'int' and v.a[3].op == 'int' and v.a[3].a[0] - v.a[2].a[0] < 512:
            xs = [I(i) for i in range(v.a[2].a[0], v.a[3].a[0] + (short(self.p.types[v.a[0]]['n']) != 'Range'))]
        return cp, xs

    def seq(self, st, a):
        """elements of a list value or slice"""
        v = self.it.simp(st, self.peel(st, a))
        if v.op == 'arr':
            return list(v.a)
        if v.op == 'bytes_':
            return [I(b) for b in v.a[0]]
        return None

    def mseq(self, st, a):
        cp = self.cell_of(st, a)
        v = self.getcell(st, cp) if cp else None
        return (cp, list(v.a)) if v is not None and v.op == 'arr' else (None, None)

    def put(self, st, F, cp, xs):
        self.setcell(st, F, cp, mk('arr', *xs))

    def some(self, dty, x):
        return self.enum_of(dty, 'Some', x)

    def none(self, dty):
        return self.enum_of(dty, 'None')

    def eqv(self, F, bb, st, inst, a, b, t, sp):
        """[(state, equal?)]"""
        x, y = self.it.simp(st, self.peel(st, a)), self.it.simp(st, self.peel(st, b))
        if x.op == 'discrv' and y.op == 'discrv':
            return [(st, x is y)]
        if x.op == 'arr' and y.op == 'arr':
            rs = self.eq_lists(F, bb, st, inst, x, y, t, sp)
        elif x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a):
            rs = self.eq_lists(F, bb, st, inst, mk('arr', *x.a), mk('arr', *y.a), t, sp)
        else:
            ty = x.a[0] if x.op == 'adt' else self.it.ty_of(x) or self.it.ty_of(y)
            rs = self.local_eq(F, bb, st, inst, [x, y], t, sp, ty) if ty is not None else None
            if rs is None:
                if x.op == 'int' and y.op == 'int':
                    rs = [(st, self.it.b_eq(x, y))]
                elif x.op == 'adt' and y.op == 'adt' and x.a[0] == y.a[0]:
                    if x.a[1] != y.a[1]:
                        return [(st, False)]
                    rs = self.eq_lists(F, bb, st, inst, mk('arr', *x.a[2:]), mk('arr', *y.a[2:]), t, sp)
                else:
                    rs = [(st, self.cmp_terms(st, x, y, ty))]
        return [q for s, v in rs for q in self.bools(s, v)]

    def cmpv(self, st, a, b):
        """-1, 0, 1; Unord when the order is not known"""
        it = self.it
        a, b = it.simp(st, self.peel(st, a)), it.simp(st, self.peel(st, b))
        if a is b:
            return 0
        if a.op == b.op == 'int' or a.op == b.op == 'flt' or a.op == b.op == 'str':
            x, y = a.a[0], b.a[0]
            if a.op == 'str':
                x, y = x.encode(), y.encode()
            return (x > y) - (x < y)
        if a.op == b.op and a.op in ('arr', 'tup'):
            for x, y in zip(a.a, b.a):
                c = self.cmpv(st, x, y)
                if c:
                    return c
            return (len(a.a) > len(b.a)) - (len(a.a) < len(b.a))
        if a.op == b.op == 'adt' and a.a[0] == b.a[0] and not self.p.types[a.a[0]].get('local'):
            if a.a[1] != b.a[1]:
                return -1 if a.a[1] < b.a[1] else 1
            return self.cmpv(st, mk('tup', *a.a[2:]), mk('tup', *b.a[2:]))
        if a.op == b.op == 'adt' and a.a[0] == b.a[0] and len(a.a) == len(b.a) == 2:
            return -1 if a.a[1] < b.a[1] else 1
        raise Unord

    def ordering(self, ty, c):
        return self.enum_of(ty, 'Less' if c < 0 else 'Greater' if c > 0 else 'Equal')

    def ord_of(self, r):
        n = self.it.vname(r) if r.op == 'adt' else None
        if n not in ('Less', 'Equal', 'Greater'):
            raise Undet('ordering')
        return {'Less': -1, 'Equal': 0, 'Greater': 1}[n]

    def sorted_by(self, st, xs, cmp):
        """[(state, sorted list)]; cmp(state, a, b) -> [(state, -1/0/1)]; stable insertion sort"""
        work = [(st, [])]
        for x in xs:
            nxt = []
            for s, ys in work:
                # find the place from the right
                todo = [(s, len(ys))]
                while todo:
                    s2, i = todo.pop()
                    if i == 0:
                        nxt.append((s2, [x] + ys))
                        continue
                    for s3, c in cmp(s2, ys[i - 1], x):
                        if c <= 0:
                            nxt.append((s3, ys[:i] + [x] + ys[i:]))
                        else:
                            todo.append((s3, i - 1))
            work = nxt
            if len(work) > self.it.maxstates:
                raise Undet('too many paths')
        return work

    def plain_cmp(self, s, a, b):
        try:
            return [(s, self.cmpv(s, a, b))]
        except Unord:
            x, y = self.it.simp(s, self.peel(s, a)), self.it.simp(s, self.peel(s, b))
            ty = self.it.ty_of(x) or self.it.ty_of(y)
            if ty is not None and self.p.types[ty]['k'] in ('int', 'uint'):
                out = []
                for s2, v in self.bools(s, self.it.b_lt(x, y)):
                    if v:
                        out.append((s2, -1))
                    else:
                        out += [(s3, 1 if w else 0) for s3, w in self.bools(s2, self.it.b_lt(y, x))]
                return out
            raise Undet('order')

    def closure_cmp(self, F, bb, clo, key):
        def f(s, a, b):
            bx = self.it.mkbox
            if key:
                out = []
                for s2, x in self.it.call_value(F, bb, s, clo, [bx(a)], None, None):
                    for s3, y in self.it.call_value(F, bb, s2, clo, [bx(b)], None, None):
                        out += self.plain_cmp(s3, x, y)
                return out
            return [(s2, self.ord_of(self.it.simp(s2, r)))
                    for s2, r in self.it.call_value(F, bb, s, clo, [bx(a), bx(b)], None, None)]
        return f

    # ------------------------------------------------------------ mem
    def x_unit(self, F, bb, st, inst, args, t, sp):
        return [(st, UNIT)]

    def x_same(self, F, bb, st, inst, args, t, sp):
        return [(st, args[0])]

    def x_discriminant(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        if x.op != 'adt':
            return self.default(F, bb, st, inst, args, t, sp)
        return [(st, mk('discrv', x.a[0], x.a[1]))]

    def x_default(self, F, bb, st, inst, args, t, sp):
        z = self.dflt(self.dty(F, t, inst))
        return [(st, z)] if z is not None else self.default(F, bb, st, inst, args, t, sp)

    def x_call(self, F, bb, st, inst, args, t, sp):
        f = self.peel(st, args[0])
        a = args[1]
        if f.op not in ('fn', 'clos') or a.op != 'tup':
            return self.default(F, bb, st, inst, args, t, sp)
        if f.op == 'clos' and args[0].op == 'ref':
            ci = self.it.closure_inst(f)
            l1 = self.p.types[ci['body']['locals'][1]] if ci and ci['body'] else None
            if l1 is not None and l1['k'] == 'ref':
                cp = self.cell_of(st, args[0])
                if cp:
                    return self.it.call_closure(F, bb, st, f, list(a.a), None, sp, env=mk('ref', cp[0], cp[1]))
        return self.it.call_value(F, bb, st, f, list(a.a), None, sp)

    def x_op(self, F, bb, st, inst, args, t, sp):
        """operators of the number types, called on references"""
        it = self.it
        me = method(inst['d'])
        old = getattr(self, 'f_' + me, None)
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        k = self.p.types[ty]['k'] if ty is not None else None
        xs = [it.simp(st, self.peel(st, a)) for a in args]
        if k not in ('int', 'uint', 'bool', 'float'):
            r = old(F, bb, st, inst, args, t, sp) if old else None
            return r if r is not None else self.default(F, bb, st, inst, args, t, sp)
        o = OPS[me]
        r = None
        if o == 'not':
            r = it.b_not(xs[0]) if k == 'bool' else None
        elif o == 'neg':
            r = I(-xs[0].a[0]) if xs[0].op == 'int' else None
        elif o in MIROP and k in ('bool', 'float'):
            r = it.binop(st, F, MIROP[o], xs[0], xs[1], False, ty, ty)
        elif o in MIROP and not (o in ('div', 'rem') and not (xs[1].op == 'int' and xs[1].a[0])):
            rg = self.p.int_range(ty)
            if o in ('add', 'sub', 'mul'):
                y = it.binop(st, F, MIROP[o], xs[0], xs[1], True, ty, ty)
                lo, hi = it.iv(st, y.a[0])
                r = y.a[0] if lo >= rg[0] and hi <= rg[1] else None
            else:
                r = it.binop(st, F, MIROP[o], xs[0], xs[1], False, ty, ty)
        if r is None:
            return self.default(F, bb, st, inst, args, t, sp)
        if me.endswith('_assign'):
            cp = self.cell_of(st, args[0])
            if cp is None:
                return self.default(F, bb, st, inst, args, t, sp)
            self.setcell(st, F, cp, r)
            return [(st, UNIT)]
        return [(st, r)]

    def x_arrmap(self, F, bb, st, inst, args, t, sp):
        v = self.it.simp(st, args[0])
        if v.op != 'arr':
            return self.default(F, bb, st, inst, args, t, sp)
        return [(s, mk('arr', *rs)) for s, rs in self.each(F, bb, st, list(v.a), args[1])]

    def x_arr_from_fn(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        n = self.p.types[dty].get('n') if dty is not None else None
        if n is None or int(n) > 256:
            return self.default(F, bb, st, inst, args, t, sp)
        return [(s, mk('arr', *rs)) for s, rs in self.each(F, bb, st, [I(i) for i in range(int(n))], args[0])]

    def x_char_string(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        if x.op == 'int' and ty is not None and self.p.types[ty]['k'] == 'char':
            return [(st, S(chr(x.a[0])))]
        r = self.f_to_string(F, bb, st, inst, args, t, sp)
        return r if r is not None else self.default(F, bb, st, inst, args, t, sp)

    def f_split_inclusive(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        sep = self.it.simp(st, self.peel(st, args[1]))
        sep = chr(sep.a[0]) if sep.op == 'int' else sep.a[0] if sep.op == 'str' else None
        if x.op != 'str' or not sep:
            return super().f_split_inclusive(F, bb, st, inst, args, t, sp)
        out = [y + sep for y in x.a[0].split(sep)]
        out[-1] = out[-1][:-len(sep)]
        return [(st, self.lst([self.it.mkbox(S(y)) for y in out if y]))]

    def f_from_str_nonconst(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('fmtargs', self.peel(st, args[0])))]

    # ------------------------------------------------------------ numbers
    def width(self, ty):
        rg = self.p.int_range(ty)
        return None if rg is None else ((rg[1] - rg[0]).bit_length(), rg)

    def x_intfn(self, F, bb, st, inst, args, t, sp):
        it = self.it
        me = method(inst['d'])
        dty = self.dty(F, t, inst)
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        xs = [it.simp(st, self.peel(st, a)) for a in args]
        w = self.width(ty)
        if any(x.op != 'int' for x in xs) or w is None:
            if me == 'abs_diff':
                return [(s, it.sub(xs[1], xs[0]) if v else it.sub(xs[0], xs[1])) for s, v in self.bools(st, it.b_lt(xs[0], xs[1]))]
            return self.default(F, bb, st, inst, args, t, sp)
        r = INT_FNS[me](*[x.a[0] for x in xs], w[0])
        if isinstance(r, bool):
            return [(st, I(int(r)))]
        rg = self.p.int_range(dty)
        if r is None or rg is None or not rg[0] <= r <= rg[1]:
            return self.default(F, bb, st, inst, args, t, sp)
        return [(st, I(r))]

    def x_arith(self, F, bb, st, inst, args, t, sp):
        it = self.it
        me = method(inst['d'])
        mode, op = me.split('_')[0], me.split('_')[-1]
        dty = self.dty(F, t, inst)
        ty = self.deep_ty(self.aty(F, t, inst, 0))
        w = self.width(ty)
        xs = [it.simp(st, self.peel(st, a)) for a in args]
        if w is None:
            return self.default(F, bb, st, inst, args, t, sp)
        n, (lo, hi) = w

        def give(s, r, over):
            """r: term or int of the exact result; over: it does not fit (-1 below, 1 above, 2 undefined)"""
            if mode == 'checked':
                return (s, self.none(dty) if over else self.some(dty, r))
            if mode == 'saturating':
                return (s, I(hi) if over == 1 else I(lo) if over == -1 else r)
            if over:
                if r.op != 'int':
                    raise Undet('wrapping')
                r = I((r.a[0] - lo) % (1 << n) + lo)
            return (s, r if mode == 'wrapping' else mk('tup', r, I(1 if over else 0)))
        if all(x.op == 'int' for x in xs) and len(me.split('_')) == 2:
            r = ARITH[op](*[x.a[0] for x in xs])
            if r is None:
                return [(st, self.none(dty))] if mode == 'checked' else self.default(F, bb, st, inst, args, t, sp)
            return [give(st, I(r), -1 if r < lo else 1 if r > hi else 0)]
        if op not in ('add', 'sub') or len(xs) != 2 or len(me.split('_')) != 2:
            f = getattr(Models, 'f_' + me, None)
            return f(self, F, bb, st, inst, args, t, sp) if f else self.default(F, bb, st, inst, args, t, sp)
        a, b = xs
        r = it.add(a, b) if op == 'add' else it.sub(a, b)
        out = []
        for s, v in self.bools(st, it.b_lt(I(hi), r)):
            if v:
                out.append(give(s, r, 1))
                continue
            for s2, u in self.bools(s, it.b_lt(r, I(lo))):
                out.append(give(s2, r, -1 if u else 0))
        return out

    def x_tobytes(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        w = self.width(self.aty(F, t, inst, 0))
        if x.op != 'int' or w is None:
            return self.default(F, bb, st, inst, args, t, sp)
        b = (x.a[0] % (1 << w[0])).to_bytes(w[0] // 8, 'big' if 'be' in method(inst['d']) else 'little')
        return [(st, mk('arr', *[I(c) for c in b]))]

    def x_floatfn(self, F, bb, st, inst, args, t, sp):
        xs = [self.it.simp(st, self.peel(st, a)) for a in args]
        if any(x.op not in ('flt', 'int') for x in xs) or any(x.a[0] != x.a[0] or abs(x.a[0]) == float('inf') for x in xs):
            return self.default(F, bb, st, inst, args, t, sp)
        r = FLOAT_FNS[method(inst['d'])](*[x.a[0] for x in xs])
        if r is None:
            return self.default(F, bb, st, inst, args, t, sp)
        r = float(r)
        if 'impl f32' in inst['d']:
            r = struct.unpack('<f', struct.pack('<f', r))[0]
        return [(st, mk('flt', r))]

    def f_total_cmp(self, F, bb, st, inst, args, t, sp):
        return self.f_cmp(F, bb, st, inst, args, t, sp)

    def f_partial_cmp(self, F, bb, st, inst, args, t, sp):
        r = super().f_partial_cmp(F, bb, st, inst, args, t, sp)
        if r is not None:
            return r
        dty = self.dty(F, t, inst)
        names = [v['n'] for v in self.p.types[dty]['v']]
        oty = self.payload_ty(dty, 'Some') if 'Some' in names else dty
        try:
            rs = self.plain_cmp(st, args[0], args[1])
        except Undet:
            return None
        return [(s, self.ordering(oty, c) if oty == dty else self.some(dty, self.ordering(oty, c))) for s, c in rs]

    f_cmp = f_partial_cmp

    def order(self, F, st, args, t, op, inst=None):
        r = super().order(F, st, args, t, op, inst)
        if r.op == 'bool' and r.a[0] in ('olt', 'ole'):
            try:
                c = self.cmpv(st, args[0], args[1])
                return I(int({'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]))
            except Unord:
                pass
        return r

    def cow(self, st, x):
        if x.op == 'adt' and len(x.a) == 3 and short(self.p.types[x.a[0]]['n']) == 'Cow':
            return self.it.simp(st, self.peel(st, x.a[2]))
        return x

    def f_eq(self, F, bb, st, inst, args, t, sp):
        x, y = self.cow(st, self.peel(st, args[0])), self.cow(st, self.peel(st, args[1]))
        if 'Cow' in inst['d'] and all(parts(z) is not None for z in (x, y)):
            return super().f_eq(F, bb, st, inst, [self.it.mkbox(x), self.it.mkbox(y)], t, sp)
        if x.op == 'discrv' and y.op == 'discrv':
            return [(st, I(int(x is y)))]
        if x.op == 'tup' and y.op == 'tup' and len(x.a) == len(y.a) and x.a:
            return self.eq_lists(F, bb, st, inst, mk('arr', *x.a), mk('arr', *y.a), t, sp)
        if 'Iterator' in inst['d']:
            cp, a = self.xs(st, args[0])
            b = self.conc(st, self.to_iter(st, args[1], self.aty(F, t, inst, 1)))
            if a is None or b is None:
                return None
            return self.eq_lists(F, bb, st, inst, mk('arr', *a), mk('arr', *b), t, sp)
        if x.op == y.op == 'bytes_' or {x.op, y.op} == {'bytes_', 'arr'}:
            a, b = self.seq(st, x), self.seq(st, y)
            return self.eq_lists(F, bb, st, inst, mk('arr', *a), mk('arr', *b), t, sp)
        if {x.op, y.op} == {'str', 'arr'}:
            a, b = [mk('arr', *[I(c) for c in z.a[0].encode()]) if z.op == 'str' else z for z in (x, y)]
            return self.eq_lists(F, bb, st, inst, a, b, t, sp)
        return super().f_eq(F, bb, st, inst, args, t, sp)

    # ------------------------------------------------------------ addresses
    def ipval(self, st, a):
        x = self.it.simp(st, self.peel(st, a))
        if x.op == 'adt' and len(x.a) == 3:
            x = x.a[2]
        if x.op == 'opq' and isinstance(x.a[0], str) and x.a[0].startswith('ip!'):
            return ipaddress.ip_address(x.a[0][3:])
        return x

    def ipterm(self, ip):
        ty = self.ipty(ip.version)
        return None if ty is None else mk('opq', 'ip!' + str(ip), ty=ty)

    def x_ippred(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        me = method(inst['d'])
        if not isinstance(x, T):
            if me == 'is_broadcast':
                return [(st, I(int(str(x) == '255.255.255.255')))]
            if me in ('is_private', 'is_documentation'):
                if me == 'is_private' and x.version == 4:
                    return [(st, I(int(any(x in ipaddress.ip_network(n) for n in ('10.0.0.0/8', '172.16.0.0/12', '192.168.0.0/16')))))]
                return self.default(F, bb, st, inst, args, t, sp)
            return [(st, I(int(getattr(x, me))))]
        # an arbitrary address: both are possible
        return [(s, I(int(v))) for s, v in self.split_bool(st, mk('bool', 'ip' + me, x))]

    def f_octets(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        return None if isinstance(x, T) else [(st, mk('arr', *[I(b) for b in x.packed]))]

    def f_segments(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        return None if isinstance(x, T) else [(st, mk('arr', *[I(x.packed[i] * 256 + x.packed[i + 1]) for i in range(0, 16, 2)]))]

    def f_to_ipv6_mapped(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        r = None if isinstance(x, T) else self.ipterm(ipaddress.ip_address('::ffff:' + str(x)))
        return None if r is None else [(st, r)]

    def f_to_ipv4_mapped(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        dty = self.dty(F, t, inst)
        if isinstance(x, T) or self.ipty(4) is None:
            return None
        return [(st, self.none(dty) if x.ipv4_mapped is None else self.some(dty, self.ipterm(x.ipv4_mapped)))]

    def f_to_canonical(self, F, bb, st, inst, args, t, sp):
        x = self.ipval(st, args[0])
        dty = self.dty(F, t, inst)
        v = self.it.simp(st, self.peel(st, args[0]))
        if isinstance(x, T):
            # a generic address is not an IPv4-mapped one
            return [(st, v)] if v.op == 'adt' else None
        m = x.ipv4_mapped if x.version == 6 else None
        if m is None:
            return [(st, v)]
        names = [w['n'] for w in self.p.types[dty]['v']]
        return [(st, self.it.adt(dty, names.index('V4'), self.ipterm(m)))]

    # ------------------------------------------------------------ characters
    def ch(self, st, a):
        x = self.it.simp(st, self.peel(st, a))
        return chr(x.a[0]) if x.op == 'int' and 0 <= x.a[0] < 0x110000 else None

    def c_to_digit(self, F, bb, st, inst, args, t, sp):
        c, r = self.ch(st, args[0]), self.it.simp(st, args[1])
        dty = self.dty(F, t, inst)
        if c is None or r.op != 'int':
            return self.default(F, bb, st, inst, args, t, sp)
        try:
            v = int(c, 36) if c.isascii() and c.isalnum() else 99
        except ValueError:
            v = 99
        return [(st, self.some(dty, I(v)) if v < r.a[0] else self.none(dty))]

    def c_is_digit(self, F, bb, st, inst, args, t, sp):
        c, r = self.ch(st, args[0]), self.it.simp(st, args[1])
        if r.op != 'int':
            return self.default(F, bb, st, inst, args, t, sp)
        if c is None:
            x = self.peel(st, args[0])
            if x.op == 'hchar' and cls(x.a[0]) == 'n' and r.a[0] >= 10 or x.op == 'hchar' and cls(x.a[0]) == 'h' and r.a[0] >= 16:
                return [(st, TRUE)]
            return self.default(F, bb, st, inst, args, t, sp)
        return [(st, I(int(c.isascii() and c.isalnum() and int(c, 36) < r.a[0])))]

    def c_from_digit(self, F, bb, st, inst, args, t, sp):
        a, b = self.it.simp(st, args[0]), self.it.simp(st, args[1])
        dty = self.dty(F, t, inst)
        if a.op != 'int' or b.op != 'int':
            return self.default(F, bb, st, inst, args, t, sp)
        return [(st, self.some(dty, I(ord('0123456789abcdefghijklmnopqrstuvwxyz'[a.a[0]]))) if a.a[0] < b.a[0] else self.none(dty))]

    def c_len_utf8(self, F, bb, st, inst, args, t, sp):
        c = self.ch(st, args[0])
        return [(st, I(len(c.encode())))] if c is not None else self.default(F, bb, st, inst, args, t, sp)

    def f_eq_ignore_ascii_case(self, F, bb, st, inst, args, t, sp):
        a, b = self.ch(st, args[0]), self.ch(st, args[1])
        if a is not None and b is not None:
            return [(st, I(int(a.lower() == b.lower())))]
        return super().f_eq_ignore_ascii_case(F, bb, st, inst, args, t, sp)

    def casechar(f):
        def g(self, F, bb, st, inst, args, t, sp):
            c = self.ch(st, args[0])
            return [(st, I(int(f(c))))] if c is not None else None
        return g

    f_is_lowercase, f_is_uppercase = casechar(lambda c: c.islower()), casechar(lambda c: c.isupper())
    f_is_ascii_lowercase = casechar(lambda c: c.isascii() and c.islower())
    f_is_ascii_uppercase = casechar(lambda c: c.isascii() and c.isupper())

    def f_to_ascii_uppercase(self, F, bb, st, inst, args, t, sp):
        c = self.ch(st, args[0])
        if c is not None:
            return [(st, I(ord(c.upper() if c.isascii() else c)))]
        return super().f_to_ascii_uppercase(F, bb, st, inst, args, t, sp)

    # ------------------------------------------------------------ string patterns
    def patc(self, F, bb, st, x, a):
        """pattern argument; a predicate becomes the set of the characters of x it accepts"""
        p = self.pat(st, a)
        f = self.peel(st, a)
        if f.op not in ('clos', 'fn'):
            return p
        ps = parts(x)
        if ps is None:
            raise Nope
        hit = set()
        chars = {c for q in ps if q.op == 'str' for c in q.a[0]}
        cty = self.p.find_ty(lambda k: k['k'] == 'char')
        for c in sorted(chars):
            rs = {self.it.truth(s, self.it.simp(s, r)) for s, r in self.it.call_value(F, bb, st.copy(), f, [I(ord(c))], None, None)}
            if rs == {1}:
                hit.add(c)
            elif rs != {0}:
                raise Nope
        for h in {q for q in ps if cls(q)}:
            rs = {self.it.truth(s, self.it.simp(s, r))
                  for s, r in self.it.call_value(F, bb, st.copy(), f, [mk('hchar', h, ty=cty)], None, None)}
            if rs != {0}:
                raise Nope
        return mk('charpred', tuple(sorted(hit)))

    def wrapc(me):
        sup = getattr(TModels, 'f_' + me)

        def f(self, F, bb, st, inst, args, t, sp):
            i = 2 if me in ('splitn', 'rsplitn') else 1
            if len(args) > i and self.isstr(st, F, t, inst, args) and self.peel(st, args[i]).op in ('clos', 'fn'):
                try:
                    x = self.tm(st, args[0])[0]
                    p = self.patc(F, bb, st, x, args[i])
                    # a set of characters no hole can contain: replace it by one that matches in literals only
                    args = list(args[:i]) + [mk('charset', p.a[0])] + list(args[i + 1:])
                    if any(mayhave(cls(q), c) for q in parts(x) if cls(q) for c in p.a[0]):
                        raise Nope
                    if not p.a[0]:
                        args[i] = S('\x00')
                except Nope:
                    pass
            return sup(self, F, bb, st, inst, args, t, sp)
        return f

    for _m in ('split', 'rsplit', 'splitn', 'rsplitn', 'split_once', 'rsplit_once', 'find', 'rfind', 'contains', 'trim_matches',
               'trim_start_matches', 'trim_end_matches', 'split_terminator'):
        locals()['f_' + _m] = wrapc(_m)
    del _m

    def f_starts_with(self, F, bb, st, inst, args, t, sp):
        rev = method(inst['d']) == 'ends_with'
        xs = self.seq(st, args[0])
        if xs is not None and not self.isstr(st, F, t, inst, args):
            ys = self.seq(st, args[1])
            if ys is None:
                return None
            zs = (xs[len(xs) - len(ys):] if rev else xs[:len(ys)]) if len(ys) <= len(xs) else None
            if zs is None:
                return [(st, FALSE)]
            return self.eq_lists(F, bb, st, inst, mk('arr', *zs), mk('arr', *ys), t, sp)
        try:
            f = self.peel(st, args[1])
            p = self.pat(st, args[1])
            if f.op in ('clos', 'fn') or p.op == 'charset':
                x, ps = self.tm(st, args[0])
                if not ps:
                    return [(st, FALSE)]
                q = ps[-1 if rev else 0]
                cty = self.p.find_ty(lambda k: k['k'] == 'char')
                c = I(ord(q.a[0][-1 if rev else 0])) if q.op == 'str' else mk('hchar', q, ty=cty)
                if p.op == 'charset':
                    if c.op == 'int':
                        return [(st, I(int(chr(c.a[0]) in p.a[0])))]
                    return [(st, FALSE)] if not any(mayhave(cls(q), z) for z in p.a[0]) else None
                return self.it.call_value(F, bb, st, f, [c], None, None)
        except Nope:
            pass
        sup = TModels.f_ends_with if rev else TModels.f_starts_with
        return sup(self, F, bb, st, inst, args, t, sp)

    f_ends_with = f_starts_with

    def f_replace(self, F, bb, st, inst, args, t, sp):
        if not self.isstr(st, F, t, inst, args):
            return None
        try:
            x, ps = self.tm(st, args[0])
            p = self.patc(F, bb, st, x, args[1])
            if p.op == 'charpred':
                p = mk('charset', p.a[0])
                if not p.a[0]:
                    return [(st, x)]
            to = self.pat(st, args[2])
            lim = None
            if method(inst['d']) == 'replacen':
                n = self.it.simp(st, args[3])
                if n.op != 'int':
                    return None
                lim = n.a[0] + 1
            al = split(ps, matcher(p, [q for q in ps if cls(q)]) if lim is None else p, lim)
            out = []
            for i, y in enumerate(al):
                out += [to, y] if i else [y]
            return [(st, cat(*out))]
        except Nope:
            return None

    f_replacen = f_replace

    def f_matches(self, F, bb, st, inst, args, t, sp):
        try:
            x, ps = self.tm(st, args[0])
            p = self.patc(F, bb, st, x, args[1])
            if p.op == 'charpred':
                p = mk('charset', p.a[0])
                if not p.a[0]:
                    return [(st, self.lst([]))]
            oc = occurs(ps, matcher(p, [q for q in ps if cls(q)]))
            bx = self.it.mkbox
            ms = [bx(S(ps[i].a[0][k:k + n])) for i, k, n in oc]
            if method(inst['d']) == 'match_indices':
                ms = [mk('tup', self.it.len_(cat(*(ps[:i] + [S(ps[i].a[0][:k])]))), m) for (i, k, n), m in zip(oc, ms)]
            if method(inst['d']).startswith('r'):
                ms = ms[::-1]
            return [(st, self.lst(ms))]
        except Nope:
            return None

    f_match_indices = f_rmatches = f_rmatch_indices = f_matches

    def f_repeat(self, F, bb, st, inst, args, t, sp):
        n = self.it.simp(st, args[1])
        if n.op != 'int' or n.a[0] > 512:
            return None
        xs = self.seq(st, args[0])
        if xs is not None:
            return [(st, mk('arr', *(xs * n.a[0])))]
        x = self.it.simp(st, self.peel(st, args[0]))
        return [(st, cat(*([x] * n.a[0])))] if parts(x) is not None else None

    def f_bytes(self, F, bb, st, inst, args, t, sp):
        r = self.f_chars(F, bb, st, inst, args, t, sp)
        if r and r[0][1].op == 'iter' and r[0][1].a[0].op == 'arr':
            xs = r[0][1].a[0].a
            if any(x.op == 'int' and x.a[0] > 127 for x in xs):
                xs = [y for x in xs for y in ([I(b) for b in chr(x.a[0]).encode()] if x.op == 'int' else [x])]
            return [(st, self.lst(xs))]
        return super().f_bytes(F, bb, st, inst, args, t, sp)

    def f_char_indices(self, F, bb, st, inst, args, t, sp):
        try:
            x, ps = self.tm(st, args[0])
        except Nope:
            return super().f_char_indices(F, bb, st, inst, args, t, sp)
        out, pre = [], []
        cty = self.p.find_ty(lambda k: k['k'] == 'char')
        for p in ps:
            if p.op == 'str':
                for i, c in enumerate(p.a[0]):
                    out.append(mk('tup', self.it.len_(cat(*(pre + [S(p.a[0][:i])]))), I(ord(c))))
            else:
                out.append(mk('tup', self.it.len_(cat(*pre)), mk('hchar', p, ty=cty)))
            pre = pre + [p]
        return [(st, self.lst(out))]

    def f_make_ascii_lowercase(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is None or parts(v) is None:
            return None
        self.setcell(st, F, cp, self.casefold('lower' if 'lower' in inst['d'] else 'upper', v))
        return [(st, UNIT)]

    f_make_ascii_uppercase = f_make_ascii_lowercase

    def is_string(self, inst):
        return 'string::String' in inst['d'] and 'Vec<' not in inst['d'].split('::')[0]

    def litstr(self, st, a):
        cp = self.cell_of(st, a)
        v = self.getcell(st, cp) if cp else None
        return (cp, v.a[0]) if v is not None and v.op == 'str' else (None, None)

    def f_insert_str(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is None or parts(v) is None:
            return None
        ps = parts(v)
        a, b = self.slice_t(st, ps, None, self.it.simp(st, args[1])), self.slice_t(st, ps, self.it.simp(st, args[1]), None)
        if args[1].op == 'int' and args[1].a[0] == 0:
            a, b = S(''), v
        if a is None or b is None:
            return None
        self.setcell(st, F, cp, cat(a, self.pat(st, args[2]), b))
        return [(st, UNIT)]

    def f_is_char_boundary(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        if x.op == 'str' and args[1].op == 'int':
            b = x.a[0].encode()
            i = args[1].a[0]
            return [(st, I(int(i == len(b) or i < len(b) and b[i] & 0xc0 != 0x80)))]
        return None

    def f_from_utf8(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        x = self.it.simp(st, self.peel(st, args[0]))
        dty = self.dty(F, t, inst)
        lossy = method(inst['d']) == 'from_utf8_lossy'
        if x.op != 'str':
            if xs is None or any(y.op != 'int' for y in xs):
                return None
            try:
                x = S(bytes(y.a[0] for y in xs).decode('utf8'))
            except UnicodeDecodeError:
                return None
        ref = self.it.mkbox(x)
        if lossy:
            return [(st, self.enum_of(dty, 'Borrowed', ref))]
        okt = self.payload_ty(dty, 'Ok')
        return [(st, self.enum_of(dty, 'Ok', ref if self.p.types[okt]['k'] == 'ref' else x))]

    f_from_utf8_lossy = f_from_utf8

    def f_into_bytes(self, F, bb, st, inst, args, t, sp):
        return [(st, self.peel(st, args[0]))]

    def f_into_owned(self, F, bb, st, inst, args, t, sp):
        v = self.it.simp(st, args[0])
        return [(st, self.peel(st, v.a[2]))] if v.op == 'adt' and len(v.a) == 3 else None

    # ------------------------------------------------------------ lists in place
    def f_dedup(self, F, bb, st, inst, args, t, sp):
        me = method(inst['d'])
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        bx = self.it.mkbox
        work = [(st, [])]
        for x in xs:
            nxt = []
            for s, ks in work:
                if not ks:
                    nxt.append((s, [x]))
                    continue
                if me == 'dedup':
                    rs = self.eqv(F, bb, s, inst, ks[-1], x, t, sp)
                elif me == 'dedup_by':
                    rs = [q for s2, r in self.it.call_value(F, bb, s, args[1], [bx(x), bx(ks[-1])], None, None)
                          for q in self.bools(s2, self.it.simp(s2, r))]
                else:
                    rs = []
                    for s2, a in self.it.call_value(F, bb, s, args[1], [bx(ks[-1])], None, None):
                        for s3, b in self.it.call_value(F, bb, s2, args[1], [bx(x)], None, None):
                            rs += self.eqv(F, bb, s3, inst, a, b, t, sp)
                nxt += [(s2, ks if v else ks + [x]) for s2, v in rs]
            work = nxt
            if len(work) > self.it.maxstates:
                raise Undet('too many paths')
        for s, ks in work:
            self.put(s, F, cp, ks)
        return [(s, UNIT) for s, _ in work]

    f_dedup_by = f_dedup_by_key = f_dedup

    def f_retain(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and (method(inst['d']) == 'retain_mut' or 'Map' in inst['d']):
            mp = 'Map' in inst['d']
            work = [(st, [])]
            for x in v.a:
                nxt = []
                for s, ks in work:
                    self.it.fresh += 1
                    c = ('h', 'rm%d' % self.it.fresh)
                    s.mem[c] = x.a[1] if mp else x
                    a = [self.it.mkbox(x.a[0]), mk('ref', c, ())] if mp else [mk('ref', c, ())]
                    for s2, r in self.it.call_value(F, bb, s, args[1], a, None, None):
                        for s3, b in self.bools(s2, self.it.simp(s2, r)):
                            y = s3.mem.pop(c)
                            nxt.append((s3, ks + [mk('tup', x.a[0], y) if mp else y] if b else ks))
                work = nxt
            for s, ks in work:
                self.put(s, F, cp, ks)
            return [(s, UNIT) for s, _ in work]
        if v is not None and v.op == 'str':
            work = [(st, '')]
            for ch in v.a[0]:
                work = [(s3, acc + ch if b else acc) for s, acc in work
                        for s2, r in self.it.call_value(F, bb, s, args[1], [I(ord(ch))], None, None)
                        for s3, b in self.bools(s2, self.it.simp(s2, r))]
            for s, acc in work:
                self.setcell(s, F, cp, S(acc))
            return [(s, UNIT) for s, _ in work]
        return super().f_retain(F, bb, st, inst, args, t, sp)

    f_retain_mut = f_retain

    def f_sort(self, F, bb, st, inst, args, t, sp):
        me = method(inst['d'])
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        cmp = self.plain_cmp if me in ('sort', 'sort_unstable') else self.closure_cmp(F, bb, args[1], 'key' in me)
        rs = self.sorted_by(st, xs, cmp)
        for s, ys in rs:
            self.put(s, F, cp, ys)
        return [(s, UNIT) for s, _ in rs]

    f_sort_unstable = f_sort_by = f_sort_by_key = f_sort_unstable_by = f_sort_unstable_by_key = f_sort_by_cached_key = f_sort

    def f_truncate(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and v.op == 'arr' and args[1].op == 'int':
            self.put(st, F, cp, v.a[:args[1].a[0]])
            return [(st, UNIT)]
        if v is not None and parts(v) is not None and v.op != 'arr':
            r = self.slice_t(st, parts(v), None, self.it.simp(st, args[1]))
            if r is None and v.op == 'str' and args[1].op == 'int' and args[1].a[0] >= len(v.a[0]):
                r = v
            if r is not None:
                self.setcell(st, F, cp, r)
                return [(st, UNIT)]
        sup = getattr(super(), 'f_truncate', None)
        return sup(F, bb, st, inst, args, t, sp) if sup else None

    def f_swap(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None or len(args) != 3 or args[1].op != 'int' or args[2].op != 'int':
            return None
        i, j = args[1].a[0], args[2].a[0]
        if max(i, j) >= len(xs):
            return None
        xs[i], xs[j] = xs[j], xs[i]
        self.put(st, F, cp, xs)
        return [(st, UNIT)]

    def f_rotate_left(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None or args[1].op != 'int' or args[1].a[0] > len(xs):
            return None
        n = args[1].a[0] if 'left' in method(inst['d']) else len(xs) - args[1].a[0]
        self.put(st, F, cp, xs[n:] + xs[:n])
        return [(st, UNIT)]

    f_rotate_right = f_rotate_left

    def f_fill(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        self.put(st, F, cp, [args[1]] * len(xs))
        return [(st, UNIT)]

    def f_resize(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None or args[1].op != 'int' or args[1].a[0] > 512:
            return None
        n = args[1].a[0]
        self.put(st, F, cp, xs[:n] + [args[2]] * (n - len(xs)))
        return [(st, UNIT)]

    def f_split_at(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        if xs is not None and args[1].op == 'int' and args[1].a[0] <= len(xs):
            n = args[1].a[0]
            bx = self.it.mkbox
            return [(st, mk('tup', bx(mk('arr', *xs[:n])), bx(mk('arr', *xs[n:]))))]
        return super().f_split_at(F, bb, st, inst, args, t, sp)

    def f_split_first(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        dty = self.dty(F, t, inst)
        if xs is None:
            return None
        if not xs:
            return [(st, self.none(dty))]
        bx = self.it.mkbox
        a, b = (xs[0], xs[1:]) if 'first' in method(inst['d']) else (xs[-1], xs[:-1])
        return [(st, self.some(dty, mk('tup', bx(a), bx(mk('arr', *b)))))]

    f_split_last = f_split_first

    def f_windows(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        if xs is None or args[1].op != 'int' or args[1].a[0] < 1:
            return None
        n = args[1].a[0]
        me = method(inst['d'])
        if me == 'windows':
            ys = [xs[i:i + n] for i in range(len(xs) - n + 1)]
        else:
            ys = [xs[i:i + n] for i in range(0, len(xs), n)]
            if me == 'chunks_exact':
                ys = [y for y in ys if len(y) == n]
        return [(st, self.lst([self.it.mkbox(mk('arr', *y)) for y in ys]))]

    f_chunks = f_chunks_exact = f_windows

    def f_first_mut(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        dty = self.dty(F, t, inst)
        if xs is None:
            return None
        if not xs:
            return [(st, self.none(dty))]
        i = 0 if 'first' in method(inst['d']) or 'front' in method(inst['d']) else len(xs) - 1
        return [(st, self.some(dty, self.eref(F, dty, cp, i)))]

    f_last_mut = f_front_mut = f_back_mut = f_first_mut

    def eref(self, F, dty, cp, i, *more):
        return mk('ref', cp[0], cp[1] + (('i', I(i), None),) + more)

    def f_get_mut(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        if self.ismap(inst):
            return [(s, self.some(dty, self.eref(F, dty, cp, i, ('f', 1, None))) if i is not None else self.none(dty))
                    for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp)]
        i = self.it.simp(st, args[1])
        if i.op != 'int':
            return None
        return [(st, self.some(dty, self.eref(F, dty, cp, i.a[0])) if i.a[0] < len(xs) else self.none(dty))]

    def f_iter_mut(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        if self.ismap(inst):
            return [(st, self.lst([mk('tup', self.it.mkbox(x.a[0]), self.eref(F, None, cp, i, ('f', 1, None))) for i, x in enumerate(xs)]))]
        return [(st, self.lst([self.eref(F, None, cp, i) for i in range(len(xs))]))]

    def f_values_mut(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        return None if xs is None else [(st, self.lst([self.eref(F, None, cp, i, ('f', 1, None)) for i in range(len(xs))]))]

    def x_from_elem(self, F, bb, st, inst, args, t, sp):
        n = self.it.simp(st, args[1])
        if n.op != 'int' or n.a[0] > 512:
            return self.default(F, bb, st, inst, args, t, sp)
        return [(st, mk('arr', *([args[0]] * n.a[0])))]

    def f_binary_search(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        dty = self.dty(F, t, inst)
        if xs is None:
            return None
        try:
            cs = [self.cmpv(st, x, args[1]) for x in xs]
        except Unord:
            return None
        if 0 in cs:
            return [(st, self.enum_of(dty, 'Ok', I(cs.index(0))))]
        return [(st, self.enum_of(dty, 'Err', I(len([c for c in cs if c < 0]))))]

    def f_is_sorted(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0]) if 'Iterator' not in inst['d'] else self.xs(st, args[0])[1]
        if xs is None or method(inst['d']) == 'is_sorted_by':
            return None
        key = 'key' in method(inst['d'])
        cmp = self.closure_cmp(F, bb, args[1], True) if key else self.plain_cmp
        live, out = [st], []
        for a, b in zip(xs, xs[1:]):
            nxt = []
            for s in live:
                for s2, c in cmp(s, a, b):
                    (nxt if c <= 0 else out).append(s2)
            live = nxt
        return [(s, TRUE) for s in live] + [(s, FALSE) for s in out]

    f_is_sorted_by_key = f_is_sorted

    # deques
    def f_push_back(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        self.put(st, F, cp, xs + [args[1]] if 'back' in method(inst['d']) else [args[1]] + xs)
        return [(st, UNIT)]

    f_push_front = f_push_back

    def f_pop_back(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        if not xs:
            return [(st, self.none(dty))]
        if 'back' in method(inst['d']):
            x = xs.pop()
        else:
            x = xs.pop(0)
        self.put(st, F, cp, xs)
        return [(st, self.some(dty, x))]

    f_pop_front = f_pop_back

    def f_front(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        return [(st, self.some(dty, self.it.mkbox(xs[0 if 'front' in method(inst['d']) else -1])) if xs else self.none(dty))]

    f_back = f_front

    def f_new(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        if self.maps and any(x in d for x in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'VecDeque')) and not args:
            return [(st, mk('arr'))]
        if d.endswith('Ipv4Addr::new') or d.endswith('Ipv6Addr::new'):
            if all(a.op == 'int' for a in args):
                if len(args) == 4:
                    r = self.ipterm(ipaddress.IPv4Address(bytes(a.a[0] for a in args)))
                else:
                    r = self.ipterm(ipaddress.IPv6Address(b''.join(a.a[0].to_bytes(2, 'big') for a in args)))
                return [(st, r)] if r is not None else None
            return None
        return super().f_new(F, bb, st, inst, args, t, sp)

    def f_with_capacity(self, F, bb, st, inst, args, t, sp):
        if self.maps and any(x in inst['d'] for x in ('HashMap', 'HashSet', 'VecDeque')):
            return [(st, mk('arr'))]
        return super().f_with_capacity(F, bb, st, inst, args, t, sp)

    def f_splice(self, F, bb, st, inst, args, t, sp):
        return None

    # ------------------------------------------------------------ iterators
    def xsum(op):
        def f(self, F, bb, st, inst, args, t, sp):
            it = self.it
            cp, xs = self.xs(st, args[0])
            if xs is None:
                return None
            dty = self.dty(F, t, inst)
            if self.p.types[dty]['k'] not in ('int', 'uint'):
                vs = [it.simp(st, self.peel(st, x)) for x in xs]
                if self.p.types[dty]['k'] == 'float' and all(v.op == 'flt' for v in vs):
                    return [(st, mk('flt', float(sum(v.a[0] for v in vs))))]
                return None
            acc = I(0 if op == '+' else 1)
            for x in xs:
                v = it.simp(st, self.peel(st, x))
                if op == '*':
                    if v.op != 'int':
                        return None
                    acc = I(acc.a[0] * v.a[0])
                else:
                    acc = it.add(acc, v)
            return [(st, acc)]
        return f

    f_sum, f_product = xsum('+'), xsum('*')

    def f_max(self, F, bb, st, inst, args, t, sp):
        """Iterator::max / min and their _by forms; Ord::max / min on integers"""
        me = method(inst['d'])
        it = self.it
        big = me.startswith('max')
        if 'Iterator' not in inst['d']:
            if len(args) == 2:
                try:
                    rs = self.plain_cmp(st, args[0], args[1])
                except Undet:
                    return None
                # max gives the second of two equal ones, min the first
                return [(s, (args[0] if c > 0 else args[1]) if big else (args[1] if c > 0 else args[0])) for s, c in rs]
            return None
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        if not xs:
            return [(st, self.none(dty))]
        cmp = self.plain_cmp if me in ('max', 'min') else self.closure_cmp(F, bb, args[1], 'key' in me)
        work = [(st, xs[0])]
        for x in xs[1:]:
            nxt = []
            for s, m in work:
                for s2, c in cmp(s, m, x):
                    nxt.append((s2, (m if c > 0 else x) if big else (x if c > 0 else m)))
            work = nxt
        return [(s, self.some(dty, m)) for s, m in work]

    f_min = f_max_by_key = f_min_by_key = f_max_by = f_min_by = f_max

    def f_clamp(self, F, bb, st, inst, args, t, sp):
        if len(args) != 3:
            return None
        try:
            out = []
            for s, c in self.plain_cmp(st, args[0], args[1]):
                if c < 0:
                    out.append((s, args[1]))
                else:
                    out += [(s2, args[2] if d > 0 else args[0]) for s2, d in self.plain_cmp(s, args[0], args[2])]
            return out
        except Undet:
            return None

    def f_partition(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        work = [(st, [], [])]
        for x in xs:
            nxt = []
            for s, a, b in work:
                for s2, r in self.it.call_value(F, bb, s, args[1], [self.it.mkbox(x)], None, None):
                    for s3, v in self.bools(s2, self.it.simp(s2, r)):
                        nxt.append((s3, a + [x], b) if v else (s3, a, b + [x]))
            work = nxt
            if len(work) > self.it.maxstates:
                raise Undet('too many paths')
        return [(s, mk('tup', mk('arr', *a), mk('arr', *b))) for s, a, b in work]

    def f_unzip(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None or any(x.op != 'tup' for x in xs):
            return None
        return [(st, mk('tup', mk('arr', *[x.a[0] for x in xs]), mk('arr', *[x.a[1] for x in xs])))]

    def f_step_by(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None or args[1].op != 'int' or args[1].a[0] < 1:
            return None
        return [(st, self.lst(xs[::args[1].a[0]]))]

    def f_rposition(self, F, bb, st, inst, args, t, sp):
        me = method(inst['d'])
        cp, xs = self.xs(st, args[0])
        if xs is None or cp is None:
            return None
        dty = self.dty(F, t, inst)
        out, live = [], [st]
        for i in range(len(xs) - 1, -1, -1):
            nxt = []
            for s in live:
                a = xs[i] if me == 'rposition' else self.it.mkbox(xs[i])
                for s2, r in self.it.call_value(F, bb, s, args[1], [a], None, None):
                    for s3, v in self.bools(s2, self.it.simp(s2, r)):
                        if v:
                            self.setcell(s3, F, cp, self.lst(xs[:i]))
                            out.append((s3, self.some(dty, I(i) if me == 'rposition' else xs[i])))
                        else:
                            nxt.append(s3)
            live = nxt
        return out + [(s, self.none(dty)) for s in live]

    def f_rfind(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' in inst['d']:
            return self.f_rposition(F, bb, st, inst, args, t, sp)
        return self.f_find(F, bb, st, inst, args, t, sp)

    def f_next_back(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None or cp is None:
            return None
        dty = self.dty(F, t, inst)
        n = 0
        if method(inst['d']) == 'nth_back':
            if args[1].op != 'int':
                return None
            n = args[1].a[0]
        v = self.getcell(st, cp)
        keep = xs[:max(0, len(xs) - n - 1)]
        if v.op == 'adt':
            self.setcell(st, F, cp, self.it.adt(v.a[0], 0, v.a[2], I(v.a[2].a[0] + len(keep))))
        else:
            self.setcell(st, F, cp, self.lst(keep))
        return [(st, self.some(dty, xs[-1 - n]) if n < len(xs) else self.none(dty))]

    f_nth_back = f_next_back

    def f_try_fold(self, F, bb, st, inst, args, t, sp):
        me = method(inst['d'])
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        k = self.p.types[dty]
        names = [v['n'] for v in k['v']] if k['k'] == 'adt' else []
        good = next((g for g in ('Ok', 'Some', 'Continue') if g in names), None)
        if good is None:
            return None
        acc0 = UNIT if me == 'try_for_each' else args[1]
        clo = args[1] if me == 'try_for_each' else args[2]
        out, live = [], [(st, acc0)]
        for i, x in enumerate(xs):
            nxt = []
            for s, acc in live:
                a = [x] if me == 'try_for_each' else [acc, x]
                for s2, r in self.it.call_value(F, bb, s, clo, a, None, None):
                    r = self.it.simp(s2, r)
                    if r.op != 'adt':
                        raise Undet('try_fold')
                    if self.it.vname(r) == good:
                        nxt.append((s2, r.a[2] if len(r.a) > 2 else UNIT))
                    else:
                        if cp is not None:
                            self.setcell(s2, F, cp, self.lst(xs[i + 1:]))
                        out.append((s2, r))
            live = nxt
        return out + [(s, self.enum_of(dty, good, acc)) for s, acc in live]

    f_try_for_each = f_try_fold

    def f_reduce(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        dty = self.dty(F, t, inst)
        if not xs:
            return [(st, self.none(dty))]
        work = [(st, xs[0])]
        for x in xs[1:]:
            work = [q for s, acc in work for q in self.it.call_value(F, bb, s, args[1], [acc, x], None, None)]
        return [(s, self.some(dty, m)) for s, m in work]

    def f_inspect(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' not in inst['d']:
            return None
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        return [(s, self.lst(xs)) for s, _ in self.each(F, bb, st, xs, args[1], byref=True)]

    def f_scan(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        if xs is None:
            return None
        self.it.fresh += 1
        c = ('h', 'scan%d' % self.it.fresh)
        st.mem[c] = args[1]
        out, live = [], [(st, [])]
        for x in xs:
            nxt = []
            for s, ks in live:
                for s2, r in self.it.call_value(F, bb, s, args[2], [mk('ref', c, ()), x], None, None):
                    r = self.it.simp(s2, r)
                    if r.op != 'adt':
                        raise Undet('scan')
                    if self.it.vname(r) == 'Some':
                        nxt.append((s2, ks + [r.a[2]]))
                    else:
                        out.append((s2, ks))
            live = nxt
        return [(s, self.lst(ks)) for s, ks in out + live]

    def x_once(self, F, bb, st, inst, args, t, sp):
        return [(st, self.lst([args[0]]))]

    def x_empty(self, F, bb, st, inst, args, t, sp):
        return [(st, self.lst([]))]

    def x_repeat(self, F, bb, st, inst, args, t, sp):
        return [(st, mk('repeated', args[0]))]

    def x_repeat_n(self, F, bb, st, inst, args, t, sp):
        n = self.it.simp(st, args[1])
        return [(st, self.lst([args[0]] * n.a[0]))] if n.op == 'int' and n.a[0] <= 512 else self.default(F, bb, st, inst, args, t, sp)

    def f_cycle(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        return None if not xs else [(st, mk('repeated', *xs))]

    def f_take(self, F, bb, st, inst, args, t, sp):
        if args[0].op == 'repeated':
            n = self.it.simp(st, args[1])
            if n.op != 'int' or n.a[0] > 512:
                return None
            xs = args[0].a
            return [(st, self.lst([xs[i % len(xs)] for i in range(n.a[0])]))]
        if 'Iterator' not in inst['d']:
            return None
        if self.isref(args[0]) or args[0].op == 'ref':
            # by_ref().take(n): the underlying iterator moves on
            cp, xs = self.xs(st, args[0])
            n = self.it.simp(st, args[1])
            if xs is not None and cp is not None and n.op == 'int' and self.getcell(st, cp).op == 'iter':
                self.setcell(st, F, cp, self.lst(xs[n.a[0]:]))
                return [(st, self.lst(xs[:n.a[0]]))]
        return super().f_take(F, bb, st, inst, args, t, sp)

    def f_zip(self, F, bb, st, inst, args, t, sp):
        a, b = args[0], args[1]

        def endless(x):
            if x.op == 'repeated':
                return lambda n: [x.a[i % len(x.a)] for i in range(n)]
            if x.op == 'adt' and short(self.p.types[x.a[0]]['n']) == 'RangeFrom' and x.a[2].op == 'int':
                return lambda n: [I(x.a[2].a[0] + i) for i in range(n)]
            return None
        ea, eb = endless(a), endless(b)
        if ea or eb:
            cp, xs = self.xs(st, b if ea else a)
            if xs is None and ea:
                xs = self.conc(st, self.to_iter(st, b, self.aty(F, t, inst, 1)))
            if xs is None or ea and eb:
                return None
            us, vs = (ea(len(xs)), xs) if ea else (xs, eb(len(xs)))
            return [(st, self.lst([mk('tup', u, v) for u, v in zip(us, vs)]))]
        return super().f_zip(F, bb, st, inst, args, t, sp)

    def x_successors(self, F, bb, st, inst, args, t, sp):
        live, out = [(st, args[0], [])], []
        for _ in range(200):
            nxt = []
            for s, o, ks in live:
                o = self.it.simp(s, o)
                if o.op != 'adt':
                    raise Undet('successors')
                if self.it.vname(o) == 'None':
                    out.append((s, ks))
                else:
                    x = o.a[2]
                    nxt += [(s2, r, ks + [x]) for s2, r in self.it.call_value(F, bb, s, args[1], [self.it.mkbox(x)], None, None)]
            live = nxt
            if not live:
                return [(s, self.lst(ks)) for s, ks in out]
            if len(live) > self.it.maxstates:
                break
        raise Undet('successors')

    def x_from_fn(self, F, bb, st, inst, args, t, sp):
        live, out = [(st, [])], []
        self.it.fresh += 1
        c = ('h', 'fromfn%d' % self.it.fresh)
        st.mem[c] = args[0]
        for _ in range(200):
            nxt = []
            for s, ks in live:
                for s2, o in self.call_cell(F, bb, s, c, []):
                    o = self.it.simp(s2, o)
                    if o.op != 'adt':
                        raise Undet('from_fn')
                    if self.it.vname(o) == 'None':
                        out.append((s2, ks))
                    else:
                        nxt.append((s2, ks + [o.a[2]]))
            live = nxt
            if not live:
                return [(s, self.lst(ks)) for s, ks in out]
            if len(live) > self.it.maxstates:
                break
        raise Undet('from_fn')

    def call_cell(self, F, bb, st, c, args):
        f = st.mem[c]
        if f.op != 'clos':
            return self.it.call_value(F, bb, st, f, args, None, None)
        return self.it.call_closure(F, bb, st, f, args, None, None, env=mk('ref', c, ()))

    def each(self, F, bb, st, xs, clo, stop=None, byref=False):
        """closures that own mutable state keep it between calls"""
        v = clo
        if v.op == 'clos' and len(v.a) > 1:
            ci = self.it.closure_inst(v)
            l1 = self.p.types[ci['body']['locals'][1]] if ci and ci['body'] else None
            if l1 is not None and l1['k'] == 'ref' and l1.get('mut'):
                self.it.fresh += 1
                c = ('h', 'fm%d' % self.it.fresh)
                st.mem[c] = v
                work, done = [(st, [])], []
                for x in xs:
                    nxt = []
                    for s, rs in work:
                        for s2, r in self.call_cell(F, bb, s, c, [self.it.mkbox(x) if byref else x]):
                            r = self.it.simp(s2, r)
                            (done if stop and stop(s2, r) else nxt).append((s2, rs + [r]))
                    work = nxt
                    if len(work) + len(done) > self.it.maxstates:
                        raise Undet('too many paths')
                return done + work
        return super().each(F, bb, st, xs, clo, stop, byref)

    def f_next_if(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.xs(st, args[0])
        dty = self.dty(F, t, inst)
        if xs is None or cp is None:
            return None
        if not xs:
            return [(st, self.none(dty))]
        if method(inst['d']) == 'next_if_eq':
            rs = self.eqv(F, bb, st, inst, xs[0], args[1], t, sp)
        else:
            rs = [q for s, r in self.it.call_value(F, bb, st, args[1], [self.it.mkbox(xs[0])], None, None)
                  for q in self.bools(s, self.it.simp(s, r))]
        out = []
        for s, v in rs:
            if v:
                self.setcell(s, F, cp, self.lst(xs[1:]))
            out.append((s, self.some(dty, xs[0]) if v else self.none(dty)))
        return out

    f_next_if_eq = f_next_if

    def f_last(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' in inst['d']:
            cp, xs = self.xs(st, args[0])
            if xs is not None:
                dty = self.dty(F, t, inst)
                return [(st, self.some(dty, xs[-1]) if xs else self.none(dty))]
        if self.ismap(inst):
            xs = self.seq(st, args[0])
            dty = self.dty(F, t, inst)
            return None if xs is None else [(st, self.some(dty, self.it.mkbox(xs[-1])) if xs else self.none(dty))]
        return super().f_last(F, bb, st, inst, args, t, sp)

    # ------------------------------------------------------------ maps and sets: lists of (key, value) / keys
    def ismap(self, inst):
        return self.maps and any(x in inst['d'] for x in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'hash_map', 'btree_map'))

    def isset(self, inst):
        return 'HashSet' in inst['d'] or 'BTreeSet' in inst['d']

    def find_key(self, F, bb, st, inst, xs, k, t, sp, isset=False):
        """[(state, index or None)]"""
        out, live = [], [st]
        for i, x in enumerate(xs):
            nxt = []
            for s in live:
                for s2, v in self.eqv(F, bb, s, inst, x if isset else x.a[0], k, t, sp):
                    if v:
                        out.append((s2, i))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(s, None) for s in live]

    def place_at(self, st, inst, xs, k, isset):
        """index at which a new key goes"""
        if 'BTree' not in inst['d'] and 'btree' not in inst['d']:
            return len(xs)
        try:
            n = 0
            for x in xs:
                if self.cmpv(st, x if isset else x.a[0], k) < 0:
                    n += 1
            return n
        except Unord:
            raise Undet('order of keys')

    def f_insert(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        if self.ismap(inst) and len(args) >= 2:
            if 'Entry' in d:
                e = args[0]
                if e.op == 'vac':
                    return [(st, self.vac_insert(F, st, inst, e, args[1]))]
                cp = self.cell_of(st, args[0])
                e = self.getcell(st, cp) if cp else args[0]
                if e.op == 'occ':
                    vc = (e.a[0], e.a[1] + (('i', I(e.a[2]), None), ('f', 1, None)))
                    old = self.getcell(st, vc)
                    self.setcell(st, F, vc, args[1])
                    return [(st, old)]
                return None
            isset = self.isset(inst)
            cp, xs = self.mseq(st, args[0])
            if xs is None:
                return None
            dty = self.dty(F, t, inst)
            out = []
            for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, isset):
                if i is not None:
                    if isset:
                        out.append((s, FALSE))
                    else:
                        self.put(s, F, cp, xs[:i] + [mk('tup', xs[i].a[0], args[2])] + xs[i + 1:])
                        out.append((s, self.some(dty, xs[i].a[1])))
                else:
                    n = self.place_at(s, inst, xs, args[1], isset)
                    self.put(s, F, cp, xs[:n] + [args[1] if isset else mk('tup', args[1], args[2])] + xs[n:])
                    out.append((s, TRUE if isset else self.none(dty)))
            return out
        if 'string::String' in d:
            return self.f_insert_str(F, bb, st, inst, args, t, sp)
        return super().f_insert(F, bb, st, inst, args, t, sp)

    def vac_insert(self, F, st, inst, e, v):
        cp = (e.a[0], e.a[1])
        xs = list(self.getcell(st, cp).a)
        n = self.place_at(st, inst, xs, e.a[2], False)
        self.put(st, F, cp, xs[:n] + [mk('tup', e.a[2], v)] + xs[n:])
        return self.eref(F, None, cp, n, ('f', 1, None))

    def f_get(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        dty = self.dty(F, t, inst)
        if self.ismap(inst):
            if 'Entry' in d:
                e = self.peel(st, args[0])
                if e.op == 'occ':
                    return [(st, self.it.mkbox(self.it.read_path(st, e.a[0], e.a[1] + (('i', I(e.a[2]), None), ('f', 1, None)))))]
                return None
            xs = self.seq(st, args[0])
            if xs is None:
                return None
            isset = self.isset(inst)
            return [(s, self.none(dty) if i is None else self.some(dty, self.it.mkbox(xs[i] if isset else xs[i].a[1])))
                    for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, isset)]
        if 'cell::Cell' in d:
            return None
        x = self.it.simp(st, self.peel(st, args[0]))
        rg = self.range_of(args[1])
        if rg is not None and (parts(x) is not None or x.op == 'arr'):
            if x.op == 'str' or x.op == 'arr':
                n = len(x.a[0].encode()) if x.op == 'str' else len(x.a)
                a = 0 if rg[0] is None else self.it.simp(st, rg[0]).a[0] if self.it.simp(st, rg[0]).op == 'int' else None
                b = n if rg[1] is None else self.it.simp(st, rg[1]).a[0] if self.it.simp(st, rg[1]).op == 'int' else None
                if a is None or b is None:
                    return None
                if a > b or b > n:
                    return [(st, self.none(dty))]
                if x.op == 'arr':
                    return [(st, self.some(dty, self.it.mkbox(mk('arr', *x.a[a:b]))))]
                if x.a[0].isascii():
                    return [(st, self.some(dty, self.it.mkbox(S(x.a[0][a:b]))))]
                return None
            r = self.slice_t(st, parts(x), *rg)
            return None if r is None else [(st, self.some(dty, self.it.mkbox(r)))]
        if parts(x) is not None and x.op != 'arr' and args[1].op == 'int':
            # as_bytes().get(i)
            r = self.byte_at(x, args[1].a[0])
            if r is None:
                return None
            return [(st, self.none(dty) if r == 'end' else self.some(dty, self.it.mkbox(r)))]
        return super().f_get(F, bb, st, inst, args, t, sp)

    def byte_at(self, x, i):
        for p in parts(x):
            if p.op != 'str':
                return mk('hchar', p) if i == 0 else None
            b = p.a[0].encode()
            if i < len(b):
                return I(b[i])
            i -= len(b)
        return 'end'

    def f_contains_key(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        if not self.ismap(inst) or xs is None:
            return None
        return [(s, I(int(i is not None))) for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, False)]

    def f_index(self, F, bb, st, inst, args, t, sp):
        if self.ismap(inst):
            xs = self.seq(st, args[0])
            if xs is None:
                return None
            out = []
            for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, False):
                if i is not None:
                    out.append((s, self.it.mkbox(xs[i].a[1])))
            return out
        return super().f_index(F, bb, st, inst, args, t, sp)

    def f_remove(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        if self.ismap(inst):
            if 'Entry' in d:
                return None
            cp, xs = self.mseq(st, args[0])
            if xs is None:
                return None
            dty = self.dty(F, t, inst)
            isset = self.isset(inst)
            out = []
            for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, isset):
                if i is not None:
                    self.put(s, F, cp, xs[:i] + xs[i + 1:])
                out.append((s, I(int(i is not None)) if isset else self.none(dty) if i is None else self.some(dty, xs[i].a[1])))
            return out
        if 'string::String' in d:
            cp, v = self.litstr(st, args[0])
            if v is None or args[1].op != 'int' or not v.isascii() or args[1].a[0] >= len(v):
                return None
            i = args[1].a[0]
            self.setcell(st, F, cp, S(v[:i] + v[i + 1:]))
            return [(st, I(ord(v[i])))]
        return super().f_remove(F, bb, st, inst, args, t, sp)

    def f_pop(self, F, bb, st, inst, args, t, sp):
        if 'string::String' in inst['d']:
            cp = self.cell_of(st, args[0])
            v = self.getcell(st, cp) if cp else None
            ps = parts(v) if v is not None else None
            dty = self.dty(F, t, inst)
            if ps is None or ps and ps[-1].op != 'str':
                return None
            if not ps:
                return [(st, self.none(dty))]
            c = ps[-1].a[0][-1]
            self.setcell(st, F, cp, cat(*ps[:-1], S(ps[-1].a[0][:-1])))
            return [(st, self.some(dty, I(ord(c))))]
        return super().f_pop(F, bb, st, inst, args, t, sp)

    def f_split_off(self, F, bb, st, inst, args, t, sp):
        if 'string::String' in inst['d']:
            cp = self.cell_of(st, args[0])
            v = self.getcell(st, cp) if cp else None
            ps = parts(v) if v is not None else None
            if ps is None:
                return None
            i = self.it.simp(st, args[1])
            a, b = self.slice_t(st, ps, None, i), self.slice_t(st, ps, i, None)
            if a is None or b is None:
                return None
            self.setcell(st, F, cp, a)
            return [(st, b)]
        return super().f_split_off(F, bb, st, inst, args, t, sp)

    def f_drain(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and self.ismap(inst) and v.op == 'arr' and len(args) == 1:
            self.put(st, F, cp, [])
            return [(st, self.lst(v.a))]
        if v is not None and v.op == 'str' and v.a[0].isascii():
            rg = self.range_of(args[1])
            if rg is None:
                return None
            a = 0 if rg[0] is None else rg[0].a[0] if rg[0].op == 'int' else None
            b = len(v.a[0]) if rg[1] is None else rg[1].a[0] if rg[1].op == 'int' else None
            if a is None or b is None or b > len(v.a[0]):
                return None
            self.setcell(st, F, cp, S(v.a[0][:a] + v.a[0][b:]))
            return [(st, self.lst([I(ord(c)) for c in v.a[0][a:b]]))]
        return super().f_drain(F, bb, st, inst, args, t, sp)

    def f_keys(self, F, bb, st, inst, args, t, sp):
        if not self.ismap(inst):
            return None
        me = method(inst['d'])
        own = me.startswith('into')
        xs = list(args[0].a) if own and args[0].op == 'arr' else None if own else self.seq(st, args[0])
        if xs is None:
            return None
        i = 0 if 'keys' in me else 1
        return [(st, self.lst([x.a[i] if own else self.it.mkbox(x.a[i]) for x in xs]))]

    f_values = f_into_keys = f_into_values = f_keys

    def f_first_key_value(self, F, bb, st, inst, args, t, sp):
        xs = self.seq(st, args[0])
        if not self.ismap(inst) or xs is None:
            return None
        dty = self.dty(F, t, inst)
        i = 0 if 'first' in method(inst['d']) else -1
        bx = self.it.mkbox
        return [(st, self.some(dty, mk('tup', bx(xs[i].a[0]), bx(xs[i].a[1]))) if xs else self.none(dty))]

    f_last_key_value = f_first_key_value

    def f_first(self, F, bb, st, inst, args, t, sp):
        if self.ismap(inst):
            xs = self.seq(st, args[0])
            dty = self.dty(F, t, inst)
            return None if xs is None else [(st, self.some(dty, self.it.mkbox(xs[0])) if xs else self.none(dty))]
        x = self.it.simp(st, self.peel(st, args[0]))
        if x.op != 'arr' and parts(x) is not None:
            dty = self.dty(F, t, inst)
            r = self.byte_at(x, 0)
            return [(st, self.none(dty) if r == 'end' else self.some(dty, self.it.mkbox(r)))]
        return super().f_first(F, bb, st, inst, args, t, sp)

    def f_iter(self, F, bb, st, inst, args, t, sp):
        if self.ismap(inst) and not self.isset(inst):
            xs = self.seq(st, args[0])
            bx = self.it.mkbox
            return None if xs is None else [(st, self.lst([mk('tup', bx(x.a[0]), bx(x.a[1])) for x in xs]))]
        return super().f_iter(F, bb, st, inst, args, t, sp)

    def f_into_iter(self, F, bb, st, inst, args, t, sp):
        if self.ismap(inst) and not self.isset(inst) and ('&' in inst['d'] or args[0].op in ('box', 'ref')):
            if args[0].op == 'ref' and 'mut' in inst['d']:
                return self.f_iter_mut(F, bb, st, inst, args, t, sp)
            return self.f_iter(F, bb, st, inst, args, t, sp)
        if args[0].op == 'repeated':
            return [(st, args[0])]
        return super().f_into_iter(F, bb, st, inst, args, t, sp)

    def f_is_subset(self, F, bb, st, inst, args, t, sp):
        me = method(inst['d'])
        a, b = self.seq(st, args[0]), self.seq(st, args[1])
        if a is None or b is None:
            return None
        if me == 'is_superset':
            a, b = b, a
        want = me == 'is_disjoint'
        live, out = [st], []
        for x in a:
            nxt = []
            for s in live:
                for s2, i in self.find_key(F, bb, s, inst, b, x, t, sp, True):
                    ((nxt if i is None else out) if want else (out if i is None else nxt)).append(s2)
            live = nxt
        return [(s, TRUE) for s in live] + [(s, FALSE) for s in out]

    f_is_superset = f_is_disjoint = f_is_subset

    def f_entry(self, F, bb, st, inst, args, t, sp):
        cp, xs = self.mseq(st, args[0])
        if not self.ismap(inst) or xs is None:
            return None
        dty = self.dty(F, t, inst)
        out = []
        for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp):
            out.append((s, self.enum_of(dty, 'Vacant', mk('vac', cp[0], cp[1], args[1])) if i is None else
                        self.enum_of(dty, 'Occupied', mk('occ', cp[0], cp[1], i, args[1]))))
        return out

    def entry_do(kind):
        def f(self, F, bb, st, inst, args, t, sp):
            e = args[0]
            if e.op != 'adt' or e.a[2].op not in ('vac', 'occ'):
                return None
            v = e.a[2]
            if v.op == 'occ':
                return [(st, self.eref(F, None, (v.a[0], v.a[1]), v.a[2], ('f', 1, None)))]
            if kind == 'val':
                vals = [(st, args[1])]
            elif kind == 'with':
                vals = self.it.call_value(F, bb, st, args[1], [], None, sp)
            elif kind == 'key':
                vals = self.it.call_value(F, bb, st, args[1], [self.it.mkbox(v.a[2])], None, sp)
            else:
                rt = self.dty(F, t, inst)
                z = self.dflt(self.p.types[rt]['e'])
                if z is None:
                    return None
                vals = [(st, z)]
            return [(s, self.vac_insert(F, s, inst, v, w)) for s, w in vals]
        return f

    f_or_insert, f_or_insert_with = entry_do('val'), entry_do('with')
    f_or_insert_with_key, f_or_default = entry_do('key'), entry_do('default')

    def f_and_modify(self, F, bb, st, inst, args, t, sp):
        e = args[0]
        if e.op != 'adt' or e.a[2].op not in ('vac', 'occ'):
            return None
        if e.a[2].op == 'vac':
            return [(st, e)]
        v = e.a[2]
        return [(s, e) for s, _ in self.it.call_value(F, bb, st, args[1], [self.eref(F, None, (v.a[0], v.a[1]), v.a[2], ('f', 1, None))], None, sp)]

    def f_into_mut(self, F, bb, st, inst, args, t, sp):
        v = args[0]
        return [(st, self.eref(F, None, (v.a[0], v.a[1]), v.a[2], ('f', 1, None)))] if v.op == 'occ' else None

    def f_contains(self, F, bb, st, inst, args, t, sp):
        if self.ismap(inst):
            xs = self.seq(st, args[0])
            if xs is None:
                return None
            return [(s, I(int(i is not None))) for s, i in self.find_key(F, bb, st, inst, xs, args[1], t, sp, True)]
        x = args[0] if args[0].op == 'adt' else self.it.simp(st, self.peel(st, args[0]))
        if x.op == 'adt' and short(self.p.types[x.a[0]]['n']).startswith('Range') and 'contains' in inst['d']:
            n = short(self.p.types[x.a[0]]['n'])
            lo = x.a[2] if n not in ('RangeTo', 'RangeToInclusive') else None
            hi = x.a[3] if n in ('Range', 'RangeInclusive') else x.a[2] if n.startswith('RangeTo') else None
            y = self.peel(st, args[1])
            ty = self.it.ty_of(y) or self.deep_ty(self.aty(F, t, inst, 1))
            it = self.it
            if (y.op == 'int' or ty is not None and self.p.types[ty]['k'] in ('int', 'uint', 'char')) and y.op != 'hchar':
                out = []
                for s, v in (self.bools(st, it.b_not(it.b_lt(y, lo))) if lo is not None else [(st, True)]):
                    if not v:
                        out.append((s, FALSE))
                    elif hi is None:
                        out.append((s, TRUE))
                    else:
                        c = it.b_lt(y, hi) if 'Inclusive' not in n else it.b_not(it.b_lt(hi, y))
                        out += [(s2, I(int(u))) for s2, u in self.bools(s, c)]
                return out
            if y.op == 'flt' and all(z is None or z.op == 'flt' for z in (lo, hi)):
                ok = (lo is None or lo.a[0] <= y.a[0]) and (hi is None or (y.a[0] <= hi.a[0] if 'Inclusive' in n else y.a[0] < hi.a[0]))
                return [(st, I(int(ok)))]
            if y.op == 'hchar' and cls(y.a[0]) != 'w':
                cs = {c for c in map(chr, range(33, 127)) if mayhave(cls(y.a[0]), c)}
                vs = {lo.a[0] <= ord(c) and (ord(c) <= hi.a[0] if 'Inclusive' in n else ord(c) < hi.a[0]) for c in cs}
                if len(vs) == 1:
                    return [(st, I(int(vs.pop())))]
            return None
        v = self.it.simp(st, self.peel(st, args[0]))
        if v.op == 'arr' and not self.isstr(st, F, t, inst, args):
            live, out = [st], []
            for x in v.a:
                nxt = []
                for s in live:
                    for s2, b in self.eqv(F, bb, s, inst, x, args[1], t, sp):
                        (out if b else nxt).append(s2)
                live = nxt
                if len(live) + len(out) > self.it.maxstates:
                    raise Undet('too many paths')
            return [(s, FALSE) for s in live] + [(s, TRUE) for s in out]
        return self.contains_str(F, bb, st, inst, args, t, sp)

    contains_str = wrapc('contains')

    def f_extend(self, F, bb, st, inst, args, t, sp):
        cp = self.cell_of(st, args[0])
        v = self.getcell(st, cp) if cp else None
        if v is not None and ('string::String' in inst['d'] or self.ismap(inst)):
            xs = self.conc(st, self.to_iter(st, args[1], self.aty(F, t, inst, 1)))
            if xs is None:
                return None
            if self.ismap(inst):
                rs = self.build(F, bb, st, inst, list(v.a), xs, t, sp, self.isset(inst), 'BTree' in inst['d'])
                for s, ys in rs:
                    self.put(s, F, cp, ys)
                return [(s, UNIT) for s, _ in rs]
            ys = [self.pat(st, x) for x in xs]
            if parts(v) is None or any(parts(y) is None for y in ys):
                return None
            self.setcell(st, F, cp, cat(v, *ys))
            return [(st, UNIT)]
        return super().f_extend(F, bb, st, inst, args, t, sp)

    def build(self, F, bb, st, inst, xs, new, t, sp, isset, sort):
        work = [(st, list(xs))]
        for y in new:
            y = self.peel(st, y) if y.op in ('box', 'ref') else y
            nxt = []
            for s, ks in work:
                k = y if isset else y.a[0]
                for s2, i in self.find_key(F, bb, s, inst, ks, k, t, sp, isset):
                    if i is None:
                        n = self.place_at(s2, {'d': 'BTree' if sort else ''}, ks, k, isset)
                        nxt.append((s2, ks[:n] + [y] + ks[n:]))
                    else:
                        nxt.append((s2, ks if isset else ks[:i] + [y] + ks[i + 1:]))
            work = nxt
            if len(work) > self.it.maxstates:
                raise Undet('too many paths')
        return work

    def f_collect(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        k = self.p.types[dty]
        nm = short(k['n']) if k['k'] == 'adt' else k['k']
        if nm in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') and self.maps:
            cp, xs = self.xs(st, args[0])
            if xs is None:
                return None
            # keys by reference stay references
            isset = nm.endswith('Set')
            work = [(st, [])]
            for y in xs:
                nxt = []
                for s, ks in work:
                    key = y if isset else y.a[0]
                    for s2, i in self.find_key(F, bb, s, inst, ks, key, t, sp, isset):
                        if i is None:
                            n = self.place_at(s2, {'d': nm}, ks, key, isset)
                            nxt.append((s2, ks[:n] + [y] + ks[n:]))
                        else:
                            nxt.append((s2, ks if isset else ks[:i] + [y] + ks[i + 1:]))
                work = nxt
                if len(work) > self.it.maxstates:
                    raise Undet('too many paths')
            return [(s, mk('arr', *ks)) for s, ks in work]
        if nm in ('VecDeque', 'Box', 'BinaryHeap') or args[0].op == 'adt':
            cp, xs = self.xs(st, args[0])
            if xs is not None and nm in ('VecDeque', 'Box', 'Vec'):
                return [(st, mk('arr', *xs))]
        return super().f_collect(F, bb, st, inst, args, t, sp)

    def f_from(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        k = self.p.types[dty] if dty is not None else None
        nm = short(k['n']) if k is not None and k['k'] == 'adt' else None
        a = self.it.simp(st, self.peel(st, args[0]))
        if nm in ('Vec', 'VecDeque') and a.op == 'arr':
            return [(st, a)]
        if nm in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') and a.op == 'arr' and self.maps:
            return [(s, mk('arr', *ks)) for s, ks in
                    self.build(F, bb, st, inst, [], list(a.a), t, sp, nm.endswith('Set'), nm.startswith('BTree'))]
        if nm == 'Cow' and parts(a) is not None:
            names = [v['n'] for v in k['v']]
            return [(st, self.enum_of(dty, 'Owned', a) if args[0].op not in ('box', 'ref') else self.enum_of(dty, 'Borrowed', args[0]))] \
                if 'Owned' in names else None
        if nm == 'String' and a.op == 'int':
            return [(st, S(chr(a.a[0])))]
        if nm == 'Box' and parts(a) is not None:
            return [(st, a)]
        if nm in ('Rc', 'Arc'):
            return [(st, a)]
        if k is not None and k['k'] == 'float' and a.op in ('flt', 'int'):
            return [(st, mk('flt', float(a.a[0])))]
        if k is not None and k['k'] == 'char' and a.op == 'int':
            return [(st, a)]
        sup = getattr(super(), 'f_from', None)
        return sup(F, bb, st, inst, args, t, sp) if sup else None
