"""Models used by the panic / overflow analysis (properties C01-C03) on top of the general ones:
lengths and bounds of partial views, iterator adapters with known sizes, integer helper functions."""
from terms import *
from prog import *
from models import Models, method, cat

NEG = -2 ** 130
CAP = 2 ** 31
MAXITER = 2 ** 31 - 2
INTOVF = {'abs', 'pow', 'next_power_of_two', 'rem_euclid', 'div_euclid', 'div_ceil', 'next_multiple_of', 'ilog', 'ilog2',
          'ilog10', 'isqrt', 'neg', 'strict_add', 'strict_sub', 'strict_mul', 'strict_neg', 'strict_abs', 'strict_pow',
          'unchecked_add', 'unchecked_sub', 'unchecked_mul'}


class PModels(Models):
    # ------------------------------------------------------------ helpers
    def usize(self):
        return self.p.find_ty(lambda k: k['k'] == 'uint' and k['n'] == 'usize')

    def charty(self):
        return self.p.find_ty(lambda k: k['k'] == 'char')

    def isint(self, ty):
        return ty is not None and self.p.types[ty]['k'] in ('int', 'uint')

    def le(self, st, a, b, by=0):
        """assume a <= b - by"""
        self.it.constrain(st, a, b, NEG, -by)

    def mem_iv(self, st, x, d=6):
        """interval of a size, lengths of existing collections bounded by the memory assumption (< 2 GiB)"""
        it = self.it
        x = it.simp(st, x)
        lo, hi = it.iv(st, x)
        if x.op == 'int' or d <= 0:
            return lo, hi
        if x.op == 'len':
            return lo, min(hi, CAP)
        if x.op in ('add', 'sum', 'mul', 'diff'):
            a, b = self.mem_iv(st, x.a[0], d - 1), self.mem_iv(st, x.a[1], d - 1)
            if x.op == 'mul':
                return lo, min(hi, max(p * q for p in a for q in b))
            if x.op == 'diff':
                return lo, min(hi, a[1] - b[0])
            return lo, min(hi, a[1] + b[1])
        if x.op == 'alt':
            return lo, min(hi, max(self.mem_iv(st, y, d - 1)[1] for _, y in x.a[0]))
        if x.op in ('bDiv', 'bRem', 'bShr', 'satsub') and lo >= 0:
            return lo, min(hi, self.mem_iv(st, x.a[0], d - 1)[1])
        if x.op == 'call' and '::sum' in x.a[0] and lo >= 0:
            # sizes of data in memory
            return lo, min(hi, 2 ** 40)
        if x.op == 'phi' and hi > 2 ** 40 and lo >= 0 and x in it.cbound:
            return lo, min(hi, max(it.cbound[x][2], 0))
        return lo, hi

    def capacity(self, F, bb, st, n, sp, what):
        ok = self.mem_iv(st, n)[1] <= 2 ** 48
        self.it.obligation(st, F, bb, 'capacity', ok, '%s of %s' % (what, show(n, 4)), sp)

    PANICKY_OPS = ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'Neg', 'Shl', 'Shr', 'AddAssign', 'SubAssign', 'MulAssign',
                   'DivAssign', 'RemAssign')

    def default(self, F, bb, st, inst, args, t, sp):
        d = inst['d']
        if ' as std::ops::' in d and not inst['track'] and not inst['docpanic']:
            op = d.split(' as std::ops::')[1].split('>')[0].split('<')[0]
            ty = d.split(' as std::ops::')[0]
            if op in self.PANICKY_OPS and not any(w in ty for w in ('f32', 'f64', 'Wrapping', 'Saturating', 'String', 'Set', 'Cow')):
                self.it.obligation(st, F, bb, 'foreign:' + method(d), False, inst['n'], sp)
        return super().default(F, bb, st, inst, args, t, sp)

    # ------------------------------------------------------------ string views
    def f_trim(self, F, bb, st, inst, args, t, sp):
        return self.shrunk(st, args, super().f_trim(F, bb, st, inst, args, t, sp))

    def shrunk(self, st, args, r):
        """the result is a part of the first argument"""
        if r is None:
            return None
        it = self.it
        n = it.len_(it.simp(st, self.peel(st, args[0])))
        out = []
        for s, v in r:
            try:
                m = it.len_(it.simp(s, self.peel(s, v)))
                if m is not n:
                    self.le(s, m, n)
            except Dead:
                continue
            out.append((s, v))
        return out

    def part(me):
        def f(self, F, bb, st, inst, args, t, sp):
            return self.shrunk(st, args, getattr(Models, 'f_' + me)(self, F, bb, st, inst, args, t, sp))
        return f

    f_trim_start = part('trim_start')
    f_trim_end = part('trim_end')
    f_trim_matches = part('trim_matches')
    f_trim_start_matches = part('trim_start_matches')
    f_trim_end_matches = part('trim_end_matches')

    def f_find(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if 'Iterator' in inst['d']:
            return self.iter_find(F, bb, st, inst, args, t, sp)
        dty = self.dty(F, t, inst)
        x, pt = it.simp(st, self.peel(st, args[0])), self.pat(st, args[1])
        pty = self.aty(F, t, inst, 1)
        pty = self.deep_ty(pty) if pty is not None else None
        if pt.op == 'str':
            by = len(pt.a[0].encode())
        elif pty is not None and self.isstr_ty(pty):
            by = 0
        else:
            by = 1
        out = []
        for s, v in self.split_bool(st, mk('contains', x, pt)):
            if v:
                p = mk('findpos', x, pt, method(inst['d']), ty=self.payload_ty(dty, 'Some'))
                try:
                    self.le(s, p, it.len_(x), by)
                except Dead:
                    continue
                out.append((s, self.enum_of(dty, 'Some', p)))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    f_rfind = f_find

    def f_split_at(self, F, bb, st, inst, args, t, sp):
        it = self.it
        v = it.simp(st, self.peel(st, args[0]))
        n = it.len_(v)
        mid = args[1]
        ok = it.prove_le(st, mid, n)
        det = '%s <= %s' % (show(mid, 4), show(n, 4))
        aty = self.aty(F, t, inst, 0)
        if aty is not None and self.isstr_ty(self.deep_ty(aty)):
            ok = ok and self.boundary(st, v, mid)
            det += ' on a char boundary'
        it.obligation(st, F, bb, 'split_at', ok, det, sp)
        try:
            self.le(st, mid, n)
        except Dead:
            return []
        self.suffix_facts(st, v, mid)
        return [(st, mk('tup', it.mkbox(mk('slice', v, I(0), mid)), it.mkbox(mk('slice', v, mid, None))))]

    def suffix_facts(self, st, v, i):
        """the rest of a string from the position of a pattern starts with it"""
        if i.op == 'findpos' and i.a[0] is v and i.a[1].op == 'str':
            st.facts[mk('starts', mk('slice', v, i, None), i.a[1])] = ('iv', 1, 1)

    # maps: a key is present after `get`/`contains_key` said so and after it was inserted
    def has_key(self, st, m, k, d=6):
        it = self.it
        m = it.simp(st, m)
        if it.truth(st, mk('bool', 'mapget', m, k)):
            return True
        if any(q.op == 'bool' and q.a[0] == 'mapget' and f == ('iv', 1, 1) and q.a[1] is not m and
                   it.simp(st, q.a[2]) is k and it.simp(st, q.a[1]) is m for q, f in st.facts.items()):
            return True
        if m.op == 'alt' and d:
            for c, x in m.a[0]:
                try:
                    if not self.has_key(self.under(st, c), x, k, d - 1):
                        return False
                except Dead:
                    pass
            return True
        return m.op == 'mapins' and (it.simp(st, self.peel(st, m.a[1])) is k or (d > 0 and self.has_key(st, m.a[0], k, d - 1)))

    # `present`: the key was found in, or inserted into, a map made by insertions alone from this one (the values a
    # map can have after a join); never used for the map itself, so an older copy does not profit from it
    def root(self, st, m):
        m = self.it.simp(st, m)
        while m.op == 'mapins':
            m = m.a[0]
        if m.op == 'alt':
            rs = {self.root(st, x) for _, x in m.a[0]}
            return rs.pop() if len(rs) == 1 else None
        if m.op == 'fld' and m.a[0].op == 'alt':
            rs = {self.root(st, self.it.field(st, x, m.a[1], m.a[2], self.it.ty_of(m))) for _, x in m.a[0].a[0]}
            return rs.pop() if len(rs) == 1 else None
        return m

    def present(self, st, m, k, use=False):
        rt = self.root(st, m)
        return mk('bool', 'present', rt, k) if rt is not None and not (use and rt is self.it.simp(st, m)) else None

    def f_contains_key(self, F, bb, st, inst, args, t, sp):
        if 'HashMap' not in inst['d'] and 'BTreeMap' not in inst['d']:
            return None
        m, k = self.it.simp(st, self.peel(st, args[0])), self.it.simp(st, self.peel(st, args[1]))
        if self.has_key(st, m, k):
            return [(st, TRUE)]
        q = self.present(st, m, k)
        out = []
        for s, b in self.split_bool(st, mk('bool', 'mapget', m, k)):
            if b and q is not None:
                self.it.assume(s, q, True)
            out.append((s, TRUE if b else FALSE))
        return out

    def f_insert(self, F, bb, st, inst, args, t, sp):
        q = None
        if 'HashMap' in inst['d'] or 'BTreeMap' in inst['d']:
            m, k = self.it.simp(st, self.peel(st, args[0])), self.it.simp(st, self.peel(st, args[1]))
            q = self.present(st, m, k)
        r = super().f_insert(F, bb, st, inst, args, t, sp)
        for s, _ in r or ():
            if q is not None:
                self.it.assume(s, q, True)
        return r

    def map_index(self, F, bb, st, inst, args, t, sp):
        it = self.it
        m, k = it.simp(st, self.peel(st, args[0])), it.simp(st, self.peel(st, args[1]))
        q = self.present(st, m, k, True)
        it.obligation(st, F, bb, 'index', self.has_key(st, m, k) or q is not None and bool(it.truth(st, q)),
                      'the key is in the map', sp)
        return self.opaque_result(F, bb, st, inst, args, t, sp)

    def f_index(self, F, bb, st, inst, args, t, sp):
        if 'HashMap' in inst['d'] or 'BTreeMap' in inst['d']:
            return self.map_index(F, bb, st, inst, args, t, sp)
        r = super().f_index(F, bb, st, inst, args, t, sp)
        for s, v in r or ():
            x = v.a[0] if v.op == 'box' else v
            if isinstance(x, T) and x.op == 'slice' and x.a[2] is None:
                self.suffix_facts(s, x.a[0], x.a[1])
        return r

    def f_is_ascii(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        aty = self.aty(F, t, inst, 0)
        k = self.p.types[self.deep_ty(aty)]['k'] if aty is not None else None
        if k in ('char', 'uint'):
            return [(st, self.it.b_lt(x, I(128)))]
        if k is None or not self.isstr_ty(self.deep_ty(aty)):
            return None
        return [(st, mk('bool', 'is_ascii', x))]

    def f_is_char_boundary(self, F, bb, st, inst, args, t, sp):
        it = self.it
        x = it.simp(st, self.peel(st, args[0]))
        out = []
        for s, v in self.split_bool(st, mk('bool', 'charb', x, args[1])):
            if v:
                try:
                    self.le(s, args[1], it.len_(x))
                except Dead:
                    continue
            out.append((s, I(1 if v else 0)))
        return out

    def f_len_utf8(self, F, bb, st, inst, args, t, sp):
        it = self.it
        c = it.simp(st, args[0])
        lo, hi = it.iv(st, c)
        if hi < 128:
            return [(st, I(1))]
        r = mk('u8len', c, ty=self.usize())
        it.meet_iv(st, r, 1, 4)
        return [(st, r)]

    def boundary(self, st, s, i):
        if super().boundary(st, s, i):
            return True
        it = self.it
        if st.facts.get(mk('bool', 'is_ascii', s)) == ('iv', 1, 1) or st.facts.get(mk('bool', 'charb', s, i)) == ('iv', 1, 1):
            return True
        if i.op == 'alt':
            arms = [(c, x) for c, x in i.a[0] if it.consistent(st, c)]
            if arms and all(self.boundary(self.under(st, c), s, x) for c, x in arms):
                return True
        if i.op == 'cidx' and i.a[0] is s:
            return True
        if i.op == 'len' and i.a[0].op in ('trim_end', 'trim_end_matches', 'strip') and i.a[0].a[0] is s and \
                (i.a[0].op != 'strip' or i.a[0].a[2] == 'ends'):
            return True
        if i.op == 'diff' and i.a[0] is it.len_(s) and i.a[1].op == 'len' and i.a[1].a[0].op in ('trim_start', 'trim_start_matches', 'strip') \
                and i.a[1].a[0].a[0] is s and (i.a[1].a[0].op != 'strip' or i.a[1].a[0].a[2] == 'starts'):
            return True
        # a boundary of the rest after a boundary
        b0, k0 = it.lin(i)
        if b0 is not None and b0.op == 'sum':
            for x, y in (b0.a, b0.a[::-1]):
                for w in self.rests(y):
                    if w.a[0] is s and (w.a[1] is x and self.boundary(st, w, it.add(y, I(k0)))
                                        or it.sub(w.a[1], x).op == 'int' and self.boundary(st, w, it.add(y, I(k0 - it.sub(w.a[1], x).a[0])))):
                        return True
        b, k = it.lin(i)
        if b is not None and b.op == 'cidx' and b.a[0] is s and k == 1:
            if it.iv(st, mk('item', mk('chars', s), b.a[1], ty=self.charty()))[1] < 128:
                return True
        if b is not None and b.op == 'sum' and k == 0:
            for x, y in (b.a, b.a[::-1]):
                if x.op == 'cidx' and x.a[0] is s and y.op == 'u8len' and y.a[0] is mk('item', mk('chars', s), x.a[1], ty=self.charty()):
                    return True
        if b is not None and b.op == 'findpos' and b.a[0] is s and k == 1 and b.a[1].op == 'charset' and \
                all(c.isascii() for c in b.a[1].a[0]):
            return True
        # next to a byte known to be ASCII
        one = it.add(i, I(-1))
        for k, f in st.facts.items():
            if k.op == 'item' and f[0] == 'iv' and f[2] < 128 and f[1] >= 0 and (k.a[0] is s or k.a[0].op == 'bytes' and k.a[0].a[0] is s) \
                    and (k.a[1] is i or k.a[1] is one) and k.ty is not None and self.p.types[k.ty]['k'] == 'uint':
                return True
        return False

    def rests(self, y):
        """string views a position refers to"""
        y = self.it.lin(y)[0]
        if y is not None and y.op in ('findpos', 'cidx') and y.a[0].op == 'slice':
            yield y.a[0]

    def under(self, st, c):
        s = st.copy()
        self.it.assume_conds(s, c)
        return s

    def parse_out(self, F, bb, st, s, dty, sp, extra=()):
        r = super().parse_out(F, bb, st, s, dty, sp, extra)
        if len(r) != 2:
            return r
        # parsing the same text twice has the same outcome
        c = mk('bool', 'parses', s, *extra, I(self.payload_ty(dty, 'Ok')))
        out = []
        for (s2, v), b in zip(r, (True, False)):
            try:
                self.it.assume(s2, c, b)
                out.append((s2, v))
            except Dead:
                pass
        return out

    # ------------------------------------------------------------ sizes
    def f_with_capacity(self, F, bb, st, inst, args, t, sp):
        self.capacity(F, bb, st, args[-1], sp, 'with_capacity')
        return super().f_with_capacity(F, bb, st, inst, args, t, sp)

    def f_reserve(self, F, bb, st, inst, args, t, sp):
        if len(args) != 2:
            return None
        self.capacity(F, bb, st, args[1], sp, 'reserve')
        return [(st, UNIT)]

    def f_repeat(self, F, bb, st, inst, args, t, sp):
        if len(args) == 2 and self.isint(self.aty(F, t, inst, 1)):
            self.capacity(F, bb, st, args[1], sp, 'repeat')
        return None

    def f_resize(self, F, bb, st, inst, args, t, sp):
        if len(args) == 3:
            self.capacity(F, bb, st, args[1], sp, 'resize')
        return None

    def f_from_elem(self, F, bb, st, inst, args, t, sp):
        if len(args) < 2 or not self.isint(self.aty(F, t, inst, 1)):
            return None
        self.capacity(F, bb, st, args[1], sp, 'vec!')
        return [(st, mk('rep', args[0], args[1]))]

    def f_from_usize(self, F, bb, st, inst, args, t, sp):
        x = self.it.simp(st, self.peel(st, args[0]))
        ok = self.it.iv(st, x)[1] <= 65535
        if not ok and x.op == 'fld':
            own = self.it.ty_of(x.a[0])
            r = self.field_values(own, x.a[2]) if own is not None else None
            ok = r is not None and max(r, default=0) <= 65535
        self.it.obligation(st, F, bb, 'width', ok, 'format width or precision %s' % show(x, 4), sp)
        return super().f_from_usize(F, bb, st, inst, args, t, sp)

    def field_values(self, ty, i):
        """the constants the crate stores in a field, None when it stores anything else"""
        key = ('fv', ty, i)
        if key not in self.cache:
            self.cache[key] = None
            vals = set()
            try:
                for x in self.p.insts:
                    if not x['local'] or not x['body']:
                        continue
                    for b in x['body']['blocks']:
                        for s in b['s']:
                            if s[0] != '=':
                                continue
                            if s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == ty:
                                vals |= self.consts(x, s[2][2][i])
                            pr = s[1][1]
                            if pr and isinstance(pr[-1], list) and pr[-1][0] == 'f' and pr[-1][1] == i and \
                                    self.place_owner(x, s[1]) in (ty, None):
                                raise LookupError
                self.cache[key] = vals
            except LookupError:
                pass
        return self.cache[key]

    def place_owner(self, x, pl):
        ty = x['body']['locals'][pl[0]]
        for e in pl[1][:-1]:
            if e == '*':
                ty = self.p.types[ty].get('e')
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] != 'd':
                return None
            if ty is None:
                return None
        return ty

    def consts(self, x, op, d=4):
        if d <= 0:
            raise LookupError
        if op[0] == 'k':
            a = op[1].get('a')
            if not a or a['p'] or None in a['b']:
                raise LookupError
            return {int.from_bytes(bytes(a['b']), 'little')}
        l, pr = op[1]
        if pr:
            raise LookupError
        if 1 <= l <= x['body']['argc']:
            out = set()
            for y in self.p.insts:
                if not y['body'] or not y['local']:
                    continue
                for b in y['body']['blocks']:
                    tm = b['t']
                    if tm[0] == 'call' and tm[1][0] == 'k' and self.p.types[tm[1][1]['t']].get('inst') == x['i']:
                        out |= self.consts(y, tm[2][l - 1], d - 1)
            return out
        src = []
        for b in x['body']['blocks']:
            for s in b['s']:
                if s[0] == '=' and s[1][0] == l:
                    if s[1][1] or s[2][0] != 'use':
                        raise LookupError
                    src.append(s[2][1])
            if b['t'][0] == 'call' and b['t'][3][0] == l:
                raise LookupError
        if not src:
            raise LookupError
        out = set()
        for o in src:
            out |= self.consts(x, o, d - 1)
        return out

    # ------------------------------------------------------------ slices
    def f_chunks(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if len(args) != 2:
            return None
        v = it.simp(st, self.peel(st, args[0]))
        n = args[1]
        it.obligation(st, F, bb, 'chunks', it.iv(st, n)[0] >= 1, 'size %s is not 0' % show(n, 4), sp)
        return [(st, mk('iter', mk('chunks', v, n, method(inst['d'])), I(0)))]

    f_chunks_exact = f_chunks
    f_windows = f_chunks
    f_rchunks = f_chunks

    def f_last_mut(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        cp = self.cell_of(st, args[0])
        some = self.payload_ty(dty, 'Some')
        if cp is None or some is None:
            return None
        v = self.getcell(st, cp)
        n = it.len_(v)
        ety = self.p.types[some].get('e')
        ix = I(0) if method(inst['d']) == 'first_mut' else it.sub(n, I(1))
        out = []
        for s, e in self.split_bool(st, it.b_eq(n, I(0))):
            out.append((s, self.enum_of(dty, 'None') if e else
                        self.enum_of(dty, 'Some', mk('ref', cp[0], cp[1] + (('i', ix, ety),)))))
        return out

    f_first_mut = f_last_mut

    def f_default(self, F, bb, st, inst, args, t, sp):
        dty = self.dty(F, t, inst)
        if self.isint(dty):
            return [(st, I(0))]
        if dty is not None and self.isstr_ty(dty):
            return [(st, S(''))]
        return None

    def between(self, x, lo, hi):
        return mk('and', self.it.b_not(self.it.b_lt(x, I(lo))), self.it.b_not(self.it.b_lt(I(hi), x)))

    def chclass(lo, hi):
        def f(self, F, bb, st, inst, args, t, sp):
            return [(st, self.between(self.it.simp(st, self.peel(st, args[0])), lo, hi))]
        return f

    f_is_ascii_digit = chclass(48, 57)
    f_is_ascii_uppercase = chclass(65, 90)
    f_is_ascii_lowercase = chclass(97, 122)
    f_is_ascii_control = None

    def f_contains(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if 'ops::Range' in inst['d'] and len(args) == 2:
            r = it.simp(st, self.peel(st, args[0]))
            rg = self.range_of(r)
            x = it.simp(st, self.peel(st, args[1]))
            if rg is None or not all(y is None or it.ty_of(y) is None or self.p.types[it.ty_of(y)]['k'] in ('int', 'uint', 'char')
                                     for y in rg + (x,)):
                return None
            a, b = rg
            c = TRUE
            if a is not None:
                c = it.b_not(it.b_lt(x, a))
            if b is not None:
                d = it.b_lt(x, b)
                c = d if c is TRUE else mk('and', c, d)
            return [(st, c)]
        return super().f_contains(F, bb, st, inst, args, t, sp)

    def f_swap(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if len(args) != 3:
            return None
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        v = self.getcell(st, cp)
        n = it.len_(v)
        for i in args[1:]:
            it.obligation(st, F, bb, 'index', it.prove_lt(st, i, n), '%s < %s' % (show(i, 5), show(n, 5)), sp)
        self.reorder(st, F, cp, v)
        return [(st, UNIT)]

    def reorder(self, st, F, cp, v):
        self.it.fresh += 1
        self.setcell(st, F, cp, mk('sorted', v, I(self.it.fresh)))

    STDCMP = {'cmp', 'total_cmp', 'reverse', 'then', 'then_with', 'deref', 'as_str', 'len', 'borrow', 'as_bytes', 'as_ref'}

    def f_sort(self, F, bb, st, inst, args, t, sp):
        it = self.it
        cp = self.cell_of(st, args[0])
        if cp is None:
            return None
        me = method(inst['d'])
        v = self.getcell(st, cp)
        ok = True
        if len(args) > 1:
            # the key / comparison function itself, on arbitrary elements
            el = it.mkbox(self.element(st, v, args[0]))
            el2 = it.mkbox(self.element(st, v, args[0]))
            by = me.endswith('_by')
            self.isolated(F, bb, st, args[1], [el, el2] if by else [el])
            if by:
                ok = self.total_order(args[1])
        it.obligation(st, F, bb, 'sort', ok, 'comparison built from total orders', sp)
        self.reorder(st, F, cp, self.getcell(st, cp))
        return [(st, UNIT)]

    f_sort_by = f_sort
    f_sort_by_key = f_sort
    f_sort_unstable = f_sort
    f_sort_unstable_by = f_sort
    f_sort_unstable_by_key = f_sort
    f_sort_by_cached_key = f_sort

    def total_order(self, clo):
        """a closure without branches that calls nothing but std comparisons"""
        v = clo
        while v.op == 'box':
            v = v.a[0]
        if v.op == 'fn':
            return True
        if v.op != 'clos':
            return False
        x = self.it.closure_inst(v)
        body = x['body'] if x is not None else None
        if not body:
            return False
        for b in body['blocks']:
            tm = b['t']
            if tm[0] == 'switch':
                return False
            if tm[0] == 'call':
                f = tm[1]
                if f[0] != 'k':
                    return False
                ty = self.p.types[f[1]['t']]
                j = ty.get('inst')
                if j is None or method(self.p.insts[j]['d']) not in self.STDCMP:
                    return False
        return True

    def elem_ty(self, ty):
        ty = self.deep_ty(ty) if ty is not None else None
        k = self.p.types.get(ty) if ty is not None else None
        if k is None:
            return None
        if k['k'] in ('slice', 'array'):
            return k.get('e')
        if k['k'] == 'adt' and short(k['n']) == 'Vec' and k.get('args'):
            a = k['args'][0]
            return a if isinstance(a, int) else None
        return None

    def element(self, st, v, ref=None):
        it = self.it
        it.fresh += 1
        ix = mk('elpos', v, I(it.fresh), ty=self.usize())
        ety = None
        ty = it.ty_of(v)
        k = self.p.types[ty] if ty is not None else None
        if k is not None:
            ety = k.get('e')
        try:
            it.constrain(st, ix, it.len_(v), NEG, -1)
        except Dead:
            pass
        return it.item(st, v, ix, ety)

    # ------------------------------------------------------------ iterators
    def to_iter(self, st, v, ty=None):
        if v.op == 'adt':
            n = short(self.p.types[v.a[0]]['n'])
            if n == 'Range' and not (ty is not None and self.p.types[ty]['k'] == 'adt'):
                return mk('iter', mk('range', v.a[2], v.a[3]), I(0))
        return super().to_iter(st, v, ty)

    def f_into_iter(self, F, bb, st, inst, args, t, sp):
        return [(st, self.to_iter(st, args[0], self.aty(F, t, inst, 0)))]

    def pad(op):
        def f(self, F, bb, st, inst, args, t, sp):
            a = args[0]
            if a.op == 'adt' and short(self.p.types[a.a[0]]['n']) == 'Range' and 'Iterator' in inst['d']:
                a = mk('iter', mk('range', a.a[2], a.a[3]), I(0))
            if op == 'stepby':
                self.it.obligation(st, F, bb, 'step_by', self.it.iv(st, args[1])[0] >= 1, 'step %s is not 0' % show(args[1], 4), sp)
            if op == 'enum' and a.op != 'iter':
                a = self.to_iter(st, a)
            if a.op != 'iter':
                if 'Iterator' not in inst['d']:
                    return None
                a = self.to_iter(st, a)
            return [(st, mk('iter', mk(op, self.at(a), *args[1:]), I(0)))]
        return f

    for _m, _o in (('map', 'map'), ('filter', 'filter'), ('filter_map', 'filtmap'), ('flat_map', 'flatmap'),
                   ('enumerate', 'enum'), ('rev', 'rev'), ('skip', 'skip'), ('take', 'take'), ('take_while', 'takewhile'),
                   ('skip_while', 'skipwhile'), ('step_by', 'stepby'), ('map_while', 'mapwhile')):
        locals()['f_' + _m] = pad(_o)

    def f_zip(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' not in inst['d'] or len(args) != 2:
            return None
        a = args[0] if args[0].op == 'iter' else self.to_iter(st, args[0])
        b = args[1]
        if b.op == 'adt' and short(self.p.types[b.a[0]]['n']) == 'Range':
            b = mk('iter', mk('range', b.a[2], b.a[3]), I(0))
        elif b.op != 'iter':
            b = self.to_iter(st, b, self.aty(F, t, inst, 1))
        if b.op != 'iter':
            return None
        return [(st, mk('iter', mk('zip', self.at(a), self.at(b)), I(0)))]

    def slen(self, stream):
        it = self.it
        op = stream.op
        if op == 'range':
            return it.sub(stream.a[1], stream.a[0])
        if op in ('chunks', 'stepby', 'charix'):
            return mk('len', stream)
        if op == 'char_indices':
            return mk('len', mk('chars', stream.a[0]))
        return super().slen(stream)

    def step(self, F, bb, st, stream, pos):
        it = self.it
        op = stream.op
        if op == 'refs':
            v = stream.a[0]
            return [(st, it.mkbox(it.item(st, v, pos, self.elem_ty(it.ty_of(v)))))]
        if op == 'enum':
            return [(s, mk('tup', pos, x)) for s, x in self.step(F, bb, st, stream.a[0], pos)]
        if op == 'range':
            return [(st, it.add(stream.a[0], pos))]
        if op == 'rev':
            inner = stream.a[0]
            rp = mk('revpos', inner, pos, ty=self.usize())
            try:
                it.constrain(st, rp, self.slen(inner), NEG, -1)
            except Dead:
                return []
            return self.step(F, bb, st, inner, rp)
        if op in ('stepby', 'skip', 'take'):
            inner = stream.a[0]
            if op == 'take' and pos.op != 'star':
                ip = pos
            else:
                ip = mk('ipos', inner, pos, op, marks=it.curmarks())
            try:
                it.meet_iv(st, ip, 0, 2 ** 63 - 1)
                it.constrain(st, ip, self.slen(inner), NEG, -1)
                if op == 'take' and stream.a[1].op in ('int', 'len'):
                    it.constrain(st, ip, stream.a[1], NEG, -1)
            except Dead:
                return []
            return self.step(F, bb, st, inner, ip)
        if op == 'zip':
            a, b = stream.a
            out = []
            try:
                it.constrain(st, pos, self.slen(a), NEG, -1)
                it.constrain(st, pos, self.slen(b), NEG, -1)
            except Dead:
                return []
            for s, x in self.step(F, bb, st, a, pos):
                for s2, y in self.step(F, bb, s, b, pos):
                    out.append((s2, mk('tup', x, y)))
            return out
        if op == 'chunks':
            v, n, kind = stream.a
            x = mk('item', stream, pos)
            m = it.len_(x)
            it.meet_iv(st, m, 0 if kind in ('chunks_exact', 'windows') and it.iv(st, n)[0] < 1 else 1, 2 ** 63 - 1)
            try:
                it.constrain(st, m, n, 0 if kind in ('chunks_exact', 'windows') else NEG, 0)
                it.constrain(st, m, it.len_(v), NEG, 0)
            except Dead:
                return []
            return [(st, it.mkbox(x))]
        if op == 'char_indices':
            s0 = stream.a[0]
            c = mk('item', mk('chars', s0), pos, ty=self.charty())
            i = mk('cidx', s0, pos, ty=self.usize())
            try:
                it.constrain(st, i, it.len_(s0), NEG, -1)
                it.constrain(st, it.add(i, mk('u8len', c, ty=self.usize())), it.len_(s0), NEG, 0)
            except Dead:
                return []
            return [(st, mk('tup', i, c))]
        return super().step(F, bb, st, stream, pos)

    def collect_list(self, F, bb, st, itv):
        itv = self.it.simp(st, itv)
        l, outs = super().collect_list(F, bb, st, itv)
        if l.op in ('range', 'chunks', 'stepby', 'char_indices'):
            stream = l
            el = self.joined(F, st, outs)
            l = mk('arr') if el is None else self.mkcoll(st, stream, el, outs)
        return l, outs

    def nonempty(self, st, itv):
        n = self.slen(self.at(itv))
        return self.split_bool(st, self.it.b_lt(I(0), n))

    def f_max(self, F, bb, st, inst, args, t, sp):
        it = self.it
        d = inst['d']
        me = method(d)
        if len(args) == 2 and self.isint(self.aty(F, t, inst, 0)):
            a, b = it.simp(st, args[0]), it.simp(st, args[1])
            out = []
            for s, lt in self.split_bool(st, it.b_lt(a, b)):
                out.append((s, (b if lt else a) if me == 'max' else (a if lt else b)))
            return out
        if 'Iterator' not in d or args[0].op != 'iter':
            return None
        return self.extremum(F, bb, st, inst, args, t, sp)

    f_min = f_max

    def extremum(self, F, bb, st, inst, args, t, sp):
        """Some element of a non-empty iterator, None of an empty one"""
        it = self.it
        dty = self.dty(F, t, inst)
        itv = args[0]
        if itv.op == 'adt' and short(self.p.types[itv.a[0]]['n']) == 'Range':
            itv = mk('iter', mk('range', itv.a[2], itv.a[3]), I(0))
        if itv.op != 'iter':
            return None
        stream = self.at(itv)
        me = method(inst['d'])
        out = []
        for s, some in self.nonempty(st, itv):
            if not some:
                out.append((s, self.enum_of(dty, 'None')))
                continue
            it.fresh += 1
            pos = mk('expos', stream, I(it.fresh), ty=self.usize(), marks=it.curmarks())
            try:
                it.constrain(s, pos, self.slen(stream), NEG, -1)
                if me == 'last' and stream.op != 'filter':
                    it.constrain(s, pos, self.slen(stream), -1, -1)
            except Dead:
                continue
            for s2, x in self.step(F, bb, s, stream, pos):
                if len(args) > 1:
                    self.isolated(F, bb, s2, args[1], [it.mkbox(x)] * (2 if me.endswith('_by') else 1))
                out.append((s2, self.enum_of(dty, 'Some', x)))
        return out

    f_max_by_key = extremum
    f_min_by_key = extremum
    f_max_by = extremum
    f_min_by = extremum

    def f_last(self, F, bb, st, inst, args, t, sp):
        if 'Iterator' in inst['d']:
            return self.extremum(F, bb, st, inst, args, t, sp)
        return self.f_first(F, bb, st, inst, args, t, sp)

    def f_clamp(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if len(args) != 3 or not self.isint(self.aty(F, t, inst, 0)):
            return None
        x, lo, hi = [it.simp(st, a) for a in args]
        it.obligation(st, F, bb, 'clamp', it.prove_le(st, lo, hi), '%s <= %s' % (show(lo, 4), show(hi, 4)), sp)
        out = []
        for s, v in self.split_bool(st, it.b_lt(x, lo)):
            if v:
                out.append((s, lo))
                continue
            for s2, w in self.split_bool(s, it.b_lt(hi, x)):
                out.append((s2, hi if w else x))
        return out

    # ------------------------------------------------------------ integers
    def f_saturating_sub(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if len(args) != 2 or not self.isint(self.aty(F, t, inst, 0)):
            return None
        a, b = [it.simp(st, x) for x in args]
        ty = self.aty(F, t, inst, 0)
        if self.p.types[ty]['k'] != 'uint':
            return None
        if it.prove_le(st, b, a):
            return [(st, it.sub(a, b))]
        r = mk('satsub', a, b, ty=ty)
        al, ah = it.iv(st, a)
        bl, bh = it.iv(st, b)
        it.meet_iv(st, r, max(0, al - bh), max(0, ah - bl))
        it.constrain(st, r, a, -bh, 0)
        return [(st, r)]

    def f_to_digit(self, F, bb, st, inst, args, t, sp):
        it = self.it
        if len(args) != 2:
            return None
        dty = self.dty(F, t, inst)
        lo, hi = it.iv(st, args[1])
        it.obligation(st, F, bb, 'radix', lo >= 2 and hi <= 36, 'radix in 2..=36', sp)
        out = []
        for s, v in self.split_bool(st, mk('bool', 'isdigit', args[0], args[1])):
            if v:
                r = mk('todigit', args[0], args[1], ty=self.payload_ty(dty, 'Some'))
                it.meet_iv(s, r, 0, max(0, min(hi, 36) - 1))
                out.append((s, self.enum_of(dty, 'Some', r)))
            else:
                out.append((s, self.enum_of(dty, 'None')))
        return out

    def overflows(self, F, bb, st, inst, args, t, sp):
        it = self.it
        me = method(inst['d'])
        ty = self.aty(F, t, inst, 0)
        rg = self.p.int_range(ty) if self.isint(ty) else None
        ok = False
        r = None
        if rg is None:
            return None
        a = it.iv(st, args[0])
        if me == 'abs':
            ok = a[0] > rg[0]
            hi = max(abs(a[0]), abs(a[1]))
            r = (0, min(hi, rg[1]))
        elif me == 'pow' and len(args) == 2:
            b = it.iv(st, args[1])
            if b[1] <= 128 and b[0] >= 0:
                m = max(abs(a[0]), abs(a[1]))
                ok = m ** b[1] <= rg[1]
                r = (0 if a[0] >= 0 else -m ** b[1], m ** b[1]) if ok else None
        elif me in ('rem_euclid', 'div_euclid', 'div_ceil', 'next_multiple_of') and len(args) == 2:
            b = it.iv(st, args[1])
            ok = b[0] > 0 and me != 'next_multiple_of'
            if ok and me == 'rem_euclid':
                r = (0, b[1] - 1)
            elif ok and a[0] >= 0:
                r = (0, a[1])
        elif me.startswith('ilog'):
            ok = a[0] > 0 and (len(args) == 1 or it.iv(st, args[1])[0] >= 2)
            r = (0, 127)
        elif me == 'isqrt':
            ok = a[0] >= 0
        elif me == 'neg':
            ok = a[0] > rg[0]
        elif me == 'next_power_of_two':
            ok = a[1] <= (rg[1] + 1) // 2
        it.obligation(st, F, bb, 'overflow', ok, '%s of %s' % (me, ', '.join(show(x, 4) for x in args)), sp)
        v = mk('call', inst['n'], *args, ty=self.dty(F, t, inst))
        if r is not None:
            it.meet_iv(st, v, *r)
        return [(st, v)]

    for _m in INTOVF:
        locals()['f_' + _m] = overflows

    def f_sum(self, F, bb, st, inst, args, t, sp):
        it = self.it
        dty = self.dty(F, t, inst)
        rg = self.p.int_range(dty) if self.isint(dty) else None
        itv = args[0]
        if itv.op == 'adt' and short(self.p.types[itv.a[0]]['n']) == 'Range':
            itv = mk('iter', mk('range', itv.a[2], itv.a[3]), I(0))
        stream, star, outs = self.starred(F, bb, st, itv)
        self.effects(st, outs)
        if rg is None:
            return [(st, mk('call', inst['n'], stream, ty=dty))]
        n = self.mem_iv(st, self.slen(stream))[1]
        n = min(n, MAXITER)
        lo = hi = 0
        for s, x in outs:
            x = it.simp(s, self.peel(s, x))
            a = it.iv(s, x)
            b = self.mem_iv(s, x)
            lo, hi = min(lo, a[0]), max(hi, b[1])
        prod = method(inst['d']) == 'product'
        ok = not outs or not prod and n * hi <= rg[1] and n * lo >= rg[0]
        it.obligation(st, F, bb, 'overflow', ok, '%s of %s' % (method(inst['d']), show(stream, 4)), sp)
        r = mk('call', inst['n'], stream, ty=dty)
        if ok:
            it.meet_iv(st, r, max(rg[0], n * lo), min(rg[1], n * hi))
        return [(st, r)]

    f_product = f_sum
